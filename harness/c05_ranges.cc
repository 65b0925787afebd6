// C05: exact cover monitor for the work partition, set semantics of ranges.
#include "vh.h"
#include "fern/algorithm/core/index_ranges.h"
namespace fa = fern::algorithm;
using namespace vh;

static void one(size_t nr, size_t size)
{
    mon().at("index_ranges(" + str(nr) + "," + str(size) + ")");
    auto rs = fa::index_ranges(nr, size);
    std::vector<uint8_t> hit(size, 0);
    size_t total = 0, empties = 0;
    for(auto const& r : rs) {
        size_t b = r[0].begin(), e = r[0].end();
        if(!(b <= e && e <= size)) { mon().violation("cover1:outside", "block [" + str(b) + "," + str(e) + ")"); return; }
        total += e - b;
        if(b == e) ++empties;
        if(r.size() != e - b || r[0].size() != e - b || r.empty() != (b == e) || r[0].empty() != (b == e))
            mon().violation("cover1:size", "size() " + str(r.size()) + " empty() of [" + str(b) + "," + str(e) + ")");
        if(total > size) { mon().violation("cover1:overlap", "blocks contain more indices than the extent"); return; }
        for(size_t i = b; i < e; ++i)
            if(hit[i]++) { mon().violation("cover1:overlap", "index " + str(i) + " twice"); return; }
    }
    for(size_t i = 0; i < size; ++i)
        if(!hit[i]) { mon().violation("cover1:missing", "index " + str(i) + " in no block"); break; }
    mon().count("blocks", rs.size());
    mon().seen("1:" + str(nr) + ":" + str(size), size > 0);
}

static void two(size_t nr, size_t s1, size_t s2)
{
    mon().at("index_ranges(" + str(nr) + "," + str(s1) + "," + str(s2) + ")");
    auto rs = fa::index_ranges(nr, s1, s2);
    std::vector<uint8_t> hit(s1 * s2, 0);
    size_t total = 0;
    for(auto const& r : rs) {
        size_t b = r[0].begin(), e = r[0].end(), c = r[1].begin(), d = r[1].end();
        if(!(b <= e && e <= s1 && c <= d && d <= s2)) { mon().violation("cover2:outside", "block outside extent"); return; }
        total += (e - b) * (d - c);
        if(r.size() != (e - b) * (d - c) || r.empty() != ((e - b) * (d - c) == 0))
            mon().violation("cover2:size", "size()/empty() wrong");
        if(total > s1 * s2) { mon().violation("cover2:overlap", "blocks contain more indices than the extent"); return; }
        for(size_t i = b; i < e; ++i) for(size_t j = c; j < d; ++j)
            if(hit[i * s2 + j]++) { mon().violation("cover2:overlap", "cell (" + str(i) + "," + str(j) + ") twice"); return; }
    }
    for(size_t i = 0; i < hit.size(); ++i)
        if(!hit[i]) { mon().violation("cover2:missing", "cell " + str(i) + " in no block"); break; }
    mon().count("blocks", rs.size());
    mon().seen("2:" + str(nr) + ":" + str(s1) + ":" + str(s2), s1 * s2 > 0);
}

// arithmetic-only check for huge extents
static void huge(size_t nr, size_t size)
{
    mon().at("index_ranges huge(" + str(nr) + "," + str(size) + ")");
    std::vector<std::pair<size_t, size_t>> v;
    for(auto const& r : fa::index_ranges(nr, size)) if(!r.empty()) v.emplace_back(r[0].begin(), r[0].end());
    std::sort(v.begin(), v.end());
    size_t pos = 0;
    bool ok = true;
    for(auto const& p : v) { ok = ok && p.first == pos && p.second > p.first; pos = p.second; }
    if(!ok || pos != size) mon().violation("cover1:huge", "blocks do not tile [0,size)");
    mon().seen("h:" + str(nr) + ":" + str(size));
    mon().at("index_ranges huge 2d(" + str(nr) + "," + str(size) + ",7)");
    v.clear();
    ok = true;
    for(auto const& r : fa::index_ranges(nr, size, size_t(7))) if(!r.empty()) { v.emplace_back(r[0].begin(), r[0].end()); ok = ok && r[1].begin() == 0 && r[1].end() == 7; }
    if(ok) { // row blocks; anything else is judged by the exhaustive small cases
        std::sort(v.begin(), v.end());
        pos = 0;
        for(auto const& p : v) { ok = ok && p.first == pos && p.second > p.first; pos = p.second; }
        if(!ok || pos != size) mon().violation("cover2:huge", "blocks do not tile [0,size)x[0,7)");
    }
    mon().seen("h2:" + str(nr) + ":" + str(size));
}

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("c05");
    size_t S = mon().n(260, 700), N = mon().n(70, 200);
    for(size_t s = 0; s <= S; ++s) for(size_t n = 1; n <= N; ++n) one(n, s);
    size_t A = mon().n(26, 48), B = mon().n(9, 14), M = mon().n(28, 60);
    for(size_t s = 0; s <= A; ++s) for(size_t t = 0; t <= B; ++t) for(size_t n = 1; n <= M; ++n) two(n, s, t);
    for(size_t i = 0; i < mon().n(3000, 30000); ++i) one(1 + r.below(r.chance(20) ? 3000 : 64), r.below(4096));
    for(size_t i = 0; i < mon().n(600, 6000); ++i) two(1 + r.below(r.chance(20) ? 300 : 40), r.below(r.chance(50) ? 40 : 260), r.below(r.chance(50) ? 8 : 70));
    for(size_t i = 0; i < mon().n(3000, 30000); ++i)
        huge(1 + r.below(5000), size_t(r.next() >> (r.below(40) + 4)) + 5000 * 5000);

    // equality/size/emptiness of ranges and range sets
    for(size_t i = 0; i < mon().n(40000, 400000); ++i) {
        auto mk = [&]() { size_t b = r.below(4), e = b + r.below(4); return fa::IndexRange(b, e); };
        fa::IndexRange a = mk(), b = mk(), c = mk(), d = mk();
        if(r.chance(40)) c = a;
        if(r.chance(40)) d = b;
        mon().at("range equality");
        auto eqr = [](fa::IndexRange const& x, fa::IndexRange const& y) { return x.begin() == y.begin() && x.end() == y.end(); };
        bool e1 = eqr(a, c), e2 = e1 && eqr(b, d);
        auto show = [&]() { return str(a) + str(b) + " vs " + str(c) + str(d); };
        if((a == c) != e1 || (a != c) != !e1) mon().violation("range:equality", show());
        fa::IndexRanges<2> x(a, b), y(c, d);
        fa::IndexRanges<1> x1(a), y1(c);
        if((x == y) != e2 || (x != y) != !e2) mon().violation("ranges2:equality", show());
        if((x1 == y1) != e1 || (x1 != y1) != !e1) mon().violation("ranges1:equality", show());
        size_t n = (a.end() - a.begin()) * (b.end() - b.begin());
        if(x.size() != n || x.empty() != (n == 0)) mon().violation("ranges2:size", show());
        if(a.size() != a.end() - a.begin() || a.empty() != (a.end() == a.begin())) mon().violation("range:size", show());
        // copies and moves hold the same ranges
        fa::IndexRanges<2> z(x), w;
        w = y;
        if(!(z == x) || !(w == y) || !eqr(z[0], a) || !eqr(z[1], b)) mon().violation("ranges:copy", show());
        fa::IndexRanges<2> m(std::move(z)), k;
        k = std::move(w);
        if(!(m == x) || !(k == y)) mon().violation("ranges:move", show());
        a.set_end(a.begin() + 3);
        if(a.size() != 3) mon().violation("range:set_end", show());
        mon().seen("e:" + show());
        if(i < 3) mon().sample(show());
    }
    return mon().finish();
}

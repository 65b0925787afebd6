// C17: convolution against an independent per-cell reference.
#include "fa.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/policies.h"
#include "fern/algorithm/convolution/neighborhood.h"
#include "fern/algorithm/convolution/neighborhood/kernel.h"
#include "fern/algorithm/convolution/neighborhood/kernel_traits.h"
using namespace vh;
namespace fv = fern::algorithm::convolve;
#ifndef PART
#define PART 0
#endif

template<class T> struct Grid { // what the oracle works on
    long rows, cols; std::vector<T> v; std::vector<char> m;
    bool in(long r, long c) const { return r >= 0 && c >= 0 && r < rows && c < cols; }
    bool ok(long r, long c) const { return in(r, c) && !m[r * cols + c]; }
    // average of the cells around (r, c) that have data, the cell itself left out
    bool around(long r, long c, long double& a) const
    {
        long double s = 0; long k = 0;
        for(long y = r - 1; y <= r + 1; ++y) for(long x = c - 1; x <= c + 1; ++x) if((y != r || x != c) && ok(y, x)) { s += v[y * cols + x]; ++k; }
        if(k) a = s / k;
        return k > 0;
    }
};
struct Want { bool seen = false, heavy = false; long double sum = 0, abs = 0, weights = 0; };
template<class T> Want want_at(Grid<T> const& g, long r, long c, long rad, std::vector<long double> const& w, bool fill_nd, bool fill_out)
{
    Want a; long side = 2 * rad + 1;
    for(long y = -rad; y <= rad; ++y) for(long x = -rad; x <= rad; ++x) {
        long double k = w[(y + rad) * side + x + rad], v = 0;
        bool in = g.in(r + y, c + x), has = g.ok(r + y, c + x);
        if(has) { if(k == 0) continue; v = g.v[(r + y) * g.cols + c + x]; }
        else if(!(in ? fill_nd : fill_out) || !g.around(r + y, c + x, v)) continue;
        a.seen = true; a.heavy = a.heavy || k != 0;
        a.sum += k * v; a.abs += std::fabs(k * v); a.weights += k;
    }
    return a;
}
template<class W> W weight(Rng& r)
{
    if constexpr(std::is_same<W, bool>::value) return r.chance(60);
    else if(r.chance(20)) return W(0);
    else if constexpr(std::is_integral<W>::value) return W(int(r.below(9)) - 4);
    else return W((int(r.below(33)) - 16) / 4.0);
}
template<class W, class F> void with_kernel(Rng& r, long rad, std::vector<long double>& w, bool square, F&& f)
{
    size_t side = 2 * rad + 1;
    auto fill = [&](auto& k) {
        bool positive = r.chance(50);
        for(size_t i = 0; i < side * side; ++i) {
            W x = weight<W>(r);
            if constexpr(!std::is_same<W, bool>::value) if(positive && x < W(0)) x = -x;
            fern::get(k, i) = x; w.push_back((long double)x);
        }
    };
    using L = std::initializer_list<std::initializer_list<W>>;
    W a = weight<W>(r), b = weight<W>(r), c = weight<W>(r);
    if(square && rad == 1 && r.chance(30)) { L l{{a, b, c}, {b, c, a}, {c, c, b}}; fern::Square<W, 1> k(l); for(auto& row : l) for(auto x : row) w.push_back((long double)x); f(k); return; }
    if(!square && rad == 1 && r.chance(30)) { L l{{a, b, c}, {b, c, a}, {c, c, b}}; fern::Kernel<W> k(1, l); for(auto& row : l) for(auto x : row) w.push_back((long double)x); f(k); return; }
    if(square && rad == 2 && r.chance(30)) { L l{{a, b, c, a, b}, {b, c, a, c, c}, {c, c, b, a, a}, {b, a, c, b, c}, {a, a, b, b, c}}; fern::Square<W, 2> k(l); for(auto& row : l) for(auto x : row) w.push_back((long double)x); f(k); return; }
    if(square && rad == 1) { fern::Square<W, 1> k{{W(0), W(0), W(0)}, {W(0), W(0), W(0)}, {W(0), W(0), W(0)}}; fill(k); f(k); return; }
    if(!square && r.chance(20)) { fern::Kernel<W> k(rad, a); for(size_t i = 0; i < side * side; ++i) w.push_back((long double)a); f(k); return; }
    fern::Kernel<W> k(rad, W(0)); fill(k); f(k);
}
template<class T> T cell(Rng& r, bool huge)
{
    if(huge && r.chance(3)) return r.chance(50) ? std::numeric_limits<T>::max() / T(2 + r.below(8)) : -std::numeric_limits<T>::max() / T(2 + r.below(8));
    return r.chance(20) ? T(int(r.below(7)) - 3) : T((int64_t(r.below(4001)) - 2000) / 16.0) * (r.chance(10) ? T(1000) : T(1));
}
// V, W, R: types of source, weights and destination. S: where the marks are kept.
template<class AF, class NP, class OI, class NF, template<class, class> class OR, class V, class W, class R, class S, class DP, class IP, bool square>
void one(Rng& r, fa::ExecutionPolicy* variant, Exec& x, int which)
{
    constexpr bool fill_nd = std::is_same<AF, fv::ReplaceNoDataByFocalAverage>::value, fill_out = std::is_same<OI, fv::ReplaceOutOfImageByFocalAverage>::value;
    constexpr bool divide = std::is_same<NP, fv::DivideByWeights>::value, keep = std::is_same<NF, fv::KeepNoDataFocusElement>::value;
    constexpr bool ranged = std::is_same<OR<V, R>, fv::OutOfRangePolicy<V, R>>::value;
    constexpr bool skip = std::is_same<IP, SkipNoData>::value;
    long rad = r.chance(70) ? 1 + long(r.below(2)) : r.chance(50) ? 3 + long(r.below(2)) : 0;
    Extent e; e.r = std::max<long>(2 * rad, r.chance(10)) + (r.chance(30) ? 0 : r.below(6)); e.c = 2 * rad + (r.chance(30) ? 0 : r.below(6));
    if(r.chance(5)) { e.r += r.below(30); e.c += r.below(30); }
    if(r.below(400) == 0) { if(r.chance(50)) e.r += 100 + r.below(500); else e.c += 100 + r.below(500); }
    Field<V, 2, S> src(e); Field<R, 2, S> dst(e);
    size_t n = src.n(); auto p = pattern(r, n); bool huge = r.chance(15);
    Grid<V> g{long(e.r), long(e.c), {}, {}};
    for(size_t i = 0; i < n; ++i) {
        V v = cell<V>(r, huge); if(v == V(99)) v = V(98);
        src.set(i, v); if(!skip) src.mark(i, p[i]);
        dst.set(i, R(7)); g.v.push_back(v); g.m.push_back(!skip && p[i]);
    }
    std::vector<long double> w;
    std::string key = tn<V>() + "*" + tn<W>() + "->" + tn<R>() + (fill_nd ? ":fillnd" : "") + (fill_out ? ":fillout" : "") + (divide ? ":divide" : "") + (keep ? ":keep" : "") + (ranged ? ":ranged" : "");
    with_kernel<W>(r, rad, w, square, [&](auto const& kernel) {
        mon().at(key + " radius " + std::to_string(rad) + " " + e.show(2) + x.name);
        DP mk = [&]() -> DP { if constexpr(std::is_same<DP, DontMarkNoData>::value) return DP(); else return dst.marker(); }();
        auto const& sv = src.values;
        auto go = [&](auto& policy) {
            if(which == 1) { fa::convolution::convolve(policy, sv, kernel, dst.values); return; }
            fa::InputNoDataPolicies<IP> in(input<IP>(src));
            fa::convolution::convolve<AF, NP, OI, NF, OR>(in, mk, policy, sv, kernel, dst.values);
        };
        if(variant) go(*variant);
        else if(x.policy.which() == 0) go(boost::get<fa::SequentialExecutionPolicy>(x.policy));
        else go(boost::get<fa::ParallelExecutionPolicy>(x.policy));
    });
    static long double const top = std::min<long double>(std::numeric_limits<V>::max(), std::numeric_limits<R>::max());
    static long double const eps = std::max<long double>(std::numeric_limits<V>::epsilon(), std::numeric_limits<R>::epsilon());
    constexpr bool marks = !std::is_same<DP, DontMarkNoData>::value;
    for(long y = 0; y < g.rows; ++y) for(long c = 0; c < g.cols; ++c) {
        size_t i = y * g.cols + c;
        std::string where = (y < rad || y >= g.rows - rad) && (c < rad || c >= g.cols - rad) ? "corner" : y < rad || y >= g.rows - rad || c < rad || c >= g.cols - rad ? "side" : "inner";
        mon().count("cells " + where);
        std::string note;
        auto bad = [&](std::string const& s0) { std::string s = s0 + note;
            std::ostringstream o; o << "cell " << y << "," << c << " of " << e.show(2) << " radius " << rad << ": " << s;
            if(n <= 100) { o << " values"; for(size_t j = 0; j < n; ++j) o << " " << (g.m[j] ? std::string("-") : str(g.v[j])); o << " weights"; for(auto k : w) o << " " << double(k); }
            mon().violation(key + ":" + where, o.str());
        };
        auto got = dst.value(i); bool gm = dst.marked(i), untouched = same(got, R(7));
        auto must_mark = [&]() {
            mon().count("cells without result");
            if(!marks ? !untouched : !gm || (std::is_same<S, ByMask>::value && !untouched)) bad("want no-data, got " + str(got) + (gm ? " marked" : ""));
        };
        if(g.m[i] && keep) { must_mark(); continue; }
        Want a = want_at(g, y, c, rad, w, fill_nd, fill_out);
        if(!a.seen) { must_mark(); continue; }
        note = " sum " + str(double(a.sum)) + " weights " + str(double(a.weights)) + " abs " + str(double(a.abs));
        long double res = divide ? a.sum / a.weights : a.sum;
        bool finite = std::isfinite((R)res) && std::isfinite((R)a.sum);
        bool surely = a.abs < top / 2 && (!divide || (a.weights != 0 && std::fabs(res) < top / 2));
        if(ranged && ((a.abs < top / 2 && !std::isfinite(res)) || std::fabs(a.sum) - 32 * eps * a.abs > 1.01L * std::numeric_limits<R>::max())) { must_mark(); continue; }
        if(!surely || !finite) { mon().count("cells at the edge of the range"); continue; }
        if(!a.heavy && !divide) { mon().count("cells of zero weight only"); if(gm || (!marks && untouched)) continue; }
        long double tol = 8 * eps * a.abs * (w.size() > 20 ? 2 : 1); if(divide) tol /= std::fabs(a.weights);
        tol += 4 * std::numeric_limits<R>::denorm_min();
        if(std::is_same<S, ByValue>::value && marks && std::fabs(res - 99) <= tol) continue;
        mon().count("cells with result");
        if(marks && gm) bad("marked, want " + str(double(res)));
        else if(!(std::fabs((long double)got - res) <= tol)) bad("got " + str(got) + " want " + str(double(res)));
    }
    for(size_t i = 0; i < n; ++i) if((!skip && src.marked(i) != bool(g.m[i])) || (!g.m[i] && !same(src.value(i), g.v[i]))) mon().violation(key + ":source", "source changed");
    mon().seen(key + e.show(2) + x.name + std::to_string(rad) + std::to_string(r.next()), n > 0);
}
template<class V, class W, class R, class S, class IP, bool square> void combos(size_t rounds)
{
    using Mark = typename Field<R, 2, S>::Mark;
    using M = typename std::conditional<std::is_same<S, ByMask>::value, MarkM<2>, Mark>::type; (void)sizeof(M);
    using DP = decltype(std::declval<Field<R, 2, S>&>().marker());
    Rng r = mon().rng("convolve" + tn<V>() + tn<W>() + tn<R>());
    for(size_t k = 0; k < rounds; ++k) {
        Exec& x = execs()[r.below(execs().size())];
#define ONE(AF, NP, OI, NF, OR) one<fv::AF, fv::NP, fv::OI, fv::NF, OR, V, W, R, S, DP, IP, square>(r, &x.policy, x, 0);
#define ALL(AF, NP, OI) ONE(AF, NP, OI, KeepNoDataFocusElement, fv::OutOfRangePolicy) ONE(AF, NP, OI, ReplaceNoDataFocusElement, fv::OutOfRangePolicy)
        ALL(SkipNoData, DivideByWeights, SkipOutOfImage) ALL(SkipNoData, DivideByWeights, ReplaceOutOfImageByFocalAverage)
        ALL(SkipNoData, DontDivideByWeights, SkipOutOfImage) ALL(SkipNoData, DontDivideByWeights, ReplaceOutOfImageByFocalAverage)
        ALL(ReplaceNoDataByFocalAverage, DivideByWeights, SkipOutOfImage) ALL(ReplaceNoDataByFocalAverage, DivideByWeights, ReplaceOutOfImageByFocalAverage)
        ALL(ReplaceNoDataByFocalAverage, DontDivideByWeights, SkipOutOfImage) ALL(ReplaceNoDataByFocalAverage, DontDivideByWeights, ReplaceOutOfImageByFocalAverage)
    }
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    size_t n = mon().n(1200, 12000);
    if(PART == 0) combos<double, double, double, ByMask, DetectM<2>, false>(n);
    if(PART == 1) combos<float, int32_t, double, ByValue, Field<float, 2, ByValue>::Detect, false>(n);
    if(PART == 2) combos<double, bool, float, ByMask, DetectM<2>, true>(n);
    if(PART == 3) {
        Rng r = mon().rng("plain");
        for(size_t k = 0; k < n * 3; ++k) {
            Exec& x = execs()[r.below(execs().size())];
            fa::ExecutionPolicy* v = r.chance(50) ? &x.policy : nullptr;
#define PLAIN(V, W, R, SQ, WHICH) one<fv::SkipNoData, fv::DivideByWeights, fv::SkipOutOfImage, fv::KeepNoDataFocusElement, fa::unary::DiscardRangeErrors, V, W, R, ByMask, DontMarkNoData, SkipNoData, SQ>(r, v, x, WHICH);
            PLAIN(float, float, float, true, 1) PLAIN(double, bool, double, false, 1) PLAIN(float, double, float, false, 1)
            one<fv::SkipNoData, fv::DontDivideByWeights, fv::ReplaceOutOfImageByFocalAverage, fv::ReplaceNoDataFocusElement, fa::unary::DiscardRangeErrors, float, float, float, ByMask, DontMarkNoData, DetectM<2>, true>(r, v, x, 0);
            one<fv::ReplaceNoDataByFocalAverage, fv::DivideByWeights, fv::SkipOutOfImage, fv::KeepNoDataFocusElement, fv::OutOfRangePolicy, double, int32_t, float, ByMask, MarkM<2>, SkipNoData, false>(r, v, x, 0);
        }
    }
    mon().sample("convolve: values and weights are multiples of 1/16 and 1/4, so sums are exact or nearly so");
    return mon().finish();
}

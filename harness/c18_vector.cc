// C18: gradients, slope, Laplacian and Lax against their definitions.
#include "fa.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/space/focal/slope.h"
using namespace vh;
using LD = long double;
#ifndef PART
#define PART 0
#endif

struct Oracle {
    long rows, cols; LD cw, ch; std::vector<LD> v; std::vector<char> m;
    bool ok(long r, long c) const { return r >= 0 && c >= 0 && r < rows && c < cols && !m[r * cols + c]; }
    LD at(long r, long c) const { return v[r * cols + c]; }
    LD around(long r, long c) const // only asked next to a cell with data
    {
        LD s = 0; int k = 0;
        for(long y = r - 1; y <= r + 1; ++y) for(long x = c - 1; x <= c + 1; ++x) if((y != r || x != c) && ok(y, x)) { s += at(y, x); ++k; }
        return s / k;
    }
    LD filled(long r, long c) const { return ok(r, c) ? at(r, c) : around(r, c); }
};
struct Result { bool given = true; LD v = 0, scale = 0, mid = 0; }; // scale: what rounding errors are relative to, mid: size of the largest step on the way

static Result line(Oracle const& o, long r, long c, long dr, long dc, LD d)
{
    bool a = o.ok(r - dr, c - dc), b = o.ok(r + dr, c + dc);
    Result q; LD x = a ? o.at(r - dr, c - dc) : o.at(r, c), y = b ? o.at(r + dr, c + dc) : o.at(r, c);
    if(a || b) { LD w = a && b ? d + d : d; q.v = (y - x) / w; q.mid = std::fabs(x) + std::fabs(y); q.scale = q.mid / w; q.mid = std::max(q.mid, q.scale); }
    return q;
}
static Result slope(Oracle const& o, long r, long c)
{
    static int const kx[3][3] = {{1, 0, -1}, {2, 0, -2}, {1, 0, -1}}, ky[3][3] = {{-1, -2, -1}, {0, 0, 0}, {1, 2, 1}};
    LD x = 0, y = 0, ax = 0, ay = 0;
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
        if(!kx[i][j] && !ky[i][j]) continue;
        LD v = o.filled(r + i - 1, c + j - 1);
        x += kx[i][j] * v; y += ky[i][j] * v; ax += std::abs(kx[i][j]) * std::fabs(v); ay += std::abs(ky[i][j]) * std::fabs(v);
    }
    x /= 8 * o.cw; y /= 8 * o.ch;
    Result q; q.v = std::sqrt(x * x + y * y); q.scale = ax / (8 * o.cw) + ay / (8 * o.ch); q.mid = std::max(ax + ay, q.scale * q.scale);
    return q;
}
static bool weighted(Oracle const& o, long r, long c, LD& s, LD& w, LD& a)
{
    static int const k[3][3] = {{2, 3, 2}, {3, 0, 3}, {2, 3, 2}};
    s = w = a = 0;
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) if(k[i][j] && o.ok(r + i - 1, c + j - 1)) { LD v = o.at(r + i - 1, c + j - 1); s += k[i][j] * v; a += k[i][j] * std::fabs(v); w += k[i][j]; }
    return w > 0;
}
static Result laplace(Oracle const& o, long r, long c)
{
    LD s, w, a; Result q; q.given = weighted(o, r, c, s, w, a);
    q.v = (s - w * o.at(r, c)) / (o.cw * o.ch); q.mid = a + w * std::fabs(o.at(r, c)); q.scale = q.mid / (o.cw * o.ch); q.mid = std::max(q.mid, q.scale);
    return q;
}
static Result laxed(Oracle const& o, long r, long c, LD f)
{
    LD s, w, a; Result q; q.given = weighted(o, r, c, s, w, a);
    if(q.given) { q.v = (1 - f) * o.at(r, c) + f * s / w; q.scale = std::fabs((1 - f) * o.at(r, c)) + std::fabs(f) * a / w; q.mid = a + std::fabs(o.at(r, c)); }
    return q;
}

// Store: 0 no marks, 1 marks in the masks of the rasters, 2 marks as a special value among the values
template<class T, int op, int Store> void one(Rng& r)
{
    constexpr bool masks = Store != 0, special = Store == 2; T const nd = T(99);
    static char const* names[] = {"gradient_x", "gradient_y", "slope", "laplacian", "lax"};
    using Raster = fern::MaskedRaster<T, 2>;
    Exec& x = execs()[r.below(execs().size())];
    size_t least = op < 2 ? 0 : 2;
    size_t rows = least + r.below(r.chance(8) ? 40 : 8), cols = least + r.below(r.chance(8) ? 40 : 8);
    if(r.below(1500) == 0) { if(r.chance(50)) { rows = 200 + r.below(500); cols = least + r.below(3); } else { cols = 200 + r.below(500); rows = least + r.below(3); } }
    static std::vector<double> const sizes{1, 2, 3, 0.5, 10, 0.1, 1000, 0.001, 25.5};
    double cw = r.pick(sizes), ch = r.pick(sizes);
    typename Raster::Transformation t{{double(r.below(100)), cw, double(r.below(100)) - 50, ch}};
    Raster val(extents[rows][cols], t), res(extents[rows][cols], t);
    size_t n = rows * cols; auto p = pattern(r, n);
    Oracle o{long(rows), long(cols), cw, ch, {}, {}};
    int kind = int(r.below(6)); bool huge = r.chance(10);
    T base = kind == 5 ? T(1000) : T(0), step = kind == 4 ? (r.chance(50) ? T(1e-6) : T(sizeof(T) == 4 ? 1e-24 : 1e-180)) : kind == 3 ? T(1e6) : T(1);
    for(size_t i = 0; i < n; ++i) {
        T v = kind == 0 ? T(3) : kind == 1 ? T(i % cols) : base + step * small<T>(r);
        if(huge && r.chance(5)) v = (r.chance(50) ? T(1) : T(-1)) * std::numeric_limits<T>::max() / T(1 + r.below(12));
        if(special && v == nd) v = T(98);
        val.data()[i] = special && p[i] ? nd : v; res.data()[i] = T(-77); o.v.push_back(v); o.m.push_back(masks && p[i]);
        if(Store == 1) val.mask().data()[i] = p[i];
        res.mask().data()[i] = false;
    }
    T f = r.chance(20) ? T(r.below(2)) : T(r.below(17)) / T(16);
    std::string key = std::string(names[op]) + ":" + tn<T>() + (special ? ":by value" : masks ? ":masked" : "");
    mon().at(key + " [" + std::to_string(rows) + "x" + std::to_string(cols) + "] " + x.name);
    auto go = [&](auto& policy) {
        Raster const& cv = val;
        if constexpr(masks) {
            using D = std::conditional_t<special, fa::DetectNoDataByValue<Raster>, DetectM<2>>; using M = std::conditional_t<special, fa::MarkNoDataByValue<Raster>, MarkM<2>>;
            auto run = [&](auto const& in, auto& mk) {
            if constexpr(op == 0) fa::algebra::gradient_x(in, mk, policy, cv, res);
            else if constexpr(op == 1) fa::algebra::gradient_y(in, mk, policy, cv, res);
            else if constexpr(op == 2) fa::space::slope<fa::slope::OutOfRangePolicy>(in, mk, policy, cv, res);
            else if constexpr(op == 3) fa::algebra::laplacian<fa::laplacian::OutOfRangePolicy>(in, mk, policy, cv, res);
            else fa::algebra::lax(in, mk, policy, cv, f, res);
            };
            if constexpr(special) { M mk(res, nd); fa::InputNoDataPolicies<D> in(D(cv, nd)); run(in, mk); }
            else { M mk(res.mask(), true); fa::InputNoDataPolicies<D> in(D(val.mask(), true)); run(in, mk); }
        }
        else {
            if constexpr(op == 0) fa::algebra::gradient_x(policy, cv, res);
            else if constexpr(op == 1) fa::algebra::gradient_y(policy, cv, res);
            else if constexpr(op == 2) fa::space::slope(policy, cv, res);
            else if constexpr(op == 3) fa::algebra::laplacian(policy, cv, res);
            else fa::algebra::lax(policy, cv, f, res);
        }
    };
    bool concrete = op == 3 || r.chance(50);
    if constexpr(op != 3) if(!concrete) go(x.policy);
    if(concrete) { if(x.policy.which() == 0) go(boost::get<fa::SequentialExecutionPolicy>(x.policy)); else go(boost::get<fa::ParallelExecutionPolicy>(x.policy)); }
    LD eps = std::numeric_limits<T>::epsilon();
    for(long y = 0; y < long(rows); ++y) for(long c = 0; c < long(cols); ++c) {
        size_t i = y * cols + c; T got = res.data()[i]; bool gm = special ? got == nd : res.mask().data()[i];
        auto bad = [&](std::string const& s) {
            std::ostringstream w; w << "cell " << y << "," << c << " of " << rows << "x" << cols << " cells " << cw << "x" << ch << " " << x.name << ": " << s;
            if(n <= 36) { w << " values"; for(size_t j = 0; j < n; ++j) w << " " << (o.m[j] ? std::string("-") : str(T(o.v[j]))); }
            mon().violation(key, w.str());
        };
        if(o.m[i]) { mon().count("cells of no-data"); if(!gm || (!special && got != T(-77))) bad("no-data focus cell, got " + str(got) + (gm ? " marked" : "")); continue; }
        Result q = op == 0 ? line(o, y, c, 0, 1, o.cw) : op == 1 ? line(o, y, c, 1, 0, o.ch) : op == 2 ? slope(o, y, c) : op == 3 ? laplace(o, y, c) : laxed(o, y, c, f);
        if(!q.given) { mon().count("cells without neighbours"); if(masks && !gm) bad("no neighbours, not marked: " + str(got)); continue; }
        LD tol = 16 * eps * q.scale + 4 * (op == 2 ? std::sqrt(LD(std::numeric_limits<T>::min())) : LD(std::numeric_limits<T>::min())); // slope squares its terms
        LD top = std::numeric_limits<T>::max();
        if(!(q.mid < top / 64)) {
            if(op >= 2 && std::fabs(q.v) - tol > top) { mon().count("cells out of range"); if(masks && !gm) bad("out of range, not marked: " + str(got)); }
            continue;
        }
        mon().count("cells with a result");
        if(special && gm && std::fabs(q.v - 99) <= tol) continue;
        if(gm) bad("marked, want " + str(double(q.v)));
        else if(!(std::fabs(got - q.v) <= tol)) bad("got " + str(got) + " want " + str(double(q.v)));
    }
    for(size_t i = 0; i < n; ++i) if((!(special && o.m[i]) && val.data()[i] != T(o.v[i])) || (Store == 1 && val.mask().data()[i] != bool(o.m[i]))) mon().violation(key + ":source", "argument changed");
    mon().seen(key + x.name + std::to_string(rows) + "x" + std::to_string(cols) + std::to_string(r.next()), n > 0);
}
template<class T, int op> void both(Rng& r) { one<T, op, 1>(r); one<T, op, 0>(r); if constexpr(std::is_same<T, double>::value) one<T, op, 2>(r); }
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("vector");
    for(size_t k = 0; k < mon().n(3000, 50000); ++k) {
        if(PART == 0) { both<double, 0>(r); both<double, 1>(r); both<float, 0>(r); both<float, 1>(r); both<double, 4>(r); }
        if(PART == 1) { both<double, 2>(r); }
        if(PART == 2) { both<float, 2>(r); }
        if(PART == 3) { both<double, 3>(r); }
        if(PART == 4) { both<float, 3>(r); both<float, 4>(r); }
    }
    mon().sample("gradient_x, gradient_y, slope, laplacian, lax of rasters with and without no-data");
    return mon().finish();
}

// C07: power, factorial and absolute value against exact references.
#include "fa.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/factorial.h"
#include "fern/algorithm/algebra/elementary/pow.h"
using namespace vh;
using In1 = fa::InputNoDataPolicies<SkipNoData>;
using In2 = fa::InputNoDataPolicies<SkipNoData, SkipNoData>;

template<class T> void one(std::string const& op, char const* shape, std::string const& in, bool marked, T got, bool ok, T want, double tol)
{
    std::string key = op + ":" + tn<T>() + ":" + shape;
    auto show = [&]() { return op + "(" + in + "): got " + (marked ? "no-data" : str(got)) + " want " + (ok ? str(want) : "no-data"); };
    if(marked == ok) mon().violation(key + (ok ? ":rejected" : ":accepted"), show());
    else if(ok) {
        bool good;
        if constexpr(std::is_floating_point<T>::value) good = ulps(got, want) <= tol; else good = got == want;
        if(!good) mon().violation(key + ":value", show());
    }
    mon().seen(op + tn<T>() + shape + in);
    mon().count(ok ? "valid results" : "marked results");
}

template<class T> void absolutes(Rng& r)
{
    size_t n = mon().n(400, 5000);
    fa::SequentialExecutionPolicy seq;
    std::vector<T> v(n);
    for(auto& x : v) { x = value<T>(r); if(r.chance(10)) x = std::numeric_limits<T>::min(); if(r.chance(10)) x = std::numeric_limits<T>::lowest(); }
    auto want = [](T x, T& w) {
        if constexpr(std::is_floating_point<T>::value) { w = std::fabs(x); return true; }
        else { i128 y = x; if(y < 0) y = -y; w = T(y); return y <= i128(std::numeric_limits<T>::max()); }
    };
    mon().at("absolute " + tn<T>());
    fern::Array<T, 1> res(extents[n]); Mask<1> m(extents[n]); MarkM<1> mark(m);
    fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(In1{{}}, mark, seq, v, res);
    for(size_t i = 0; i < n; ++i) { T w{}; bool ok = want(v[i], w); one<T>("absolute", "1d", str(v[i]), m[i], res[i], ok, w, 0); }
    for(size_t i = 0; i < 40; ++i) {
        T w{}; bool ok = want(v[i], w);
        T g{}; bool mm = false; Mark0 mk(mm, true);
        T const x = v[i];
        fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(In1{{}}, mk, seq, x, g);
        one<T>("absolute", "0d", str(x), mm, g, ok, w, 0);
        if(ok) { T h{}; fa::algebra::absolute(seq, x, h); one<T>("absolute", "plain", str(x), false, h, true, w, 0); }
    }
    size_t rows = 7, cols = 9;
    fern::Array<T, 2> a(extents[rows][cols]), b(extents[rows][cols]); Mask<2> m2(extents[rows][cols]); MarkM<2> mark2(m2);
    for(size_t i = 0; i < rows * cols; ++i) a.data()[i] = v[i];
    fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(In1{{}}, mark2, seq, a, b);
    for(size_t i = 0; i < rows * cols; ++i) { T w{}; bool ok = want(v[i], w); one<T>("absolute", "2d", str(v[i]), m2.data()[i], b.data()[i], ok, w, 0); }
}

template<class T> bool fact(T x, T& w)
{
    if constexpr(std::is_floating_point<T>::value) {
        if(!(x >= 0) || std::trunc(x) != x) return false;
        if(x > 2000) return false;
        long double p = 1;
        for(long double k = 2; k <= x; ++k) p *= k;
        w = T(p);
        return std::isfinite(w);
    } else {
        if(x < 0) return false;
        u128 p = 1;
        for(u128 k = 2; k <= u128(x); ++k) { p *= k; if(p > u128(std::numeric_limits<T>::max())) return false; }
        if(p > u128(std::numeric_limits<T>::max())) return false;
        w = T(p);
        return true;
    }
}

template<class T> void factorials(Rng& r)
{
    size_t n = mon().n(400, 5000);
    fa::SequentialExecutionPolicy seq;
    std::vector<T> v(n);
    for(size_t i = 0; i < n; ++i) {
        if(i < 40) v[i] = T(i);
        else if constexpr(std::is_floating_point<T>::value) {
            switch(r.below(5)) { case 0: v[i] = T(r.below(180)); break; case 1: v[i] = T(r.below(40)) + T(r.unit()); break; case 2: v[i] = -T(r.below(30)); break; case 3: v[i] = T(r.below(40)); break; default: v[i] = value<T>(r); }
        }
        else v[i] = r.chance(60) ? T(r.below(40)) : value<T>(r);
    }
    mon().at("factorial " + tn<T>());
    fern::Array<T, 1> res(extents[n]); Mask<1> m(extents[n]); MarkM<1> mark(m);
    fa::algebra::factorial<fa::factorial::OutOfDomainPolicy, fa::factorial::OutOfRangePolicy>(In1{{}}, mark, seq, v, res);
    double tol = sizeof(T) == 4 ? 4 : 16;
    for(size_t i = 0; i < n; ++i) { T w{}; bool ok = fact(v[i], w); one<T>("factorial", "1d", str(v[i]), m[i], res[i], ok, w, tol); }
    for(size_t i = 0; i < 60; ++i) {
        T w{}; bool ok = fact(v[i], w);
        T g{}; bool mm = false; Mark0 mk(mm, true);
        T const x = v[i];
        mon().at("factorial 0d " + tn<T>() + " " + str(x));
        fa::algebra::factorial<fa::factorial::OutOfDomainPolicy, fa::factorial::OutOfRangePolicy>(In1{{}}, mk, seq, x, g);
        one<T>("factorial", "0d", str(x), mm, g, ok, w, tol);
        if(ok) { T h{}; fa::algebra::factorial(seq, x, h); one<T>("factorial", "plain", str(x), false, h, true, w, tol); }
    }
}

template<class T> void powers(Rng& r)
{
    size_t n = mon().n(6000, 60000);
    fa::SequentialExecutionPolicy seq;
    std::vector<T> a(n), b(n);
    for(size_t i = 0; i < n; ++i) {
        a[i] = value<T>(r); b[i] = value<T>(r);
        switch(r.below(7)) {
        case 0: a[i] = T((r.unit() - 0.5) * 20); b[i] = T(int(r.below(41)) - 20); break;
        case 1: a[i] = T(r.unit() * 20); b[i] = T((r.unit() - 0.5) * 20); break;
        case 2: a[i] = T((r.unit() - 0.5) * 20); b[i] = T((r.unit() - 0.5) * 20); break;
        case 3: a[i] = T(r.chance(50) ? 0.0 : -0.0); b[i] = T(int(r.below(9)) - 4) / 2; break;
        case 4: { a[i] = T(1 + r.unit() * 10); b[i] = std::log(std::numeric_limits<T>::max()) / std::log(a[i]) * T(0.98 + 0.04 * r.unit()); break; }
        default: break;
        }
    }
    auto want = [](T x, T y, T& w) {
        if(x < 0 && std::trunc(y) != y) return false;
        if(x == 0 && y < 0) return false;
        w = T(std::pow((long double)x, (long double)y));
        return std::isfinite(w) != 0;
    };
    // at the very edge of the range the double rounding of the reference decides
    auto edge = [](T x, T y) { long double p = std::fabs(std::pow((long double)x, (long double)y)); long double mx = std::numeric_limits<T>::max();
        return p > mx * (1 - 8 * (long double)std::numeric_limits<T>::epsilon()) && p < mx * (1 + 8 * (long double)std::numeric_limits<T>::epsilon()); };
    mon().at("pow " + tn<T>());
    fern::Array<T, 1> res(extents[n]); Mask<1> m(extents[n]); MarkM<1> mark(m);
    fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(In2{{}, {}}, mark, seq, a, b, res);
    for(size_t i = 0; i < n; ++i) {
        T w{}; bool ok = want(a[i], b[i], w);
        if(edge(a[i], b[i])) continue;
        one<T>("pow", "1d_1d", str(a[i]) + "," + str(b[i]), m[i], res[i], ok, w, 4);
    }
    for(size_t i = 0; i < 200; ++i) {
        T w{}; bool ok = want(a[i], b[i], w);
        if(edge(a[i], b[i])) continue;
        T g{}; bool mm = false; Mark0 mk(mm, true);
        T const x = a[i], y = b[i];
        mon().at("pow 0d " + tn<T>() + " " + str(x) + "," + str(y));
        fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(In2{{}, {}}, mk, seq, x, y, g);
        one<T>("pow", "0d_0d", str(x) + "," + str(y), mm, g, ok, w, 4);
        if(ok) { T h{}; fa::algebra::pow(seq, x, y, h); one<T>("pow", "plain", str(x) + "," + str(y), false, h, true, w, 4); }
    }
    for(size_t k = 0; k < 30; ++k) { // scalar base or exponent over an array
        std::vector<T> c(a.begin() + k * 50, a.begin() + k * 50 + 50), d(b.begin() + k * 50, b.begin() + k * 50 + 50);
        { fern::Array<T, 1> q(extents[50]); Mask<1> mq(extents[50]); MarkM<1> mk(mq); T const y = d[0];
          fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(In2{{}, {}}, mk, seq, c, y, q);
          for(size_t i = 0; i < 50; ++i) { T w{}; bool ok = want(c[i], y, w); if(!edge(c[i], y)) one<T>("pow", "1d_0d", str(c[i]) + "," + str(y), mq[i], q[i], ok, w, 4); } }
        { fern::Array<T, 1> q(extents[50]); Mask<1> mq(extents[50]); MarkM<1> mk(mq); T const x = c[0];
          fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(In2{{}, {}}, mk, seq, x, d, q);
          for(size_t i = 0; i < 50; ++i) { T w{}; bool ok = want(x, d[i], w); if(!edge(x, d[i])) one<T>("pow", "0d_1d", str(x) + "," + str(d[i]), mq[i], q[i], ok, w, 4); } }
    }
}

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("unary");
    each(AllTypes{}, [&](auto* p) { absolutes<std::remove_pointer_t<decltype(p)>>(r); });
    each(AllTypes{}, [&](auto* p) { factorials<std::remove_pointer_t<decltype(p)>>(r); });
    each(RealTypes{}, [&](auto* p) { powers<std::remove_pointer_t<decltype(p)>>(r); });
    mon().sample("absolute/factorial over ten types, pow over two");
    return mon().finish();
}

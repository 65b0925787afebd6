// C08: real functions: domain, range and value against long double references.
#include "fa.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/log.h"
#include "fern/algorithm/algebra/elementary/log2.h"
#include "fern/algorithm/algebra/elementary/log10.h"
#include "fern/algorithm/algebra/elementary/tgamma.h"
#include "fern/algorithm/algebra/elementary/round.h"
#include "fern/algorithm/algebra/elementary/ceil.h"
#include "fern/algorithm/algebra/elementary/floor.h"
#include "fern/algorithm/algebra/elementary/trunc.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/atan.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/tan.h"
using namespace vh;
using LD = long double;

template<class T> bool whole(T x) { if(std::isnan(x)) return false; if(std::isinf(x) || std::fabs(x) >= 9e15) return true; return T(int64_t(x)) == x; }
template<class T> T toward_zero(T x) { if(!(std::fabs(x) < 9e15)) return x; return T(int64_t(x)); }
template<class T> T down(T x) { T t = toward_zero(x); return t > x ? t - 1 : t; }
template<class T> T up(T x) { T t = toward_zero(x); return t < x ? t + 1 : t; }
template<class T> T half_away(T x) { if(!(std::fabs(x) < 9e15)) return x; T t = toward_zero(x); T d = x - t; return d >= T(0.5) ? t + 1 : d <= T(-0.5) ? t - 1 : t; }

// Each function: name, call with and without policies, domain, reference, tolerance, range check on
#define FN(NAME, FULL, PLAIN, DOMAIN, REF, TOL, CHECKED) \
struct F_##NAME { static char const* name() { return #NAME; } \
    template<class I, class O, class X, class V, class R> static void full(I const& i, O& o, X& x, V const& v, R& r) { FULL(i, o, x, v, r); } \
    template<class X, class V, class R> static void plain(X& x, V const& v, R& r) { PLAIN(x, v, r); } \
    template<class T> static bool domain(T x) { (void)x; return DOMAIN; } \
    template<class T> static T ref(T x) { return T(REF); } \
    static constexpr double tol = TOL; static constexpr bool ranged = CHECKED; };
FN(sqrt, fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>, fa::algebra::sqrt, x >= 0, std::sqrt(LD(x)), 1, false)
FN(log, fa::algebra::log<fa::log::OutOfDomainPolicy>, fa::algebra::log, x >= 0, std::log(LD(x)), 3, false)
FN(log2, fa::algebra::log2<fa::log2::OutOfDomainPolicy>, fa::algebra::log2, x >= 0, std::log2(LD(x)), 3, false)
FN(log10, fa::algebra::log10<fa::log10::OutOfDomainPolicy>, fa::algebra::log10, x >= 0, std::log10(LD(x)), 3, false)
#define GAMMA fa::algebra::tgamma<fa::tgamma::OutOfDomainPolicy, fa::tgamma::OutOfRangePolicy>
#define COMMA ,
FN(tgamma, fa::algebra::tgamma<fa::tgamma::OutOfDomainPolicy COMMA fa::tgamma::OutOfRangePolicy>, fa::algebra::tgamma, x >= 0 || !whole(x), std::tgamma(LD(x)), 16, true)
FN(round, fa::algebra::round<>, fa::algebra::round, true, half_away(x), 0, false)
FN(ceil, fa::algebra::ceil<>, fa::algebra::ceil, true, up(x), 0, false)
FN(floor, fa::algebra::floor<>, fa::algebra::floor, true, down(x), 0, false)
FN(trunc, fa::algebra::trunc<>, fa::algebra::trunc, true, toward_zero(x), 0, false)
FN(acos, fa::trigonometry::acos<fa::acos::OutOfDomainPolicy>, fa::trigonometry::acos, x >= -1 && x <= 1, std::acos(LD(x)), 3, false)
FN(asin, fa::trigonometry::asin<fa::asin::OutOfDomainPolicy>, fa::trigonometry::asin, x >= -1 && x <= 1, std::asin(LD(x)), 3, false)
FN(atan, fa::trigonometry::atan<>, fa::trigonometry::atan, true, std::atan(LD(x)), 3, false)
FN(cos, fa::trigonometry::cos<fa::cos::OutOfDomainPolicy>, fa::trigonometry::cos, std::isfinite(x), std::cos(LD(x)), 3, false)
FN(sin, fa::trigonometry::sin<fa::sin::OutOfDomainPolicy>, fa::trigonometry::sin, std::isfinite(x), std::sin(LD(x)), 3, false)
// an odd multiple of half pi (rounded to the type): exact arithmetic on the quotient
template<class T> bool odd_half_pi(T x)
{
    T h = T(1.57079632679489661923132169163975144L);
    if(std::fmod(std::fabs(x), h) != 0) return false;
    return std::fmod(std::fabs(x) / h, T(2)) == 1;
}
FN(tan, fa::trigonometry::tan<fa::tan::OutOfDomainPolicy>, fa::trigonometry::tan, std::isfinite(x) && !odd_half_pi(x), std::tan(LD(x)), 3, false)

template<class T> T argument(Rng& r)
{
    using L = std::numeric_limits<T>;
    switch(r.below(14)) {
    case 0: case 1: return value<T>(r, 0);
    case 2: return T(r.chance(50) ? 1 : -1) * (r.chance(50) ? T(1) : T(0)) ; // 1, -1, 0, -0
    case 3: { T b = T(int(r.below(5)) - 2); return std::nextafter(b, r.chance(50) ? L::infinity() : -L::infinity()); }
    case 4: return T(int64_t(r.below(401)) - 200) + T(0.5);
    case 5: return std::nextafter(T(int64_t(r.below(41)) - 20) + T(0.5), r.chance(50) ? L::infinity() : -L::infinity());
    case 6: return T(int64_t(r.below(401)) - 200);
    case 7: return r.chance(50) ? L::infinity() : -L::infinity();
    case 8: return r.chance(50) ? L::denorm_min() : -L::denorm_min();
    case 9: return T(r.unit() * 2 - 1);
    case 10: { T h = T(1.57079632679489661923132169163975144L); return std::ldexp(h, int(r.below(80))) * (r.chance(50) ? 1 : -1); }
    case 11: { T h = T(1.57079632679489661923132169163975144L); return h * T(int(r.below(9)) - 4); }
    case 12: return T((r.unit() - 0.5) * 400);
    default: return r.chance(50) ? value<T>(r) : L::quiet_NaN();
    }
}

template<class F, class T> void judge(std::string const& shape, T x, bool marked, T before, T got)
{
    std::string key = std::string(F::name()) + ":" + tn<T>() + ":" + shape;
    bool dom = F::template domain<T>(x);
    T want = dom ? F::template ref<T>(x) : T(0);
    bool finite = std::isfinite(want);
    auto show = [&]() { return std::string(F::name()) + "(" + str(x) + ") = " + str(got) + (marked ? " (marked)" : "") + ", want " + (dom ? str(want) : "out of domain"); };
    if(F::ranged && dom) { // at the edge of the range the rounding of the reference decides
        LD p = std::fabs(LD(want)); LD mx = std::numeric_limits<T>::max();
        if(!finite || p > mx * (1 - 40 * LD(std::numeric_limits<T>::epsilon()))) { if(std::fabs(LD(got)) > mx * 0.99L || std::isnan(got)) { if(marked == bool(std::isfinite(got))) mon().violation(key + ":range", show()); mon().count("range edge"); return; } }
    }
    bool want_mark = !dom || (F::ranged && !finite);
    if(marked != want_mark) mon().violation(key + (want_mark ? ":accepted" : ":rejected"), show());
    else if(!dom) { if(!same(got, before)) mon().violation(key + ":overwritten", show()); }
    else if(!marked && !(ulps(got, want) <= F::tol || std::fabs(LD(got) - LD(want)) <= LD(std::numeric_limits<T>::denorm_min()) * 4)) mon().violation(key + ":value", show());
    mon().seen(key + str(x));
    mon().count(want_mark ? "marked results" : "valid results");
}

template<class F, class T> void run(Rng& r)
{
    fa::SequentialExecutionPolicy seq;
    using In = fa::InputNoDataPolicies<SkipNoData>;
    mon().at(std::string(F::name()) + " " + tn<T>());
    { // vector, sequential
        size_t n = mon().n(20000, 400000);
        std::vector<T> v(n), res(n, T(-77)); Mask<1> m(extents[n]); MarkM<1> mk(m);
        for(auto& x : v) x = argument<T>(r);
        F::full(In{{}}, mk, seq, v, res);
        for(size_t i = 0; i < n; ++i) judge<F, T>("1d", v[i], m[i], T(-77), res[i]);
    }
    for(size_t k = 0; k < mon().n(12, 100); ++k) { // arrays, any policy, masked input
        Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
        Field<T, 2> a(e), res(e);
        for(size_t i = 0; i < a.n(); ++i) { a.set(i, argument<T>(r)); res.set(i, T(-77)); a.mark(i, r.chance(20)); }
        fa::InputNoDataPolicies<DetectM<2>> in(a.detect()); auto mk = res.marker();
        F::full(in, mk, x.policy, a.values, res.values);
        for(size_t i = 0; i < a.n(); ++i) {
            if(a.marked(i)) { if(!res.marked(i) || res.value(i) != T(-77)) mon().violation(std::string(F::name()) + ":2d:no-data", "no-data cell not propagated, " + x.name + e.show(2)); }
            else judge<F, T>("2d", a.value(i), res.marked(i), T(-77), res.value(i));
        }
    }
    for(size_t i = 0; i < mon().n(150, 1000); ++i) { // scalars, and the plain form
        T const x = argument<T>(r); T g(-77); bool mm = false; Mark0 mk(mm, true);
        F::full(In{{}}, mk, seq, x, g);
        judge<F, T>("0d", x, mm, T(-77), g);
        if(F::template domain<T>(x)) { T h(-77); F::plain(seq, x, h); T w = F::template ref<T>(x); if(!(ulps(h, w) <= F::tol || (F::ranged && !std::isfinite(w)) || std::fabs(LD(h) - LD(w)) <= LD(std::numeric_limits<T>::denorm_min()) * 4)) mon().violation(std::string(F::name()) + ":plain", str(x) + " gives " + str(h) + " want " + str(w)); }
    }
    mon().sample(std::string(F::name()) + " over random bit patterns, boundaries, halves, multiples of half pi");
}
template<class F> void both(Rng& r) { run<F, float>(r); run<F, double>(r); }

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("real" + std::to_string(PART));
#if PART == 0
    both<F_sqrt>(r); both<F_log>(r); both<F_log2>(r); both<F_log10>(r); both<F_tgamma>(r);
#elif PART == 1
    both<F_round>(r); both<F_ceil>(r); both<F_floor>(r); both<F_trunc>(r); both<F_atan>(r);
#else
    both<F_acos>(r); both<F_asin>(r); both<F_cos>(r); both<F_sin>(r); both<F_tan>(r);
#endif
    return mon().finish();
}

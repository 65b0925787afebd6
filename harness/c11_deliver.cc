// C11: clamp, cast, copy and fill.
#include "fa.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/fill.h"
using namespace vh;

template<class F> void with_policy(Rng& r, Exec& x, F&& f)
{
    if(r.chance(50)) { f(x.policy); return; }
    if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy));
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy));
}
template<class T, size_t DV, size_t DL, size_t DU> void one_clamp(Rng& r)
{
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<T, DV> v(e), res(e); Field<T, DL> lo(e); Field<T, DU> hi(e);
    auto p = pattern(r, v.n());
    int m = int(r.below(3));
    auto val = [&] { return m == 0 ? small<T>(r) : m == 1 ? value<T>(r) : T(r.below(10)); };
    auto vals = [&](size_t n) { std::vector<T> o; for(size_t i = 0; i < n; ++i) o.push_back(val()); return o; };
    for(size_t i = 0; i < v.n(); ++i) { v.set(i, val()); v.mark(i, p[i]); res.set(i, val()); res.mark(i, r.chance(15)); }
    // lower <= upper for every cell
    auto a = vals(lo.n()), b = vals(hi.n());
    if(DL == DU) for(size_t i = 0; i < a.size(); ++i) { if(a[i] > b[i]) std::swap(a[i], b[i]); if(r.chance(10)) b[i] = a[i]; }
    else if(DL < DU) { if(b.size()) a[0] = *std::min_element(b.begin(), b.end()) < a[0] ? *std::min_element(b.begin(), b.end()) : a[0]; }
    else if(a.size()) b[0] = std::max(b[0], *std::max_element(a.begin(), a.end()));
    for(size_t i = 0; i < a.size(); ++i) lo.set(i, a[i]);
    for(size_t i = 0; i < b.size(); ++i) hi.set(i, b[i]);
    if(v.n() && r.chance(50)) for(size_t i = 0; i < v.n(); ++i) if(r.chance(20)) v.set(i, r.chance(50) ? a[DL ? i : 0] : b[DU ? i : 0]);
    auto old = snap(res); auto sv = snap(v);
    std::string key = "clamp:" + tn<T>() + ":" + std::to_string(DV) + std::to_string(DL) + std::to_string(DU);
    mon().at(key + " " + x.name + e.show(DV));
    bool plain = r.chance(15);
    with_policy(r, x, [&](auto& policy) {
        auto const& cv = v.values; auto const& cl = lo.values; auto const& ch = hi.values;
        if(plain) { fa::core::clamp(policy, cv, cl, ch, res.values); return; }
        auto mk = res.marker();
        fa::InputNoDataPolicies<typename Field<T, DV>::Detect, typename Field<T, DL>::Detect, typename Field<T, DU>::Detect> in(v.detect(), lo.detect(), hi.detect());
        fa::core::clamp(in, mk, policy, cv, cl, ch, res.values);
    });
    for(size_t i = 0; i < v.n(); ++i) {
        T l = a[DL ? i : 0], h = b[DU ? i : 0], q = sv.v[i];
        bool nd = !plain && sv.m[i], wm = nd || old.m[i];
        T want = nd ? old.v[i] : q < l ? l : h < q ? h : q;
        if(!same(res.value(i), want) || res.marked(i) != wm) mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(DV) + " " + x.name + ": " + str(q) + " in [" + str(l) + "," + str(h) + "] gives " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want));
        mon().count(nd ? "clamp no-data" : q < l ? "clamp below" : h < q ? "clamp above" : "clamp inside");
    }
    if(!same_snap(sv, snap(v))) mon().violation(key + ":inputs", "the value was changed");
    mon().seen(key + x.name + e.show(DV) + std::to_string(r.next()), v.n() > 0);
}
template<class A, class R> bool fits(A a)
{
    if constexpr(std::is_same<A, R>::value) return true;
    else if constexpr(std::is_integral<R>::value) {
        if constexpr(std::is_integral<A>::value) { i128 v = a; return v >= std::numeric_limits<R>::min() && v <= std::numeric_limits<R>::max(); }
        else { if(!std::isfinite(a)) return false; long double t = std::trunc((long double)a); return t >= (long double)std::numeric_limits<R>::min() && t <= (long double)std::numeric_limits<R>::max(); }
    } else if constexpr(std::is_floating_point<A>::value && sizeof(A) > sizeof(R)) return !std::isfinite(a) || std::fabs(a) <= std::numeric_limits<R>::max();
    else return true;
}
template<class A, class R> R converted(A a)
{
    if constexpr(std::is_same<R, bool>::value) return a != A(0);
    else if constexpr(std::is_integral<R>::value) { // truncation towards zero in wide arithmetic
        if constexpr(std::is_integral<A>::value) return R(i128(a)); else return R(i128(std::trunc((long double)a)));
    } else return R(a);
}
// types for which the range policy of cast is available
template<class A, class R> constexpr bool checked()
{
    if constexpr(std::is_floating_point<A>::value || std::is_floating_point<R>::value) return std::is_same<A, R>::value;
    else return std::is_signed<A>::value == std::is_signed<R>::value && sizeof(A) <= sizeof(R) && !std::is_same<A, bool>::value && !std::is_same<R, bool>::value;
}
template<class A, class R, size_t D> void one_cast(Rng& r)
{
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<A, D> a(e); Field<R, D> res(e);
    auto p = pattern(r, a.n());
    for(size_t i = 0; i < a.n(); ++i) {
        A v; do { v = value<A>(r); if(std::is_floating_point<A>::value && r.chance(50)) v = A((r.unit() - 0.5) * std::ldexp(1.0, int(r.below(66)))); } while(!fits<A, R>(v) && !p[i]);
        if constexpr(std::is_floating_point<A>::value && std::is_floating_point<R>::value) { if(r.chance(5)) v = std::numeric_limits<A>::infinity(); else if(r.chance(5)) v = std::numeric_limits<A>::quiet_NaN(); }
        a.set(i, v); a.mark(i, p[i]); res.set(i, R(1)); res.mark(i, r.chance(10));
    }
    auto old = snap(res); auto sa = snap(a);
    std::string key = "cast:" + tn<A>() + "," + tn<R>() + ":" + std::to_string(D);
    mon().at(key + " " + x.name + e.show(D));
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.values; auto mk = res.marker();
        fa::InputNoDataPolicies<typename Field<A, D>::Detect> in(a.detect());
        if constexpr(checked<A, R>()) { if(r.chance(60)) { fa::core::cast<fa::cast::OutOfRangePolicy>(in, mk, policy, av, res.values); return; } }
        fa::core::cast<fa::unary::DiscardRangeErrors>(in, mk, policy, av, res.values);
    });
    for(size_t i = 0; i < a.n(); ++i) {
        bool nd = sa.m[i];
        R want = nd ? old.v[i] : converted<A, R>(sa.v[i]);
        if(!same(res.value(i), want) || res.marked(i) != (nd || old.m[i])) mon().violation(key, "cell " + std::to_string(i) + ": " + str(sa.v[i]) + (nd ? " (no-data)" : "") + " gives " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want));
        if(!nd) mon().seen(key + str(sa.v[i]));
    }
    if(!same_snap(sa, snap(a))) mon().violation(key + ":inputs", "the value was changed");
    if constexpr(D == 2) { // without no-data
        for(size_t i = 0; i < a.n(); ++i) if(!fits<A, R>(a.value(i))) a.set(i, A(1));
        auto const& av = a.values;
        fa::core::cast(x.policy, av, res.values);
        for(size_t i = 0; i < a.n(); ++i) if(!same(res.value(i), converted<A, R>(a.value(i)))) mon().violation(key + ":plain", str(a.value(i)) + " gives " + str(res.value(i)));
    }
}
template<class T, class S> void one_copy(Rng& r)
{
    Extent e = extent(r, 80); Exec& x = execs()[r.below(execs().size())];
    Field<T, 1, S> a(e), res(e);
    size_t n = a.n();
    auto p = pattern(r, n);
    for(size_t i = 0; i < n; ++i) { a.set(i, T(r.below(90))); a.mark(i, p[i]); res.set(i, T(r.below(90))); if(r.chance(15)) res.mark(i, true); }
    size_t m = r.below(n + 1); if(r.chance(20)) m = r.chance(50) ? n : 0;
    size_t from = r.below(n - m + 1), to = r.below(n - m + 1);
    auto old = snap(res); auto sa = snap(a);
    std::string key = "copy:" + tn<T>() + (std::is_same<S, ByMask>::value ? "" : ":value");
    mon().at(key + " " + x.name + e.show(1) + " " + std::to_string(m) + " from " + std::to_string(from) + " to " + std::to_string(to));
    bool plain = r.chance(15) && std::is_same<S, ByMask>::value;
    with_policy(r, x, [&](auto& policy) {
        fa::IndexRanges<1> range{fa::IndexRange(from, from + m)};
        fern::Point<size_t, 1> position{to};
        auto const& av = a.values;
        if(plain) { fa::core::copy(policy, av, range, res.values, position); return; }
        auto mk = res.marker();
        fa::InputNoDataPolicies<typename Field<T, 1, S>::Detect> in(a.detect());
        fa::core::copy(in, mk, policy, av, range, res.values, position);
    });
    for(size_t i = 0; i < n; ++i) {
        bool in = i >= to && i < to + m; size_t j = in ? i - to + from : 0;
        bool nd = in && !plain && sa.m[j];
        bool wm; T want;
        if constexpr(std::is_same<S, ByMask>::value) { wm = nd || old.m[i]; want = in && !nd ? sa.v[j] : old.v[i]; }
        else { wm = in ? nd : old.m[i]; want = in ? sa.v[j] : old.v[i]; }
        if(!same(res.value(i), want) || res.marked(i) != wm) mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(1) + " " + x.name + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want) + (wm ? " marked" : "") + " (" + std::to_string(m) + " from " + std::to_string(from) + " to " + std::to_string(to) + ")");
        mon().count(in ? "copied" : "not copied");
    }
    if(!same_snap(sa, snap(a))) mon().violation(key + ":inputs", "the source was changed");
    mon().seen(key + x.name + e.show(1) + std::to_string(from) + "," + std::to_string(m) + "," + std::to_string(to), m > 0);
}
template<class T, size_t D> void one_fill(Rng& r)
{
    Extent e = extent(r, 80); Exec& x = execs()[r.below(execs().size())];
    Field<T, 0> v(e); Field<T, D> res(e);
    v.set(0, value<T>(r)); v.mark(0, r.chance(15));
    for(size_t i = 0; i < res.n(); ++i) { res.set(i, value<T>(r)); res.mark(i, r.chance(15)); }
    auto old = snap(res);
    std::string key = "fill:" + tn<T>() + ":" + std::to_string(D);
    mon().at(key + " " + x.name + e.show(D));
    bool plain = r.chance(30);
    auto f = [&](auto& policy) {
        T const& c = v.values;
        if(plain) { fa::core::fill(policy, c, res.values); return; }
        auto mk = res.marker();
        fa::InputNoDataPolicies<typename Field<T, 0>::Detect> in(v.detect());
        fa::core::fill(in, mk, policy, c, res.values);
    };
    if(D == 2 && r.chance(50)) { if constexpr(D == 2) f(x.policy); }
    else if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy));
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy));
    for(size_t i = 0; i < res.n(); ++i) {
        bool nd = !plain && v.marked(0);
        if(!same(res.value(i), nd ? old.v[i] : v.value(0)) || res.marked(i) != (nd || old.m[i])) mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + x.name + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", filled with " + str(v.value(0)) + (nd ? " (no-data)" : ""));
        mon().count(nd ? "filled with no-data" : "filled");
    }
    mon().seen(key + x.name + e.show(D) + std::to_string(r.next()), res.n() > 0);
}
template<class T> void clamps(Rng& r)
{
    one_clamp<T, 0, 0, 0>(r); one_clamp<T, 1, 1, 1>(r); one_clamp<T, 1, 1, 0>(r); one_clamp<T, 1, 0, 1>(r);
    one_clamp<T, 2, 2, 2>(r); one_clamp<T, 2, 2, 0>(r); one_clamp<T, 2, 0, 2>(r);
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("deliver" + std::to_string(PART));
#if PART == 0
    for(size_t k = 0; k < mon().n(1000, 15000); ++k) { clamps<int32_t>(r); clamps<double>(r); clamps<uint8_t>(r); }
    mon().sample("clamp over seven shapes, three types");
#elif PART == 1
    for(size_t k = 0; k < mon().n(800, 12000); ++k) {
        one_copy<int32_t, ByMask>(r); one_copy<int32_t, ByValue>(r); one_copy<double, ByMask>(r); one_copy<uint8_t, ByValue>(r);
        one_fill<int32_t, 0>(r); one_fill<int32_t, 1>(r); one_fill<int32_t, 2>(r); one_fill<double, 2>(r); one_fill<uint8_t, 1>(r); one_fill<int64_t, 2>(r);
    }
    mon().sample("copy and fill");
#else
    for(size_t k = 0; k < mon().n(25, 400); ++k)
        each(AllTypes{}, [&](auto* a) { each(AllTypes{}, [&](auto* b) {
            using A = std::remove_pointer_t<decltype(a)>; using R = std::remove_pointer_t<decltype(b)>;
            constexpr size_t h = (sizeof(A) * 3 + sizeof(R) + std::is_signed<A>::value + 2 * std::is_floating_point<R>::value) % 4;
            if constexpr(PART == 2 ? h < 2 : h >= 2) one_cast<A, R, (sizeof(A) + 2 * sizeof(R) + std::is_signed<R>::value) % 3>(r);
        }); });
#if PART == 2
    for(size_t k = 0; k < mon().n(300, 4000); ++k) { one_cast<double, int32_t, 2>(r); one_cast<int32_t, uint8_t, 1>(r); one_cast<bool, int32_t, 2>(r); one_cast<int32_t, bool, 2>(r); one_cast<double, float, 0>(r); }
#endif
    mon().sample("cast over all pairs of ten types");
#endif
    return mon().finish();
}

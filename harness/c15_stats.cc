// C15: aggregates over a field and element-wise extremes, judged by an independent wide-arithmetic reference.
#include "fa.h"
#include "fern/algorithm/statistic.h"
using namespace vh;
#ifndef PART
#define PART 0
#endif
template<class F> void with_policy(Rng& r, Exec& x, F&& f)
{
    if(r.chance(50)) { f(x.policy); return; }
    if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy));
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy));
}
using SomeTypes = Types<uint8_t, int8_t, int32_t, uint64_t, int64_t, float, double>;
template<class T> using Wide = std::conditional_t<std::is_floating_point<T>::value, long double, i128>;
template<class T> std::string show_wide(Wide<T> v) { std::ostringstream o; o.precision(20); o << (long double)v; return o.str(); }

// values for one field: how they are distributed decides what can be observed
template<class T> T draw(Rng& r, int kind, T base)
{
    T v{};
    switch(kind) {
    case 0: v = small<T>(r); break;
    case 1: v = value<T>(r); break;
    case 2: v = base; break;
    case 3: v = std::numeric_limits<T>::lowest(); break;
    case 4: v = std::numeric_limits<T>::max(); break;
    case 5: if constexpr(std::is_floating_point<T>::value) v = r.chance(80) ? (r.chance(50) ? 1 : -1) * std::numeric_limits<T>::infinity() : small<T>(r); else v = T(r.below(20)); break;
    case 6: if constexpr(std::is_floating_point<T>::value) v = -std::numeric_limits<T>::infinity(); else v = T(0); break;
    case 7: if constexpr(std::is_floating_point<T>::value) v = std::numeric_limits<T>::infinity(); else v = T(r.below(2)); break;
    case 8: v = T(-T(r.below(60))); break;
    default: v = T(r.below(3));
    }
    return v;
}
template<class T, size_t D, class S> struct Arg {
    Extent e; Field<T, D, S> f; std::vector<T> data; Snap<T> before;
    static Extent some(Rng& r)
    {
        Extent e = extent(r, 60);
        if(r.chance(8)) { if(D == 1) e.n1 = 0; else if(r.chance(50)) e.r = 0; else e.c = 0; }
        if(r.chance(5)) { e.n1 = 256 + r.below(600); e.r = 20 + r.below(30); e.c = 20 + r.below(30); }
        return e;
    }
    explicit Arg(Rng& r, int kind) : e(some(r)), f(e)
    {
        size_t n = f.n(); auto p = pattern(r, n); T base = value<T>(r);
        if(D == 0) p[0] = r.chance(30);
        // no-data at the start: whole leading rows or blocks without data
        if(D == 2 && n && r.chance(30)) { size_t k = r.below(e.r) * e.c + r.below(e.c); for(size_t i = 0; i < k; ++i) p[i] = 1; }
        for(size_t i = 0; i < n; ++i) {
            T v = draw<T>(r, kind, base);
            if constexpr(std::is_same<S, ByValue>::value) if(v == T(99)) v = T(98);
            f.set(i, v); f.mark(i, p[i]);
            if(!p[i]) data.push_back(f.value(i));
        }
        before = snap(f);
    }
};
template<class S> constexpr char const* store() { return std::is_same<S, ByMask>::value ? "" : ":value"; }

#if PART == 0
template<class T, size_t D, class S> void extremes(Rng& r)
{
    Arg<T, D, S> a(r, int(r.below(10))); Exec& x = execs()[r.below(execs().size())];
    bool max = r.chance(50), plain = r.chance(8);
    std::string key = std::string(max ? "max" : "min") + (plain ? " plain" : "") + ":" + tn<T>() + ":" + std::to_string(D) + store<S>();
    mon().at(key + " " + x.name + a.e.show(D));
    T const old = T(77); T res = old; bool marked = false;
    if(plain) { a.data.clear(); for(size_t i = 0; i < a.f.n(); ++i) a.data.push_back(a.f.value(i)); }
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.f.values;
        if(plain) { if(max) fa::statistic::unary_max(policy, av, res); else fa::statistic::unary_min(policy, av, res); return; }
        Mark0 mk(marked, true); fa::InputNoDataPolicies<typename Field<T, D, S>::Detect> in(a.f.detect());
        if(max) fa::statistic::unary_max(in, mk, policy, av, res); else fa::statistic::unary_min(in, mk, policy, av, res);
    });
    bool none = a.data.empty();
    if(!plain && marked != none) mon().violation(key + ":mark", a.e.show(D) + " " + x.name + (marked ? " marked with data" : " not marked without data"));
    if(!none) {
        T want = a.data[0]; for(T v : a.data) if(max ? v > want : v < want) want = v;
        if(!same(res, want)) mon().violation(key, a.e.show(D) + " " + x.name + " of " + list(a.data) + ": " + str(res) + ", want " + str(want));
    }
    if(!same_snap(a.before, snap(a.f))) mon().violation(key + ":inputs", "the argument was changed");
    mon().count(none ? "fields without data" : "fields with data");
    mon().seen(key + x.name + a.e.show(D) + std::to_string(r.next()), a.f.n() > 0);
}
#elif PART == 1
template<class T, size_t D, class S> void sums(Rng& r)
{
    using W = Wide<T>; constexpr bool real = std::is_floating_point<T>::value;
    int kind = int(r.below(10)); if(real && kind >= 5 && kind <= 7) kind = 0;
    Arg<T, D, S> a(r, kind); Exec& x = execs()[r.below(execs().size())];
    bool mean = r.chance(50), plain = r.chance(8), checked = !plain && r.chance(70);
    std::string key = std::string(mean ? "mean" : "sum") + (plain ? " plain" : checked ? " checked" : "") + ":" + tn<T>() + ":" + std::to_string(D) + store<S>();
    mon().at(key + " " + x.name + a.e.show(D) + " kind " + std::to_string(kind));
    if(plain) { a.data.clear(); for(size_t i = 0; i < a.f.n(); ++i) a.data.push_back(a.f.value(i)); }
    if(plain && a.data.empty()) return; // nothing to report and nowhere to mark
    T res = T(77); bool marked = false;
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.f.values;
        if(plain) { if(mean) fa::statistic::mean(policy, av, res); else fa::statistic::sum(policy, av, res); return; }
        Mark0 mk(marked, true); fa::InputNoDataPolicies<typename Field<T, D, S>::Detect> in(a.f.detect());
        if(checked) { if(mean) fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, mk, policy, av, res); else fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, mk, policy, av, res); }
        else { if(mean) fa::statistic::mean<fa::binary::DiscardRangeErrors>(in, mk, policy, av, res); else fa::statistic::sum<fa::binary::DiscardRangeErrors>(in, mk, policy, av, res); }
    });
    bool none = a.data.empty();
    W pos = 0, neg = 0, total = 0; for(T v : a.data) { total += W(v); if(v > 0) pos += W(v); else neg += W(v); }
    using L = std::numeric_limits<T>;
    // always: no partial sum can leave the type; never: the total itself is outside
    bool always, never;
    if constexpr(real) { always = pos < W(L::max()) / 2 && -neg < W(L::max()) / 2; never = total > W(L::max()) * 1.001L || -total > W(L::max()) * 1.001L; }
    else { always = pos <= W(L::max()) && neg >= W(L::min()); never = total > W(L::max()) || total < W(L::min()); }
    if(none) { if(!plain && !marked) mon().violation(key + ":mark", "not marked without data " + x.name + a.e.show(D)); }
    else {
        if(checked && never && !marked) mon().violation(key + ":range", x.name + a.e.show(D) + " of " + list(a.data) + ": the sum does not fit but " + str(res) + " is not marked");
        if(marked && (!checked || always)) mon().violation(key + ":mark", x.name + a.e.show(D) + " of " + list(a.data) + ": marked, but the sum fits");
        if(!marked && !never && (always || (checked && !real) || (!checked && !real && !mean))) {
            W want = total; if(mean) want = want / W(a.data.size());
            bool ok;
            if constexpr(real) {
                W tol = (pos - neg) * W(L::epsilon()) * W(a.data.size() + 4) / (mean ? W(a.data.size()) : 1) + W(L::min());
                ok = std::isfinite(res) && std::fabs(W(res) - want) <= tol;
            } else ok = W(res) == want;
            if(!ok) mon().violation(key, x.name + a.e.show(D) + " of " + list(a.data) + " (" + std::to_string(a.data.size()) + " values): " + str(res) + ", want " + show_wide<T>(want));
            mon().count("values judged");
        }
        mon().count(never ? "sums outside the type" : always ? "sums that always fit" : "sums that depend on order");
    }
    if(!same_snap(a.before, snap(a.f))) mon().violation(key + ":inputs", "the argument was changed");
    mon().seen(key + x.name + a.e.show(D) + std::to_string(r.next()), a.f.n() > 0);
}
#elif PART == 2
template<class T, class R, size_t D, class S> void counts(Rng& r)
{
    Arg<T, D, S> a(r, r.chance(60) ? 9 : int(r.below(10))); Exec& x = execs()[r.below(execs().size())];
    bool plain = r.chance(8);
    std::string key = std::string("count") + (plain ? " plain" : "") + ":" + tn<T>() + "," + tn<R>() + ":" + std::to_string(D) + store<S>();
    mon().at(key + " " + x.name + a.e.show(D));
    if(plain) { a.data.clear(); for(size_t i = 0; i < a.f.n(); ++i) a.data.push_back(a.f.value(i)); if(a.data.empty()) return; }
    T what = a.f.n() && r.chance(60) ? a.f.value(r.below(a.f.n())) : value<T>(r);
    R res = R(77); bool marked = false;
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.f.values;
        if(plain) { fa::statistic::count(policy, av, what, res); return; }
        Mark0 mk(marked, true); fa::InputNoDataPolicies<typename Field<T, D, S>::Detect, SkipNoData> in(a.f.detect(), SkipNoData());
        fa::statistic::count(in, mk, policy, av, what, res);
    });
    size_t want = 0; for(T v : a.data) want += v == what;
    bool none = a.data.empty();
    if(!plain && marked != none) mon().violation(key + ":mark", a.e.show(D) + " " + x.name + (marked ? " marked with data " : " not marked without data ") + std::to_string(a.data.size()));
    if(!none && i128(res) != i128(want)) mon().violation(key, a.e.show(D) + " " + x.name + " of " + str(what) + " in " + list(a.data) + ": " + str(res) + ", want " + std::to_string(want));
    if(!same_snap(a.before, snap(a.f))) mon().violation(key + ":inputs", "the argument was changed");
    mon().count(none ? "fields without data" : want ? "counts above zero" : "counts of zero");
    mon().seen(key + x.name + a.e.show(D) + std::to_string(r.next()), a.f.n() > 0);
}
#else
template<class T, size_t D1, size_t D2, class S> void pairwise(Rng& r)
{
    constexpr size_t D = D1 > D2 ? D1 : D2;
    Extent e = Arg<T, D, S>::some(r); Exec& x = execs()[r.below(execs().size())];
    Field<T, D1, S> a(e); Field<T, D2, S> b(e); Field<T, D, S> res(e);
    auto p = pattern(r, a.n()), q = pattern(r, b.n());
    if(D1 == 0) p[0] = r.chance(20);
    if(D2 == 0) q[0] = r.chance(20);
    int kind = int(r.below(10)); T base = value<T>(r);
    auto put = [&](auto& f, size_t i, bool m) { T v = draw<T>(r, kind, base); if(v == T(99)) v = T(98); f.set(i, v); f.mark(i, m); };
    for(size_t i = 0; i < a.n(); ++i) put(a, i, p[i]);
    for(size_t i = 0; i < b.n(); ++i) put(b, i, q[i]);
    for(size_t i = 0; i < res.n(); ++i) put(res, i, false);
    auto sa = snap(a); auto sb = snap(b); auto old = snap(res);
    bool max = r.chance(50), plain = r.chance(8);
    std::string key = std::string(max ? "binary max" : "binary min") + (plain ? " plain" : "") + ":" + tn<T>() + ":" + std::to_string(D1) + std::to_string(D2) + store<S>();
    mon().at(key + " " + x.name + e.show(D));
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.values; auto const& bv = b.values;
        if(plain) { if(max) fa::statistic::binary_max(policy, av, bv, res.values); else fa::statistic::binary_min(policy, av, bv, res.values); return; }
        auto mk = res.marker(); fa::InputNoDataPolicies<typename Field<T, D1, S>::Detect, typename Field<T, D2, S>::Detect> in(a.detect(), b.detect());
        if(max) fa::statistic::binary_max(in, mk, policy, av, bv, res.values); else fa::statistic::binary_min(in, mk, policy, av, bv, res.values);
    });
    for(size_t i = 0; i < res.n(); ++i) {
        size_t ia = D1 ? i : 0, ib = D2 ? i : 0;
        bool wm = !plain && (sa.m[ia] || sb.m[ib]);
        T want = wm ? (std::is_same<S, ByMask>::value ? old.v[i] : T(99)) : max ? (sa.v[ia] > sb.v[ib] ? sa.v[ia] : sb.v[ib]) : (sa.v[ia] < sb.v[ib] ? sa.v[ia] : sb.v[ib]);
        if(!same(res.value(i), want) || (!plain && res.marked(i) != wm)) mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + x.name + ": " + str(sa.v[ia]) + " and " + str(sb.v[ib]) + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want) + (wm ? " marked" : ""));
        mon().count(wm ? "no-data cells" : "cells compared");
    }
    if(!same_snap(sa, snap(a)) || !same_snap(sb, snap(b))) mon().violation(key + ":inputs", "an argument was changed");
    mon().seen(key + x.name + e.show(D) + std::to_string(r.next()), res.n() > 0);
}
#endif
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("stats");
    for(size_t k = 0; k < mon().n(1000, 20000); ++k) each(SomeTypes{}, [&](auto* t) {
        using T = std::decay_t<decltype(*t)>;
#if PART == 0
        extremes<T, 0, ByMask>(r); extremes<T, 1, ByMask>(r); extremes<T, 2, ByMask>(r); extremes<T, 1, ByValue>(r); extremes<T, 2, ByValue>(r);
#elif PART == 1
        sums<T, 0, ByMask>(r); sums<T, 1, ByMask>(r); sums<T, 2, ByMask>(r); sums<T, 1, ByValue>(r); sums<T, 2, ByValue>(r);
#elif PART == 2
        counts<T, int32_t, 0, ByMask>(r); counts<T, int64_t, 1, ByMask>(r); counts<T, size_t, 2, ByMask>(r); counts<T, int32_t, 2, ByValue>(r); counts<T, uint32_t, 1, ByValue>(r);
#else
        pairwise<T, 0, 0, ByMask>(r); pairwise<T, 1, 0, ByMask>(r); pairwise<T, 0, 1, ByMask>(r); pairwise<T, 1, 1, ByMask>(r);
        pairwise<T, 2, 0, ByMask>(r); pairwise<T, 0, 2, ByMask>(r); pairwise<T, 2, 2, ByMask>(r); pairwise<T, 2, 2, ByValue>(r); pairwise<T, 1, 1, ByValue>(r);
#endif
    });
    mon().sample("fields of seven value types, zero to two dimensions, data anywhere, extreme and infinite values");
    return mon().finish();
}

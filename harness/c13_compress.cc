// C13: compress and decompress.
#include "fa.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/decompress.h"
using namespace vh;

template<class F> void with_policy(Rng& r, Exec& x, F&& f)
{
    if(r.chance(50)) { f(x.policy); return; }
    if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy));
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy));
}
template<class T, class C, size_t D, class S> void one(Rng& r)
{
    Extent e = extent(r, sizeof(C) == 1 ? 120 : 300); Exec& x = execs()[r.below(execs().size())]; Exec& y = execs()[r.below(execs().size())];
    if(r.chance(8)) { if(D == 1) e.n1 = 0; else if(r.chance(50)) e.r = 0; else e.c = 0; }
    if(sizeof(C) == 1) { e.n1 = std::min<size_t>(e.n1, 120); if(e.r * e.c > 144) { e.r = 12; e.c = 10; } }
    if(sizeof(C) == 2) { e.n1 = std::min<size_t>(e.n1, 30000); if(e.r * e.c > 30000) { e.r = 150; e.c = 200; } }
    Field<T, D, S> a(e), back(e);
    size_t n = a.n();
    auto p = pattern(r, n);
    for(size_t i = 0; i < n; ++i) { a.set(i, T(r.below(98))); a.mark(i, p[i]); back.set(i, T(r.below(98))); }
    auto sa = snap(a); auto old = snap(back);
    std::vector<T> packed(n, T(77)), want;
    for(size_t i = 0; i < n; ++i) if(!sa.m[i]) want.push_back(sa.v[i]);
    C count = C(55);
    std::string key = "compress:" + tn<T>() + "," + tn<C>() + ":" + std::to_string(D) + (std::is_same<S, ByMask>::value ? "" : ":value");
    mon().at(key + " " + x.name + e.show(D));
    using P = typename Field<T, D, S>::Detect;
    fa::InputNoDataPolicies<P> in(a.detect());
    auto const& av = a.values;
    with_policy(r, x, [&](auto& policy) { fa::core::compress(in, policy, av, packed, count); });
    if(size_t(count) != want.size()) mon().violation(key, "count " + str(count) + " for " + std::to_string(want.size()) + " values in " + e.show(D) + " " + x.name);
    else for(size_t i = 0; i < want.size(); ++i) if(!same(packed[i], want[i])) { mon().violation(key, "value " + std::to_string(i) + " is " + str(packed[i]) + ", want " + str(want[i]) + " of " + e.show(D) + " " + x.name); break; }
    if(packed.size() != n) mon().violation(key + ":size", "the result was resized");
    std::vector<T> const packed_before(packed);
    if(r.chance(50)) { packed.resize(want.size()); packed.shrink_to_fit(); }
    mon().at("de" + key + " " + y.name + e.show(D));
    with_policy(r, y, [&](auto& policy) { auto const& pv = packed; auto mk = back.marker(); fa::core::decompress(in, mk, policy, pv, back.values); });
    for(size_t i = 0; i < n; ++i) {
        T w = sa.m[i] ? (std::is_same<S, ByMask>::value ? old.v[i] : T(99)) : sa.v[i];
        if(!same(back.value(i), w) || back.marked(i) != bool(sa.m[i])) mon().violation("de" + key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + y.name + ": " + str(back.value(i)) + (back.marked(i) ? " marked" : "") + ", want " + str(w) + (sa.m[i] ? " marked" : ""));
        mon().count(sa.m[i] ? "no-data" : "values");
    }
    if(!same_snap(sa, snap(a))) mon().violation(key + ":inputs", "the value was changed");
    // without no-data: plain copies
    if constexpr(std::is_same<S, ByMask>::value) {
        std::vector<T> all(n, T(66)); C c2 = C(44);
        mon().at("plain " + key + " " + x.name + e.show(D));
        if(n <= 120 || sizeof(C) > 1) {
            with_policy(r, x, [&](auto& policy) { fa::core::compress(policy, av, all, c2); });
            if(size_t(c2) != n || all != sa.v) mon().violation(key + ":plain", "not a copy: " + e.show(D) + " " + x.name + " count " + str(c2));
            Field<T, D, S> b2(e);
            with_policy(r, y, [&](auto& policy) { auto const& pv = all; fa::core::decompress(policy, pv, b2.values); });
            for(size_t i = 0; i < n; ++i) if(!same(b2.value(i), sa.v[i])) { mon().violation("de" + key + ":plain", "cell " + std::to_string(i) + " of " + e.show(D)); break; }
        }
    }
    mon().seen(key + x.name + y.name + e.show(D) + std::to_string(r.next()), n > 0);
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("compress");
    for(size_t k = 0; k < mon().n(1500, 30000); ++k) {
        one<int32_t, size_t, 1, ByMask>(r); one<int32_t, int32_t, 1, ByValue>(r); one<double, size_t, 1, ByMask>(r); one<uint8_t, uint8_t, 1, ByMask>(r);
        one<int32_t, size_t, 2, ByMask>(r); one<uint8_t, int32_t, 2, ByValue>(r); one<double, uint16_t, 2, ByMask>(r); one<int64_t, uint64_t, 2, ByMask>(r);
    }
    mon().sample("compress, decompress under two policies");
    return mon().finish();
}

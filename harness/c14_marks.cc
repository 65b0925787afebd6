// C14: merge_no_data, unite_no_data, intersect_no_data.
#include "fa.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/unite_no_data.h"
#include "fern/algorithm/core/intersect_no_data.h"
using namespace vh;

template<class F> void with_policy(Rng& r, Exec& x, F&& f)
{
    if(r.chance(50)) { f(x.policy); return; }
    if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy));
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy));
}
template<class A, class B, class R, size_t D, class S> void one(Rng& r)
{
    Extent e = extent(r, 80); Exec& x = execs()[r.below(execs().size())];
    Field<A, D, S> a(e); Field<B, D, S> b(e); Field<R, D, S> res(e);
    size_t n = a.n();
    auto p = pattern(r, n), q = pattern(r, n), s = pattern(r, n);
    if(D == 0) { p[0] = r.chance(50); q[0] = r.chance(50); s[0] = r.chance(25); }
    for(size_t i = 0; i < n; ++i) {
        a.set(i, A(r.below(98))); a.mark(i, p[i]); b.set(i, B(r.below(98))); b.mark(i, q[i]); res.set(i, R(r.below(98))); res.mark(i, s[i] && r.chance(50));
    }
    auto old = snap(res); auto sa = snap(a); auto sb = snap(b);
    int op = int(r.below(3));
    static char const* names[] = {"merge", "unite", "intersect"};
    std::string key = std::string(names[op]) + ":" + tn<A>() + "," + tn<B>() + "," + tn<R>() + ":" + std::to_string(D) + (std::is_same<S, ByMask>::value ? "" : ":value");
    mon().at(key + " " + x.name + e.show(D));
    bool plain = r.chance(5);
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.values; auto const& bv = b.values;
        if(plain) {
            if(op == 0) fa::core::merge_no_data(policy, av, res.values);
            else if(op == 1) fa::core::unite_no_data(policy, av, bv, res.values);
            else fa::core::intersect_no_data(policy, av, bv, res.values);
            return;
        }
        auto mk = res.marker();
        using PA = typename Field<A, D, S>::Detect; using PB = typename Field<B, D, S>::Detect;
        if(op == 0) { fa::InputNoDataPolicies<PA> in(a.detect()); fa::core::merge_no_data(in, mk, policy, av, res.values); return; }
        fa::InputNoDataPolicies<PA, PB> in(a.detect(), b.detect());
        if(op == 1) fa::core::unite_no_data(in, mk, policy, av, bv, res.values);
        else fa::core::intersect_no_data(in, mk, policy, av, bv, res.values);
    });
    for(size_t i = 0; i < n; ++i) {
        bool hit = !plain && (op == 0 ? sa.m[i] : op == 1 ? sa.m[i] || sb.m[i] : sa.m[i] && sb.m[i]);
        bool wm = hit || old.m[i];
        R want = std::is_same<S, ByMask>::value || !wm ? old.v[i] : R(99);
        if(res.marked(i) != wm || !same(res.value(i), want)) mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + x.name + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want) + (wm ? " marked" : ""));
        mon().count(hit ? "cells marked" : old.m[i] ? "cells still marked" : "cells with data");
    }
    if(!same_snap(sa, snap(a)) || !same_snap(sb, snap(b))) mon().violation(key + ":inputs", "an argument was changed");
    mon().seen(key + x.name + e.show(D) + std::to_string(r.next()), n > 0);
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("marks");
    for(size_t k = 0; k < mon().n(1500, 30000); ++k) {
        one<int32_t, double, uint8_t, 2, ByMask>(r); one<uint8_t, int32_t, int64_t, 2, ByValue>(r); one<double, double, double, 2, ByMask>(r);
        one<int32_t, uint8_t, double, 0, ByMask>(r); one<int16_t, int16_t, int16_t, 2, ByMask>(r);
    }
    mon().sample("merge, unite and intersect of no-data");
    return mon().finish();
}

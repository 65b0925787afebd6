// C10: if_ and cover, judged per cell.
#include "fa.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/cover.h"
using namespace vh;

template<class C> C condition(Rng& r)
{
    if(r.chance(45)) return C(0);
    if constexpr(std::is_same<C, bool>::value) return true;
    else { C v = r.chance(40) ? C(1) : value<C>(r); return v == C(0) ? C(1) : v; }
}
template<class T, size_t D> void randomize(Rng& r, Field<T, D>& f, bool free_of_marks)
{
    auto p = pattern(r, f.n());
    for(size_t i = 0; i < f.n(); ++i) { f.set(i, value<T>(r)); f.mark(i, !free_of_marks && p[i]); }
}
// Pol: the execution policy given to the call: variant or concrete
template<class F> void with_policy(Rng& r, Exec& x, F&& f)
{
    if(r.chance(50)) { f(x.policy, "v"); return; }
    if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy), "c");
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy), "c");
}
template<class T, size_t D> struct Before { std::vector<T> v; std::vector<char> m; };

// has_false = 0: if-then
template<class C, class T, size_t DC, size_t DT, size_t DF, bool HasFalse> void one_if(Rng& r)
{
    constexpr size_t D = std::max(DC, std::max(DT, HasFalse ? DF : 0));
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<C, DC> c(e); Field<T, DT> t(e); Field<T, DF> f(e); Field<T, D> res(e);
    int skip = int(r.below(8)); // which inputs are free of marks, checked with SkipNoData
    auto pc = pattern(r, c.n());
    for(size_t i = 0; i < c.n(); ++i) { c.set(i, condition<C>(r)); c.mark(i, pc[i]); }
    randomize(r, t, false); randomize(r, f, false);
    if(DC == 0 && r.chance(60)) c.mark(0, false);
    if(DT == 0 && r.chance(60)) t.mark(0, false);
    if(DF == 0 && r.chance(60)) f.mark(0, false);
    for(size_t i = 0; i < res.n(); ++i) { res.set(i, value<T>(r)); res.mark(i, r.chance(20)); }
    auto old = snap(res); auto sc = snap(c); auto st = snap(t); auto sf = snap(f);
    bool plain = r.chance(20);
    std::string key = std::string(HasFalse ? "if_else:" : "if_then:") + tn<C>() + "," + tn<T>() + ":" + std::to_string(DC) + std::to_string(DT) + (HasFalse ? std::to_string(DF) : "");
    mon().at(key + " " + x.name + e.show(D));
    with_policy(r, x, [&](auto& policy, char const*) {
        auto const& cv = c.values; auto const& tv = t.values; auto const& fv = f.values;
        auto mk = res.marker();
        if(plain) { if constexpr(HasFalse) fa::core::if_(policy, cv, tv, fv, res.values); else fa::core::if_(policy, cv, tv, res.values); return; }
        using PC = typename Field<C, DC>::Detect; using PT = typename Field<T, DT>::Detect; using PF = typename Field<T, DF>::Detect;
        if constexpr(HasFalse) { fa::InputNoDataPolicies<PC, PT, PF> in(c.detect(), t.detect(), f.detect()); fa::core::if_(in, mk, policy, cv, tv, fv, res.values); }
        else { fa::InputNoDataPolicies<PC, PT> in(c.detect(), t.detect()); fa::core::if_(in, mk, policy, cv, tv, res.values); }
    });
    (void)skip;
    for(size_t i = 0; i < res.n(); ++i) {
        size_t ic = DC ? i : 0, it = DT ? i : 0, jf = DF ? i : 0;
        bool cm = !plain && sc.m[ic], tm = !plain && st.m[it], fm = !plain && sf.m[jf];
        bool yes = sc.v[ic] != C(0);
        bool nd = cm || (yes ? tm : HasFalse ? fm : !plain);
        bool keep = nd || (!yes && !HasFalse);
        T want = keep ? old.v[i] : yes ? st.v[it] : sf.v[jf];
        bool wm = nd || old.m[i];
        if(!same(res.value(i), want) || res.marked(i) != wm)
            mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + x.name + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want) + (wm ? " marked" : "") + " (condition " + str(sc.v[ic]) + (cm ? " no-data" : "") + ")");
        mon().count(nd ? "no-data cells" : yes ? "true cells" : "false cells");
    }
    if(!same_snap(sc, snap(c)) || !same_snap(st, snap(t)) || !same_snap(sf, snap(f))) mon().violation(key + ":inputs", "an argument was changed");
    mon().seen(key + x.name + e.show(D) + std::to_string(r.next()), res.n() > 0);
}

template<class T, size_t DA, size_t DB> void one_cover(Rng& r)
{
    constexpr size_t D = DA > DB ? DA : DB;
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<T, DA> a(e); Field<T, DB> b(e); Field<T, D> res(e);
    randomize(r, a, false); randomize(r, b, false);
    for(size_t i = 0; i < res.n(); ++i) { res.set(i, value<T>(r)); res.mark(i, r.chance(20)); }
    auto old = snap(res); auto sa = snap(a); auto sb = snap(b);
    std::string key = "cover:" + tn<T>() + ":" + std::to_string(DA) + std::to_string(DB);
    mon().at(key + " " + x.name + e.show(D));
    bool plain = r.chance(15);
    with_policy(r, x, [&](auto& policy, char const*) {
        auto const& av = a.values; auto const& bv = b.values;
        if(plain) { fa::core::cover(policy, av, bv, res.values); return; }
        auto mk = res.marker();
        fa::InputNoDataPolicies<typename Field<T, DA>::Detect, typename Field<T, DB>::Detect> in(a.detect(), b.detect());
        fa::core::cover(in, mk, policy, av, bv, res.values);
    });
    for(size_t i = 0; i < res.n(); ++i) {
        size_t ia = DA ? i : 0, ib = DB ? i : 0;
        bool am = !plain && sa.m[ia], bm = !plain && sb.m[ib], nd = am && bm;
        T want = nd ? old.v[i] : am ? sb.v[ib] : sa.v[ia];
        bool wm = nd || old.m[i];
        if(!same(res.value(i), want) || res.marked(i) != wm)
            mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + x.name + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want) + (wm ? " marked" : ""));
        mon().count(nd ? "uncovered cells" : am ? "second cells" : "first cells");
    }
    if(!same_snap(sa, snap(a)) || !same_snap(sb, snap(b))) mon().violation(key + ":inputs", "an argument was changed");
    mon().seen(key + x.name + e.show(D) + std::to_string(r.next()), res.n() > 0);
}
// marks kept as a special value among the values
template<class T> void by_value(Rng& r)
{
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<T, 2, ByValue> c(e), a(e), b(e), res(e), cov(e);
    auto p = pattern(r, c.n()), q = pattern(r, c.n()), s = pattern(r, c.n());
    for(size_t i = 0; i < c.n(); ++i) {
        c.set(i, T(r.below(2))); c.mark(i, p[i]); a.set(i, T(r.below(90))); a.mark(i, q[i]); b.set(i, T(r.below(90))); b.mark(i, s[i]);
        res.set(i, T(7)); cov.set(i, T(7));
    }
    using P = typename Field<T, 2, ByValue>::Detect;
    mon().at("if/cover by value " + x.name + e.show(2));
    { fa::InputNoDataPolicies<P, P, P> in(c.detect(), a.detect(), b.detect()); auto mk = res.marker(); fa::core::if_(in, mk, x.policy, c.values, a.values, b.values, res.values); }
    { fa::InputNoDataPolicies<P, P> in(a.detect(), b.detect()); auto mk = cov.marker(); fa::core::cover(in, mk, x.policy, a.values, b.values, cov.values); }
    for(size_t i = 0; i < c.n(); ++i) {
        T nd = Field<T, 2, ByValue>::nd;
        T want = p[i] ? nd : c.value(i) ? (q[i] ? nd : a.value(i)) : (s[i] ? nd : b.value(i));
        T wc = !q[i] ? a.value(i) : !s[i] ? b.value(i) : nd;
        if(res.value(i) != want) mon().violation("if_else:value:" + tn<T>(), "cell " + std::to_string(i) + ": " + str(res.value(i)) + " want " + str(want));
        if(cov.value(i) != wc) mon().violation("cover:value:" + tn<T>(), "cell " + std::to_string(i) + ": " + str(cov.value(i)) + " want " + str(wc));
    }
    mon().seen("by value" + tn<T>() + x.name + e.show(2) + std::to_string(r.next()), c.n() > 0);
}

template<class C, class T> void then(Rng& r)
{
    one_if<C, T, 0, 0, 0, false>(r); one_if<C, T, 0, 2, 0, false>(r); one_if<C, T, 2, 0, 0, false>(r); one_if<C, T, 2, 2, 0, false>(r);
}
template<class C, class T> void then_else_2d(Rng& r)
{
    one_if<C, T, 0, 0, 0, true>(r); one_if<C, T, 0, 2, 2, true>(r); one_if<C, T, 0, 0, 2, true>(r); one_if<C, T, 0, 2, 0, true>(r);
    one_if<C, T, 2, 2, 2, true>(r); one_if<C, T, 2, 2, 0, true>(r); one_if<C, T, 2, 0, 2, true>(r); one_if<C, T, 2, 0, 0, true>(r);
}
template<class C, class T> void then_else_1d(Rng& r)
{
    one_if<C, T, 1, 0, 0, true>(r); one_if<C, T, 1, 1, 0, true>(r); one_if<C, T, 1, 0, 1, true>(r); one_if<C, T, 1, 1, 1, true>(r);
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("select" + std::to_string(PART));
    for(size_t k = 0; k < mon().n(1200, 15000); ++k) {
#if PART == 0
        then<uint8_t, int32_t>(r); then<uint8_t, double>(r); then<int32_t, int64_t>(r);
        one_cover<int32_t, 0, 0>(r); one_cover<int32_t, 2, 0>(r); one_cover<int32_t, 2, 2>(r);
        one_cover<double, 2, 0>(r); one_cover<double, 2, 2>(r); one_cover<uint8_t, 2, 2>(r); one_cover<double, 0, 0>(r);
        by_value<int32_t>(r); by_value<double>(r); by_value<uint8_t>(r);
#elif PART == 1
        then_else_2d<float, double>(r); then_else_2d<int32_t, int32_t>(r);
#else
        then_else_1d<int16_t, int32_t>(r); then_else_1d<uint8_t, double>(r); then_else_1d<double, uint8_t>(r); then_else_2d<uint8_t, int16_t>(r);
#endif
    }
    mon().sample("if-then, if-then-else and cover over all supported shapes");
    return mon().finish();
}

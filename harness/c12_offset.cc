// C12: offset, judged cell by cell.
#include "fa.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/algorithm/core/offset.h"
using namespace vh;

template<class F> void with_policy(Rng& r, Exec& x, F&& f)
{
    if(r.chance(50)) { f(x.policy); return; }
    if(x.policy.which() == 0) f(boost::get<fa::SequentialExecutionPolicy>(x.policy));
    else f(boost::get<fa::ParallelExecutionPolicy>(x.policy));
}
template<class O> O some_offset(Rng& r, size_t n)
{
    long m = long(n);
    switch(r.below(8)) {
    case 0: return O(0);
    case 1: return O(m + long(r.below(3)) - 1);
    case 2: return O(-m + long(r.below(3)) - 1);
    case 3: return O(r.chance(50) ? std::numeric_limits<O>::max() : std::numeric_limits<O>::min());
    case 4: return O(r.chance(50) ? m + long(r.below(1000)) : -m - long(r.below(1000)));
    case 5: return O(r.chance(50) ? 1 : -1);
    default: return O(long(r.below(2 * n + 3)) - m - 1);
    }
}
template<class T, class O, size_t D, class S> void one(Rng& r)
{
    Extent e = extent(r, 80); Exec& x = execs()[r.below(execs().size())];
    if(r.chance(10)) { if(D == 1) e.n1 = 0; else if(r.chance(50)) e.r = 0; else e.c = 0; }
    Field<T, D, S> a(e), res(e);
    size_t n = a.n(), rows = D == 1 ? e.n1 : e.r, cols = D == 1 ? 1 : e.c;
    auto p = pattern(r, n);
    for(size_t i = 0; i < n; ++i) { a.set(i, T(r.below(98))); a.mark(i, p[i]); res.set(i, T(r.below(98))); }
    auto old = snap(res); auto sa = snap(a);
    fern::Point<O, D> off;
    off[0] = some_offset<O>(r, rows); if constexpr(D == 2) off[1] = some_offset<O>(r, cols);
    T fill = T(r.below(98));
    int mode = int(r.below(std::is_same<S, ByMask>::value ? 4 : 2)); // marking, filling with marks, plain, plain fill
    std::string key = std::string("offset:") + (mode == 0 ? "mark" : mode == 1 ? "fill" : mode == 2 ? "plain" : "plain fill") + ":" + tn<T>() + "," + tn<O>() + ":" + std::to_string(D) + (std::is_same<S, ByMask>::value ? "" : ":value");
    std::string by = str(off[0]) + (D == 2 ? "," + str(off[D - 1]) : "");
    mon().at(key + " " + x.name + e.show(D) + " by " + by);
    with_policy(r, x, [&](auto& policy) {
        auto const& av = a.values;
        if(mode == 2) { fa::core::offset(policy, av, off, res.values); return; }
        if(mode == 3) { fa::core::offset(policy, av, off, fill, res.values); return; }
        auto mk = res.marker();
        fa::InputNoDataPolicies<typename Field<T, D, S>::Detect> in(a.detect());
        if(mode == 0) fa::core::offset(in, mk, policy, av, off, res.values);
        else fa::core::offset(in, mk, policy, av, off, fill, res.values);
    });
    for(size_t i = 0; i < n; ++i) {
        i128 row = i128(i / cols) - off[0], col = D == 1 ? 0 : i128(i % cols) - off[D - 1];
        bool src = row >= 0 && row < i128(rows) && col >= 0 && col < i128(cols);
        size_t j = src ? size_t(row) * cols + size_t(col) : 0;
        bool nd = (mode == 0 && !src) || (mode < 2 && src && sa.m[j]);
        T want = nd ? (std::is_same<S, ByMask>::value ? old.v[i] : T(99)) : src ? sa.v[j] : mode == 1 || mode == 3 ? fill : old.v[i];
        if(!same(res.value(i), want) || res.marked(i) != nd) mon().violation(key, "cell " + std::to_string(i) + " of " + e.show(D) + " " + x.name + " by " + by + ": " + str(res.value(i)) + (res.marked(i) ? " marked" : "") + ", want " + str(want) + (nd ? " marked" : ""));
        mon().count(src ? nd ? "moved no-data" : "moved" : "without source");
    }
    if(!same_snap(sa, snap(a))) mon().violation(key + ":inputs", "the value was changed");
    mon().seen(key + x.name + e.show(D) + by + std::to_string(r.next()), n > 0);
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("offset");
    for(size_t k = 0; k < mon().n(1500, 30000); ++k) {
        one<int32_t, int32_t, 1, ByMask>(r); one<int32_t, int64_t, 1, ByValue>(r); one<double, int64_t, 1, ByMask>(r);
        one<int32_t, int32_t, 2, ByMask>(r); one<uint8_t, int64_t, 2, ByValue>(r); one<double, int32_t, 2, ByMask>(r); one<int64_t, int64_t, 2, ByMask>(r);
    }
    mon().sample("offsets in one and two dimensions, far below to far above the extent");
    return mon().finish();
}

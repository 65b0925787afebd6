// C09: comparisons, boolean operations, defined.
#include "fa.h"
#include "fern/algorithm/algebra/elementary/equal.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/less_equal.h"
#include "fern/algorithm/algebra/elementary/greater.h"
#include "fern/algorithm/algebra/elementary/greater_equal.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/algebra/boole/or.h"
#include "fern/algorithm/algebra/boole/xor.h"
#include "fern/algorithm/algebra/boole/nor.h"
#include "fern/algorithm/algebra/boole/xnor.h"
#include "fern/algorithm/algebra/boole/not.h"
#include "fern/algorithm/algebra/boole/defined.h"
using namespace vh;

// exact order: -1, 0, 1; 2 for unordered
template<class A, class B> int order(A a, B b)
{
    if constexpr(std::is_floating_point<A>::value || std::is_floating_point<B>::value) {
        long double x = a, y = b;
        if(x != x || y != y) return 2;
        return x < y ? -1 : x > y ? 1 : 0;
    } else { i128 x = a, y = b; return x < y ? -1 : x > y ? 1 : 0; }
}
template<class T> bool truth(T v) { return !(v == T(0)); }
#define OP2(NAME, CALL, EXPR) struct NAME { static char const* name() { return #NAME; } \
    template<class I, class O, class X, class A, class B, class R> static void full(I const& i, O& o, X& x, A const& a, B const& b, R& r) { fa::algebra::CALL(i, o, x, a, b, r); } \
    template<class X, class A, class B, class R> static void plain(X& x, A const& a, B const& b, R& r) { fa::algebra::CALL(x, a, b, r); } \
    template<class A, class B> static bool want(A a, B b) { [[maybe_unused]] int o = order(a, b); [[maybe_unused]] bool p = truth(a), q = truth(b); return EXPR; } };
OP2(Equal, equal, o == 0)
OP2(Less, less, o == -1)
OP2(LessEqual, less_equal, o == -1 || o == 0)
OP2(Greater, greater, o == 1)
OP2(GreaterEqual, greater_equal, o == 1 || o == 0)
OP2(And, and_, p && q)
OP2(Or, or_, p || q)
OP2(Xor, xor_, p != q)
OP2(Nor, nor, !(p || q))
OP2(Xnor, xnor, p == q)

template<class T> T val(Rng& r, bool logic)
{
    if(logic && r.chance(40)) return T(0);
    if constexpr(std::is_floating_point<T>::value) {
        if(r.chance(4)) return std::numeric_limits<T>::quiet_NaN();
        if(r.chance(4)) return r.chance(50) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    }
    return r.chance(40) ? small<T>(r) : value<T>(r);
}

template<class F> struct Elem;
template<class T, size_t D, class S> struct Elem<Field<T, D, S>> { using type = T; };

template<class Op, class A, class B, class R, size_t DA, size_t DB> void call(Rng& r, bool logic)
{
    constexpr size_t D = DA > DB ? DA : DB;
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<A, DA> a(e); Field<B, DB> b(e); Field<R, D> res(e);
    for(size_t i = 0; i < a.n(); ++i) { a.set(i, val<A>(r, logic)); a.mark(i, r.chance(D == 0 || DA ? 15 : 5)); }
    for(size_t i = 0; i < b.n(); ++i) { b.set(i, val<B>(r, logic)); b.mark(i, r.chance(D == 0 || DB ? 15 : 5)); }
    if(std::is_same<A, B>::value && a.n()) for(size_t i = 0; i < b.n(); ++i) if(r.chance(25)) b.set(i, B(a.value(DA ? i : 0)));
    for(size_t i = 0; i < res.n(); ++i) res.set(i, R(7));
    std::string key = std::string(Op::name()) + ":" + tn<A>() + "," + tn<B>() + ":" + std::to_string(DA) + "d" + std::to_string(DB) + "d";
    mon().at(key + " " + x.name + e.show(D));
    using PA = typename Field<A, DA>::Detect; using PB = typename Field<B, DB>::Detect;
    fa::InputNoDataPolicies<PA, PB> in(a.detect(), b.detect()); auto mk = res.marker();
    Op::full(in, mk, x.policy, a.values, b.values, res.values);
    auto ba = snap(a); auto bb = snap(b);
    for(size_t i = 0; i < res.n(); ++i) {
        size_t ia = DA ? i : 0, ib = DB ? i : 0;
        bool nd = a.marked(ia) || b.marked(ib);
        R want = nd ? R(7) : R(Op::want(a.value(ia), b.value(ib)));
        if(res.marked(i) != nd || res.value(i) != want) mon().violation(key, str(a.value(ia)) + " , " + str(b.value(ib)) + " gives " + str(res.value(i)) + (res.marked(i) ? " (marked)" : "") + " want " + (nd ? "no-data" : str(want)));
        mon().seen(key + str(a.value(ia)) + "," + str(b.value(ib)));
        mon().count(nd ? "no-data cells" : want == R(1) ? "true cells" : "false cells");
    }
}
template<class Op, class A, class B> void shapes(Rng& r, bool logic)
{
    call<Op, A, B, bool, 0, 0>(r, logic);
    call<Op, A, B, int32_t, 2, 0>(r, logic);
    call<Op, A, B, uint8_t, 0, 1>(r, logic);
    call<Op, A, B, bool, 2, 2>(r, logic);
}
// every operation on the same operands: complement, mirror and De Morgan laws
template<class T> void same_types(Rng& r)
{
    fa::SequentialExecutionPolicy seq;
    size_t n = mon().n(1500, 20000);
    std::vector<T> a(n), b(n);
    for(size_t i = 0; i < n; ++i) { a[i] = val<T>(r, false); b[i] = r.chance(25) ? a[i] : val<T>(r, false); }
    if constexpr(sizeof(T) == 1) { a.clear(); b.clear(); for(int i = -128; i < 256; ++i) for(int j : {-128, -127, -2, -1, 0, 1, 2, 100, 126, 127, 128, 200, 254, 255}) { a.push_back(T(i)); b.push_back(T(j)); } n = a.size(); }
    mon().at("comparisons " + tn<T>());
    auto run = [&](auto op) {
        using Op = decltype(op);
        fern::Array<bool, 1> g(extents[n]);
        Op::plain(seq, a, b, g);
        for(size_t i = 0; i < n; ++i) {
            if(g[i] != Op::want(a[i], b[i])) mon().violation(std::string(Op::name()) + ":" + tn<T>(), str(a[i]) + " , " + str(b[i]) + " gives " + str(bool(g[i])));
            mon().seen(std::string(Op::name()) + tn<T>() + str(a[i]) + "," + str(b[i]));
        }
        for(size_t i = 0; i < 30; ++i) { bool s = !Op::want(a[i], b[i]); T const x = a[i], y = b[i]; Op::plain(seq, x, y, s); if(s != Op::want(x, y)) mon().violation(std::string(Op::name()) + ":scalar:" + tn<T>(), str(x) + " , " + str(y) + " gives " + str(s)); }
    };
#if PART == 0
    run(Equal{}); run(Less{}); run(LessEqual{}); run(Greater{}); run(GreaterEqual{});
#else
    run(And{}); run(Or{}); run(Xor{}); run(Nor{}); run(Xnor{});
#endif
}
template<class A, class R, size_t D> void nots(Rng& r)
{
    Extent e = extent(r); Exec& x = execs()[r.below(execs().size())];
    Field<A, D> a(e); Field<R, D> res(e);
    for(size_t i = 0; i < a.n(); ++i) { a.set(i, val<A>(r, true)); a.mark(i, r.chance(15)); res.set(i, R(5)); }
    fa::InputNoDataPolicies<typename Field<A, D>::Detect> in(a.detect()); auto mk = res.marker();
    mon().at("not " + tn<A>() + x.name + e.show(D));
    fa::algebra::not_(in, mk, x.policy, a.values, res.values);
    for(size_t i = 0; i < a.n(); ++i) {
        R want = a.marked(i) ? R(5) : R(!truth(a.value(i)));
        if(res.marked(i) != a.marked(i) || res.value(i) != want) mon().violation("not:" + tn<A>() + ":" + std::to_string(D) + "d", str(a.value(i)) + " gives " + str(res.value(i)));
        mon().seen("not" + tn<A>() + std::to_string(D) + str(a.value(i)));
    }
    Field<R, D> d(e);
    for(size_t i = 0; i < d.n(); ++i) d.set(i, R(5));
    if constexpr(D == 1) { if(x.policy.which() == 0) fa::algebra::defined(in, boost::get<fa::SequentialExecutionPolicy>(x.policy), d.values); else fa::algebra::defined(in, boost::get<fa::ParallelExecutionPolicy>(x.policy), d.values); }
    else fa::algebra::defined(in, x.policy, d.values);
    for(size_t i = 0; i < d.n(); ++i) {
        if(d.value(i) != R(a.marked(i) ? 0 : 1)) mon().violation("defined:" + tn<R>() + ":" + std::to_string(D) + "d", "cell " + std::to_string(i) + " is " + str(d.value(i)) + (a.marked(i) ? " at no-data" : " at data") + " " + x.name + e.show(D));
        mon().count(a.marked(i) ? "undefined cells" : "defined cells");
    }
    mon().seen("defined" + e.show(D) + x.name + std::to_string(r.next()), d.n() > 0);
}

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("logic" + std::to_string(PART));
    each(AllTypes{}, [&](auto* p) { same_types<std::remove_pointer_t<decltype(p)>>(r); });
    for(size_t k = 0; k < mon().n(40, 800); ++k) {
#if PART == 0
        shapes<Equal, double, double>(r, false); shapes<Equal, int32_t, int32_t>(r, false);
        shapes<Less, int32_t, double>(r, false); shapes<LessEqual, float, double>(r, false);
        shapes<Greater, uint8_t, int16_t>(r, false); shapes<GreaterEqual, int8_t, int64_t>(r, false);
        shapes<Less, int64_t, int64_t>(r, false); shapes<GreaterEqual, double, double>(r, false);
        nots<int32_t, bool, 0>(r); nots<double, int32_t, 1>(r); nots<float, uint8_t, 2>(r); nots<bool, double, 2>(r);
#else
        shapes<And, double, int32_t>(r, true); shapes<Or, int32_t, uint8_t>(r, true);
        shapes<Xor, uint8_t, double>(r, true); shapes<Nor, float, float>(r, true); shapes<Xnor, int64_t, uint8_t>(r, true);
        shapes<And, bool, bool>(r, true); shapes<Xor, bool, bool>(r, true); shapes<Xnor, bool, bool>(r, true);
#endif
    }
    mon().sample("comparisons and truth tables over ten types, four shapes");
    return mon().finish();
}

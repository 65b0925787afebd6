// C06: element-wise operations mark exactly the cells their policies demand.
// The operations, domain and range policies are made up, so that every path of
// the kernels is taken in every argument shape.
#include "fa.h"
#include "fern/algorithm/core/unary_local_operation.h"
#include "fern/algorithm/core/binary_local_operation.h"
#include "fern/algorithm/core/n_ary_local_operation.h"
#include "fern/algorithm/core/nullary_local_operation.h"
#include "fern/algorithm/core/unary_disaggregate_operation.h"
using namespace vh;

template<class A> int64_t twice(A a) { return std::isfinite(double(a)) ? int64_t(std::llround(double(a) * 2)) : 12345; } // all values used are multiples of a half
inline bool hash_ok(int64_t h, uint64_t m) { return ((uint64_t(h + 100000) * 2654435761ull) >> 7) % m != 0; }

template<class A> struct Dom1 { static bool within_domain(A const& a) { return hash_ok(twice(a), 5); } };
template<class A, class R> struct Rng1 { static bool within_range(A const& a, R const& r) { return hash_ok(twice(r) * 7 + twice(a), 4); } };
template<class A> struct Op1 { template<class R> void operator()(A const& a, R& r) const { r = R(3 * double(a) + 1); } };
template<class A, class B> struct Dom2 { static bool within_domain(A const& a, B const& b) { return hash_ok(twice(a) * 31 + twice(b), 5); } };
template<class A, class B, class R> struct Rng2 { static bool within_range(A const& a, B const& b, R const& r) { return hash_ok(twice(r) * 7 + twice(a) * 3 + twice(b), 4); } };
template<class A, class B> struct Op2 { template<class R> void operator()(A const& a, B const& b, R& r) const { r = R(3 * double(a) + 5 * double(b) + 1); } };

template<class T> T val(Rng& r) { return std::is_floating_point<T>::value ? T((int(r.below(61)) - 20) / 2.0) : std::is_signed<T>::value ? T(int(r.below(31)) - 10) : T(r.below(12)); }
template<class F> void fill(Rng& r, F& f) { for(size_t i = 0; i < f.n(); ++i) f.set(i, val<std::decay_t<decltype(f.value(0))>>(r)); auto m = pattern(r, f.n()); for(size_t i = 0; i < f.n(); ++i) if(m[i]) f.mark(i, true); }
template<class F> void prefill(Rng& r, F& f, bool marks) { for(size_t i = 0; i < f.n(); ++i) { f.set(i, std::decay_t<decltype(f.value(0))>(70 + r.below(20))); if(marks && r.chance(15)) f.mark(i, true); } }

// Judge one cell. kind: 0 valid, 1 marked by input/domain, 2 marked by range
template<class R, class F> void cell(std::string const& key, std::string const& where, F const& res, Snap<R> const& before, size_t i, int kind, R want, bool byvalue)
{
    auto show = [&]() { return where + " cell " + std::to_string(i) + ": value " + str(res.value(i)) + (res.marked(i) ? " (marked)" : "") + ", want " +
        (kind == 0 ? str(want) : kind == 1 ? "no-data by input or domain" : "no-data by range") + ", before " + str(before.v[i]) + (before.m[i] ? " (marked)" : ""); };
    static char const* kinds[] = {"valid cells", "input/domain cells", "range cells"};
    mon().count(kinds[kind]);
    if(byvalue) {
        if(kind == 0 ? !same(res.value(i), want) : !res.marked(i)) mon().violation(key, show());
        return;
    }
    bool want_mark = before.m[i] || kind != 0;
    if(res.marked(i) != want_mark) { mon().violation(key + ":mark", show()); return; }
    if(kind == 0 && !same(res.value(i), want)) mon().violation(key + ":value", show());
    if(kind == 1 && !same(res.value(i), before.v[i])) mon().violation(key + ":overwritten", show());
}

template<class A, class R, size_t D, class P, class SA, class SR> void unary(Rng& r, Extent const& e, Exec& x)
{
    Field<A, D, SA> a(e); Field<R, D, SR> res(e);
    fill(r, a); prefill(r, res, std::is_same<SR, ByMask>::value);
    auto ba = snap(a); auto br = snap(res);
    std::string key = "unary:" + std::to_string(D) + "d:" + tn<A>() + "," + tn<R>() + ":" + (x.name == "seq" ? "seq" : "par");
    std::string where = key + " " + x.name + e.show(D);
    mon().at(where);
    using Inp = fa::InputNoDataPolicies<P>;
    Inp inp(input<P>(a));
    auto mk = res.marker();
    fa::unary_local_operation<Op1, Dom1, Rng1>(inp, mk, x.policy, a.values, res.values);
    if(!same_snap(ba, snap(a))) mon().violation(key + ":input", where + " modified its input");
    for(size_t i = 0; i < res.n(); ++i) {
        bool nd = !std::is_same<P, SkipNoData>::value && ba.m[i];
        R w{}; Op1<A>()(ba.v[i], w);
        int kind = nd || !Dom1<A>::within_domain(ba.v[i]) ? 1 : !Rng1<A, R>::within_range(ba.v[i], w) ? 2 : 0;
        cell<R>(key, where, res, br, i, kind, w, !std::is_same<SR, ByMask>::value);
    }
    mon().seen(where + std::to_string(r.next()), res.n() > 0);
}

template<class A, class B, class R, size_t DA, size_t DB, class PA, class PB, class S, class SR> void binary(Rng& r, Extent const& e, Exec& x)
{
    constexpr size_t D = DA > DB ? DA : DB;
    Field<A, DA, S> a(e); Field<B, DB, S> b(e); Field<R, D, SR> res(e);
    fill(r, a); fill(r, b); prefill(r, res, std::is_same<SR, ByMask>::value);
    if(DA == 0 && r.chance(70)) { a.set(0, val<A>(r)); a.mark(0, false); }
    if(DB == 0 && r.chance(70)) { b.set(0, val<B>(r)); b.mark(0, false); }
    auto ba = snap(a); auto bb = snap(b); auto br = snap(res);
    std::string key = "binary:" + std::to_string(DA) + "d," + std::to_string(DB) + "d:" + tn<A>() + "," + tn<B>() + "," + tn<R>() + ":" + (x.name == "seq" ? "seq" : "par");
    std::string where = key + " " + x.name + e.show(D);
    mon().at(where);
    using Inp = fa::InputNoDataPolicies<PA, PB>;
    Inp inp(input<PA>(a), input<PB>(b));
    auto mk = res.marker();
    fa::binary_local_operation<Op2, Dom2, Rng2>(inp, mk, x.policy, a.values, b.values, res.values);
    if(!same_snap(ba, snap(a)) || !same_snap(bb, snap(b))) mon().violation(key + ":input", where + " modified an input");
    for(size_t i = 0; i < res.n(); ++i) {
        size_t ia = DA ? i : 0, ib = DB ? i : 0;
        bool nd = (!std::is_same<PA, SkipNoData>::value && ba.m[ia]) || (!std::is_same<PB, SkipNoData>::value && bb.m[ib]);
        R w{}; Op2<A, B>()(ba.v[ia], bb.v[ib], w);
        int kind = nd || !Dom2<A, B>::within_domain(ba.v[ia], bb.v[ib]) ? 1 : !Rng2<A, B, R>::within_range(ba.v[ia], bb.v[ib], w) ? 2 : 0;
        cell<R>(key, where, res, br, i, kind, w, !std::is_same<SR, ByMask>::value);
    }
    mon().seen(where + std::to_string(r.next()), res.n() > 0);
    mon().count("binary calls");
}

template<class A, class B, class R, class PA, class PB, class S, class SR> void binary_shapes(Rng& r, Extent const& e, Exec& x)
{
    binary<A, B, R, 0, 0, PA, PB, S, SR>(r, e, x);
    binary<A, B, R, 1, 0, PA, PB, S, SR>(r, e, x);
    binary<A, B, R, 0, 1, PA, PB, S, SR>(r, e, x);
    binary<A, B, R, 1, 1, PA, PB, S, SR>(r, e, x);
    binary<A, B, R, 2, 0, PA, PB, S, SR>(r, e, x);
    binary<A, B, R, 0, 2, PA, PB, S, SR>(r, e, x);
    binary<A, B, R, 2, 2, PA, PB, S, SR>(r, e, x);
}

template<size_t D> struct Det { using type = DetectM<D>; };
template<> struct Det<0> { using type = Detect0; };
template<class A, class B, class R> void binary_masked(Rng& r, Extent const& e, Exec& x)
{
    using M = ByMask;
    binary<A, B, R, 0, 0, Detect0, Detect0, M, M>(r, e, x);
    binary<A, B, R, 1, 0, DetectM<1>, Detect0, M, M>(r, e, x);
    binary<A, B, R, 0, 1, Detect0, DetectM<1>, M, M>(r, e, x);
    binary<A, B, R, 1, 1, DetectM<1>, DetectM<1>, M, M>(r, e, x);
    binary<A, B, R, 2, 0, DetectM<2>, Detect0, M, M>(r, e, x);
    binary<A, B, R, 0, 2, Detect0, DetectM<2>, M, M>(r, e, x);
    binary<A, B, R, 2, 2, DetectM<2>, DetectM<2>, M, M>(r, e, x);
}
// only one of the two arguments can hold no-data
template<class A, class B, class R> void binary_half(Rng& r, Extent const& e, Exec& x)
{
    using M = ByMask;
    binary<A, B, R, 1, 0, SkipNoData, Detect0, M, M>(r, e, x);
    binary<A, B, R, 0, 1, SkipNoData, DetectM<1>, M, M>(r, e, x);
    binary<A, B, R, 1, 1, SkipNoData, DetectM<1>, M, M>(r, e, x);
    binary<A, B, R, 2, 0, SkipNoData, Detect0, M, M>(r, e, x);
    binary<A, B, R, 0, 2, SkipNoData, DetectM<2>, M, M>(r, e, x);
    binary<A, B, R, 2, 2, DetectM<2>, SkipNoData, M, M>(r, e, x);
}
template<class A, class B, class R> void binary_values(Rng& r, Extent const& e, Exec& x)
{
    using V = ByValue;
    using A0 = fa::DetectNoDataByValue<A>; using B0 = fa::DetectNoDataByValue<B>;
    using A1 = fa::DetectNoDataByValue<fern::Array<A, 1>>; using B1 = fa::DetectNoDataByValue<fern::Array<B, 1>>;
    using A2 = fa::DetectNoDataByValue<fern::Array<A, 2>>; using B2 = fa::DetectNoDataByValue<fern::Array<B, 2>>;
    binary<A, B, R, 0, 0, A0, B0, V, V>(r, e, x);
    binary<A, B, R, 1, 0, A1, B0, V, V>(r, e, x);
    binary<A, B, R, 0, 1, A0, B1, V, V>(r, e, x);
    binary<A, B, R, 1, 1, A1, B1, V, V>(r, e, x);
    binary<A, B, R, 2, 0, A2, B0, V, V>(r, e, x);
    binary<A, B, R, 0, 2, A0, B2, V, V>(r, e, x);
    binary<A, B, R, 2, 2, A2, B2, V, V>(r, e, x);
}

template<class A, class R, size_t D, class SA> void disaggregate(Rng& r, Extent const& e, Exec& x)
{
    Field<A, 0, SA> a(e); Field<R, D> res(e);
    fill(r, a); prefill(r, res, true);
    auto ba = snap(a); auto br = snap(res);
    std::string key = "disaggregate:" + std::to_string(D) + "d:" + tn<A>() + "," + tn<R>() + ":" + (x.name == "seq" ? "seq" : "par");
    std::string where = key + " " + x.name + e.show(D);
    mon().at(where);
    using P = typename Field<A, 0, SA>::Detect;
    fa::InputNoDataPolicies<P> inp(a.detect());
    auto mk = res.marker();
    auto call = [&](auto& policy) { fa::unary_disaggregate_operation<Op1, Dom1, Rng1>(inp, mk, policy, a.values, res.values); };
    if constexpr(D == 1) { // no variant dispatch for vectors
        if(x.policy.which() == 0) call(boost::get<fa::SequentialExecutionPolicy>(x.policy)); else call(boost::get<fa::ParallelExecutionPolicy>(x.policy));
    } else call(x.policy);
    R w{}; Op1<A>()(ba.v[0], w);
    int kind = ba.m[0] || !Dom1<A>::within_domain(ba.v[0]) ? 1 : !Rng1<A, R>::within_range(ba.v[0], w) ? 2 : 0;
    for(size_t i = 0; i < res.n(); ++i) cell<R>(key, where, res, br, i, kind, w, false);
    mon().seen(where + std::to_string(r.next()), res.n() > 0);
}

struct Op0 { template<class R> void operator()(R& r) const { r = R(42); } };
template<class R, size_t D> void nullary(Rng& r, Extent const& e, Exec& x)
{
    Field<R, D> res(e), guide(e);
    prefill(r, res, true);
    auto m = pattern(r, guide.n());
    for(size_t i = 0; i < guide.n(); ++i) guide.mark(i, m[i]);
    auto br = snap(res);
    std::string key = "nullary:" + std::to_string(D) + "d:" + tn<R>() + ":" + (x.name == "seq" ? "seq" : "par");
    std::string where = key + " " + x.name + e.show(D);
    mon().at(where);
    fa::InputNoDataPolicies<typename Field<R, D>::Detect> inp(guide.detect());
    auto mk = res.marker();
    auto call = [&](auto& policy) { fa::nullary_local_operation<Op0>(inp, mk, policy, res.values); };
    if constexpr(D == 1) {
        if(x.policy.which() == 0) call(boost::get<fa::SequentialExecutionPolicy>(x.policy)); else call(boost::get<fa::ParallelExecutionPolicy>(x.policy));
    } else call(x.policy);
    for(size_t i = 0; i < res.n(); ++i) cell<R>(key, where, res, br, i, m[i] ? 1 : 0, R(42), false);
    mon().seen(where + std::to_string(r.next()), res.n() > 0);
}

// n-ary: fold from the left, every argument in its own type
template<class A, class B> struct Add { template<class R> void operator()(A const& a, B const& b, R& r) const { r = R(a) + R(b); } };
template<class A, class B, class C, size_t DA, size_t DB, size_t DC> void n_ary(Rng& r, Extent const& e, Exec& x)
{
    constexpr size_t D = std::max(DA, std::max(DB, DC));
    Field<A, DA> a(e); Field<B, DB> b(e); Field<C, DC> c(e); Field<double, D> res(e);
    fill(r, a); fill(r, b); fill(r, c);
    auto ba = snap(a); auto bb = snap(b); auto bc = snap(c);
    std::string key = "n_ary:" + std::to_string(DA) + std::to_string(DB) + std::to_string(DC) + ":" + tn<A>() + tn<B>() + tn<C>();
    std::string where = key + " " + x.name + e.show(D);
    mon().at(where);
    fa::InputNoDataPolicies<SkipNoData, SkipNoData> inp{{}, {}};
    fa::DontMarkNoData out;
    fa::n_ary_local_operation<Add, fa::binary::DiscardDomainErrors, fa::binary::DiscardRangeErrors>(inp, out, x.policy, res.values, a.values, b.values, c.values);
    for(size_t i = 0; i < res.n(); ++i) {
        double w = double(ba.v[DA ? i : 0]) + double(bb.v[DB ? i : 0]) + double(bc.v[DC ? i : 0]);
        if(res.value(i) != w) mon().violation(key, where + " cell " + std::to_string(i) + ": " + str(res.value(i)) + " want " + str(w));
    }
    if(!same_snap(ba, snap(a)) || !same_snap(bb, snap(b)) || !same_snap(bc, snap(c))) mon().violation(key + ":input", where + " modified an input");
    mon().seen(where + std::to_string(r.next()), res.n() > 0);
}

// Other containers, no-data by the default value of the type, in-place use.
void containers(Rng& r, Extent const& e, Exec& x)
{
    size_t rows = e.r, cols = e.c, n = rows * cols;
    mon().at("containers " + x.name);
    { // masked raster in, masked raster out
        fern::MaskedRaster<int32_t, 2>::Transformation t{{1, 10, 2, 20}};
        fern::MaskedRaster<int32_t, 2> a(extents[rows][cols], t); fern::MaskedRaster<double, 2> b(extents[rows][cols], t);
        auto m = pattern(r, n); std::vector<int> v(n);
        for(size_t i = 0; i < n; ++i) { v[i] = val<int32_t>(r); a.data()[i] = v[i]; a.mask().data()[i] = m[i]; b.data()[i] = 77; }
        fa::InputNoDataPolicies<DetectM<2>> inp{{a.mask(), true}}; MarkM<2> mk(b.mask(), true);
        fa::unary_local_operation<Op1, Dom1, Rng1>(inp, mk, x.policy, a, b);
        for(size_t i = 0; i < n; ++i) {
            double w; Op1<int32_t>()(v[i], w);
            int kind = m[i] || !Dom1<int32_t>::within_domain(v[i]) ? 1 : !Rng1<int32_t, double>::within_range(v[i], w) ? 2 : 0;
            bool ok = b.mask().data()[i] == (kind != 0) && (kind != 0 || b.data()[i] == w) && (kind != 1 || b.data()[i] == 77);
            if(!ok) mon().violation("masked_raster:" + x.name, "cell " + std::to_string(i) + " value " + str(b.data()[i]) + " want kind " + std::to_string(kind));
        }
    }
    { // vector in, vector out, default no-data value of the types
        size_t k = e.n1;
        std::vector<double> a(k), b(k, 77); auto m = pattern(r, k); std::vector<double> v(k);
        for(size_t i = 0; i < k; ++i) { v[i] = val<double>(r); a[i] = v[i]; if(m[i]) fern::set_no_data(a[i]); }
        fa::DetectNoData<std::vector<double>> const d(a);
        fa::InputNoDataPolicies<fa::DetectNoData<std::vector<double>>> inp(d);
        fa::MarkNoData<std::vector<double>> mk(b); double const nd_value = fern::no_data_value<double>();
        fa::unary_local_operation<Op1, Dom1, Rng1>(inp, mk, x.policy, a, b);
        for(size_t i = 0; i < k; ++i) {
            double w; Op1<double>()(v[i], w);
            bool nd = m[i] || !Dom1<double>::within_domain(v[i]) || !Rng1<double, double>::within_range(v[i], w);
            if(b[i] != (nd ? nd_value : w)) mon().violation("vector:default-no-data:" + x.name, "element " + std::to_string(i) + " is " + str(b[i]) + " want " + str(nd ? nd_value : w));
        }
    }
    mon().seen("containers" + x.name + std::to_string(r.next()), n > 0);
}

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("marks" + std::to_string(PART));
    size_t rounds = mon().n(250, 5000);
    for(size_t k = 0; k < rounds; ++k) {
        Extent e = extent(r);
        Exec& x = execs()[r.below(execs().size())];
#if PART == 0
        unary<int32_t, double, 0, Detect0, ByMask, ByMask>(r, e, x);
        unary<int32_t, double, 1, DetectM<1>, ByMask, ByMask>(r, e, x);
        unary<int32_t, double, 2, DetectM<2>, ByMask, ByMask>(r, e, x);
        unary<double, int16_t, 1, SkipNoData, ByMask, ByMask>(r, e, x);
        unary<double, int16_t, 2, SkipNoData, ByMask, ByMask>(r, e, x);
        unary<uint8_t, float, 0, fa::DetectNoDataByValue<uint8_t>, ByValue, ByValue>(r, e, x);
        unary<uint8_t, float, 1, fa::DetectNoDataByValue<fern::Array<uint8_t, 1>>, ByValue, ByValue>(r, e, x);
        unary<uint8_t, float, 2, fa::DetectNoDataByValue<fern::Array<uint8_t, 2>>, ByValue, ByMask>(r, e, x);
        containers(r, e, x);
#elif PART == 1
        binary_masked<int32_t, double, double>(r, e, x);
        binary_masked<double, int16_t, int64_t>(r, e, x);
#elif PART == 2
        binary_masked<uint8_t, uint8_t, int32_t>(r, e, x);
        binary_half<float, int32_t, double>(r, e, x);
        n_ary<int32_t, int32_t, int32_t, 0, 0, 0>(r, e, x);
        n_ary<int32_t, int32_t, double, 0, 0, 0>(r, e, x);
        n_ary<double, double, double, 1, 1, 1>(r, e, x);
        n_ary<double, int32_t, double, 1, 1, 1>(r, e, x);
        n_ary<double, int32_t, uint8_t, 2, 2, 2>(r, e, x);
        n_ary<double, int32_t, double, 2, 0, 2>(r, e, x);
        n_ary<int32_t, double, double, 0, 1, 0>(r, e, x);
#elif PART == 3
        binary_shapes<double, int8_t, double, SkipNoData, SkipNoData, ByMask, ByMask>(r, e, x);
        binary_values<int16_t, float, double>(r, e, x);
        disaggregate<double, int32_t, 0, ByMask>(r, e, x);
        disaggregate<double, int32_t, 1, ByMask>(r, e, x);
        disaggregate<double, int32_t, 2, ByMask>(r, e, x);
        disaggregate<int16_t, double, 2, ByValue>(r, e, x);
        nullary<int32_t, 0>(r, e, x);
        nullary<double, 1>(r, e, x);
        nullary<uint8_t, 2>(r, e, x);
#endif
        if(k < 6) mon().sample(x.name + " extents " + e.show(1) + " " + e.show(2) + ": unary, binary, n-ary, nullary and disaggregating operations with made-up domain and range");
    }
    return mon().finish();
}

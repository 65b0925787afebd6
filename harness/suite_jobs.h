// The catalogue of one PART.
#include "suite.h"
#if PART == 0
#include "fern/algorithm/algebra/elementary.h"
#include "fern/algorithm/algebra/elementary/less_equal.h"
#include "fern/algorithm/algebra/elementary/greater.h"
#include "fern/algorithm/algebra/elementary/greater_equal.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/factorial.h"
#include "fern/algorithm/algebra/boole.h"
namespace vh {
#define ARITH(OP) fa::algebra::OP<fa::OP::OutOfDomainPolicy, fa::OP::OutOfRangePolicy>(in, mk, x, a, b, r)
#define RANGED(OP) fa::algebra::OP<fa::OP::OutOfRangePolicy>(in, mk, x, a, b, r)
std::vector<Maker> catalogue()
{
    return {
        [](Ctx& c) { return job2<int32_t, int32_t, int32_t, 1, 1>(c, "add", IN2(RANGED(add))); },
        [](Ctx& c) { return job2<uint8_t, int16_t, fa::add::result_value_type<uint8_t, int16_t>, 2, 0>(c, "add", IN2(RANGED(add))); },
        [](Ctx& c) { return job2<int64_t, int64_t, int64_t, 2, 2, ByValue>(c, "subtract", IN2(RANGED(subtract))); },
        [](Ctx& c) { return job2<double, double, double, 0, 2>(c, "subtract", IN2(RANGED(subtract))); },
        [](Ctx& c) { return job2<int32_t, int32_t, int32_t, 2, 2>(c, "multiply", IN2(RANGED(multiply))); },
        [](Ctx& c) { return job2<int64_t, int64_t, int64_t, 1, 0>(c, "multiply", IN2(RANGED(multiply))); },
        [](Ctx& c) { return job2<float, double, double, 0, 1>(c, "multiply", IN2(RANGED(multiply))); },
        [](Ctx& c) { return job2<int32_t, int32_t, fa::divide::result_value_type<int32_t, int32_t>, 2, 2>(c, "divide", IN2(ARITH(divide))); },
        [](Ctx& c) { return job2<double, double, double, 1, 1>(c, "divide", IN2(ARITH(divide))); },
        [](Ctx& c) { return job2<int64_t, int64_t, fa::divide::result_value_type<int64_t, int64_t>, 0, 0>(c, "divide", IN2(ARITH(divide))); },
        [](Ctx& c) { return job2<double, double, double, 2, 2>(c, "pow", IN2(ARITH(pow))); },
        [](Ctx& c) { return job2<float, float, float, 2, 0>(c, "pow", IN2(ARITH(pow))); },
        [](Ctx& c) { return job1<int32_t, int32_t, 2>(c, "absolute", IN1(fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<int64_t, int64_t, 1>(c, "absolute", IN1(fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<int32_t, int32_t, 1>(c, "factorial", IN1((fa::algebra::factorial<fa::factorial::OutOfDomainPolicy, fa::factorial::OutOfRangePolicy>(in, mk, x, a, r)))); },
        [](Ctx& c) { return job1<double, double, 2>(c, "factorial", IN1((fa::algebra::factorial<fa::factorial::OutOfDomainPolicy, fa::factorial::OutOfRangePolicy>(in, mk, x, a, r)))); },
        [](Ctx& c) { return job2<int32_t, int32_t, bool, 2, 2>(c, "equal", IN2(fa::algebra::equal(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<double, int32_t, bool, 1, 1>(c, "less", IN2(fa::algebra::less(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<double, double, bool, 2, 0>(c, "less_equal", IN2(fa::algebra::less_equal(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<uint8_t, int64_t, int32_t, 0, 1>(c, "greater", IN2(fa::algebra::greater(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<float, float, uint8_t, 2, 2>(c, "greater_equal", IN2(fa::algebra::greater_equal(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<int32_t, double, bool, 2, 2>(c, "and", IN2(fa::algebra::and_(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<bool, bool, bool, 1, 1>(c, "or", IN2(fa::algebra::or_(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<uint8_t, uint8_t, bool, 2, 0>(c, "xor", IN2(fa::algebra::xor_(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<double, double, bool, 0, 2>(c, "nor", IN2(fa::algebra::nor(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<int64_t, int64_t, int32_t, 2, 2>(c, "xnor", IN2(fa::algebra::xnor(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job1<double, bool, 2>(c, "not", IN1(fa::algebra::not_(in, mk, x, a, r))); },
        [](Ctx& c) { return plain2<int32_t, int32_t, int32_t, 2, 2>(c, "add", PL2(fa::algebra::add(x, a, b, r))); },
        [](Ctx& c) { return plain2<int32_t, int32_t, int32_t, 1, 0>(c, "multiply", PL2(fa::algebra::multiply(x, a, b, r))); },
        [](Ctx& c) { return plain2<double, int32_t, double, 2, 2>(c, "subtract", PL2(fa::algebra::subtract(x, a, b, r))); },
        [](Ctx& c) { return plain2<double, double, bool, 1, 1>(c, "equal", PL2(fa::algebra::equal(x, a, b, r))); },
    };
}
} // namespace vh
#elif PART == 1
#include "fern/core/data_type_traits/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/unite_no_data.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/algebra/boole/defined.h"
namespace vh {
template<class O> O far(Rng& r, size_t n)
{
    long m = long(n);
    switch(r.below(6)) { case 0: return O(0); case 1: return O(m + long(r.below(3)) - 1); case 2: return O(-m + long(r.below(3)) - 1); case 3: return r.chance(50) ? std::numeric_limits<O>::max() : O(std::numeric_limits<O>::min() + 1); default: return O(long(r.below(2 * n + 3)) - m - 1); }
}
template<class T, class O, size_t D, class S> Job offsets(Ctx& c, bool fill)
{
    Extent e = some_extent(c); auto a = arg<T, D, S>(c, e);
    fern::Point<O, D> p; p[0] = far<O>(c.r, D == 1 ? e.n1 : e.r); if constexpr(D == 2) p[1] = far<O>(c.r, e.c);
    T with_ = small<T>(c.r);
    return field_job<T, D, S, true>(c, std::string(fill ? "offset fill:" : "offset:") + tn<T>() + "," + tn<O>() + ":" + std::to_string(D) + "d", e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<T, D, S>> in(DetectOf<T, D, S>(a->detect())); auto mk = res.marker(); auto const& av = a->values;
        if(fill) fa::core::offset(in, mk, policy, av, p, with_, res.values); else fa::core::offset(in, mk, policy, av, p, res.values);
    });
}
template<class T> Job copies(Ctx& c)
{
    Extent e = some_extent(c); auto a = arg<T, 1>(c, e); size_t n = e.n1, m = c.r.below(n + 1), from = c.r.below(n - m + 1), to = c.r.below(n - m + 1);
    return field_job<T, 1, ByMask, true>(c, "copy:" + tn<T>(), e, [=](auto& policy, auto& res) {
        fa::IndexRanges<1> range{fa::IndexRange(from, from + m)}; fern::Point<size_t, 1> position{to};
        fa::InputNoDataPolicies<DetectOf<T, 1, ByMask>> in(DetectOf<T, 1, ByMask>(a->detect())); auto mk = res.marker(); auto const& av = a->values;
        fa::core::copy(in, mk, policy, av, range, res.values, position);
    }, false);
}
template<class T, size_t D, bool Variant> Job fills(Ctx& c)
{
    Extent e = some_extent(c); auto v = arg<T, 0>(c, e);
    return field_job<T, D, ByMask, Variant>(c, "fill:" + tn<T>() + ":" + std::to_string(D) + "d", e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<T, 0, ByMask>> in(DetectOf<T, 0, ByMask>(v->detect())); auto mk = res.marker(); T const& k = v->values;
        fa::core::fill(in, mk, policy, k, res.values);
    });
}
template<class T, size_t D, bool Variant> Job defineds(Ctx& c)
{
    Extent e = some_extent(c); auto v = arg<T, D>(c, e);
    return field_job<bool, D, ByMask, Variant>(c, "defined:" + std::to_string(D) + "d", e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<T, D, ByMask>> in(DetectOf<T, D, ByMask>(v->detect())); fa::algebra::defined(in, policy, res.values);
    });
}
// compress and decompress: the packed values and their count are the result
template<class T, size_t D> struct PackOut : Out {
    FieldP<T, D, ByMask> a; std::vector<T> packed; size_t count = 0; Field<T, D> back;
    PackOut(FieldP<T, D, ByMask> f, Extent const& e) : a(f), packed(f->n(), T(77)), back(e) { for(size_t i = 0; i < back.n(); ++i) back.set(i, T(5)); }
    void run(Pol& p) override
    {
        fa::InputNoDataPolicies<DetectOf<T, D, ByMask>> in(DetectOf<T, D, ByMask>(a->detect())); auto const& av = a->values;
        with<true>(p, [&](auto& policy) { fa::core::compress(in, policy, av, packed, count); });
        // the values that are in use, and not one more
        std::vector<T> const pv(packed.begin(), packed.begin() + std::min(count, packed.size())); auto mk = back.marker();
        with<true>(p, [&](auto& policy) { fa::core::decompress(in, mk, policy, pv, back.values); });
    }
    std::vector<Cell> cells() const override
    {
        std::vector<Cell> c{cell_of(count, false)};
        for(size_t i = 0; i < std::min(count, packed.size()); ++i) c.push_back(cell_of(packed[i], false));
        for(size_t i = 0; i < back.n(); ++i) c.push_back(cell_of(back.value(i), back.marked(i)));
        return c;
    }
};
template<class T, size_t D> Job packs(Ctx& c)
{
    Extent e = some_extent(c); auto a = arg<T, D>(c, e);
    Job j; j.name = "compress, decompress:" + tn<T>() + ":" + std::to_string(D) + "d"; j.where = e.show(D); j.n = e.cells(D); j.every = false;
    j.make = [=] { return std::make_unique<PackOut<T, D>>(a, e); };
    return j;
}
template<class T, size_t DV, size_t DL, size_t DU> Job clamps(Ctx& c)
{
    Extent e = some_extent(c); auto v = arg<T, DV>(c, e); auto lo = arg<T, DL>(c, e, false); auto hi = arg<T, DU>(c, e, false);
    for(size_t i = 0; i < lo->n(); ++i) { T x = lo->value(i); if(!(x < T(20))) lo->set(i, T(3)); }
    for(size_t i = 0; i < hi->n(); ++i) { T x = hi->value(i); if(!(x > T(20))) hi->set(i, T(30)); }
    return field_job<T, DV, ByMask, true>(c, "clamp:" + tn<T>() + ":" + std::to_string(DV) + std::to_string(DL) + std::to_string(DU), e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<T, DV, ByMask>, DetectOf<T, DL, ByMask>, DetectOf<T, DU, ByMask>> in(DetectOf<T, DV, ByMask>(v->detect()), DetectOf<T, DL, ByMask>(lo->detect()), DetectOf<T, DU, ByMask>(hi->detect()));
        auto mk = res.marker(); auto const& vv = v->values; auto const& lv = lo->values; auto const& hv = hi->values;
        fa::core::clamp(in, mk, policy, vv, lv, hv, res.values);
    });
}
std::vector<Maker> catalogue()
{
    return {
        [](Ctx& c) { return job3<uint8_t, int32_t, int32_t, int32_t, 2, 2, 2>(c, "if_else", IN3(fa::core::if_(in, mk, x, a, b, c, r))); },
        [](Ctx& c) { return job3<int32_t, double, double, double, 1, 1, 1>(c, "if_else", IN3(fa::core::if_(in, mk, x, a, b, c, r))); },
        [](Ctx& c) { return job3<uint8_t, double, double, double, 2, 0, 2>(c, "if_else", IN3(fa::core::if_(in, mk, x, a, b, c, r))); },
        [](Ctx& c) { return job3<uint8_t, int32_t, int32_t, int32_t, 2, 2, 0, ByValue>(c, "if_else", IN3(fa::core::if_(in, mk, x, a, b, c, r))); },
        [](Ctx& c) { return job3<uint8_t, int32_t, int32_t, int32_t, 0, 2, 2>(c, "if_else", IN3(fa::core::if_(in, mk, x, a, b, c, r))); },
        [](Ctx& c) { return job2<uint8_t, int32_t, int32_t, 2, 2>(c, "if_then", IN2(fa::core::if_(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<int32_t, double, double, 2, 0>(c, "if_then", IN2(fa::core::if_(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<int32_t, int32_t, int32_t, 2, 2>(c, "cover", IN2(fa::core::cover(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<double, double, double, 2, 2>(c, "cover", IN2(fa::core::cover(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<uint8_t, uint8_t, uint8_t, 2, 0, ByValue>(c, "cover", IN2(fa::core::cover(in, mk, x, a, b, r))); },
        [](Ctx& c) { return job2<int64_t, int64_t, int64_t, 2, 2>(c, "cover", IN2(fa::core::cover(in, mk, x, a, b, r))); },
        [](Ctx& c) { return clamps<int32_t, 2, 2, 2>(c); }, [](Ctx& c) { return clamps<double, 1, 1, 0>(c); }, [](Ctx& c) { return clamps<uint8_t, 2, 0, 2>(c); },
        [](Ctx& c) { return job1<int32_t, int64_t, 2>(c, "cast", IN1(fa::core::cast<fa::cast::OutOfRangePolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<uint8_t, double, 1>(c, "cast", IN1(fa::core::cast<fa::unary::DiscardRangeErrors>(in, mk, x, a, r))); },
        [](Ctx& c) { return plain1<double, int32_t, 2>(c, "cast", PL1(fa::core::cast(x, a, r))); },
        [](Ctx& c) { return copies<int32_t>(c); }, [](Ctx& c) { return copies<double>(c); },
        [](Ctx& c) { return fills<int32_t, 2, true>(c); }, [](Ctx& c) { return fills<double, 1, false>(c); },
        [](Ctx& c) { return defineds<int32_t, 2, true>(c); }, [](Ctx& c) { return defineds<int32_t, 1, false>(c); },
        [](Ctx& c) { return offsets<int32_t, int32_t, 1, ByMask>(c, c.r.chance(50)); }, [](Ctx& c) { return offsets<int32_t, int64_t, 2, ByMask>(c, c.r.chance(50)); },
        [](Ctx& c) { return offsets<uint8_t, int32_t, 2, ByValue>(c, c.r.chance(50)); },
        [](Ctx& c) { return packs<int32_t, 1>(c); }, [](Ctx& c) { return packs<double, 2>(c); },
        [](Ctx& c) { return job1<int32_t, int32_t, 2>(c, "merge", IN1(fa::core::merge_no_data(in, mk, x, a, r)), false); },
        [](Ctx& c) { return job2<int32_t, double, uint8_t, 2, 2>(c, "unite", IN2(fa::core::unite_no_data(in, mk, x, a, b, r)), false); },
        [](Ctx& c) { return job2<int32_t, double, uint8_t, 2, 2>(c, "intersect", IN2(fa::core::intersect_no_data(in, mk, x, a, b, r)), false); },
        [](Ctx& c) { return job2<int32_t, int32_t, int32_t, 2, 2, ByValue>(c, "unite", IN2(fa::core::unite_no_data(in, mk, x, a, b, r)), false); },
    };
}
} // namespace vh
#elif PART == 2
#include "fern/algorithm/statistic.h"
namespace vh {
template<class T, size_t D, class S> void stats(std::vector<Maker>& v)
{
    v.push_back([](Ctx& c) { return aggregate<T, T, D, S>(c, "min", [](auto d, auto& mk, auto& x, auto const& a, auto& r) { fa::InputNoDataPolicies<decltype(d)> in(std::move(d)); fa::statistic::unary_min(in, mk, x, a, r); }, c.level == Level::Wild ? Level::Wild : Level::Mild); });
    v.push_back([](Ctx& c) { return aggregate<T, T, D, S>(c, "max", [](auto d, auto& mk, auto& x, auto const& a, auto& r) { fa::InputNoDataPolicies<decltype(d)> in(std::move(d)); fa::statistic::unary_max(in, mk, x, a, r); }, c.level); });
    v.push_back([](Ctx& c) { return aggregate<T, T, D, S>(c, "sum", [](auto d, auto& mk, auto& x, auto const& a, auto& r) { fa::InputNoDataPolicies<decltype(d)> in(std::move(d)); fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, mk, x, a, r); }, c.level); });
    v.push_back([](Ctx& c) { return aggregate<T, T, D, S>(c, "mean", [](auto d, auto& mk, auto& x, auto const& a, auto& r) { fa::InputNoDataPolicies<decltype(d)> in(std::move(d)); fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, mk, x, a, r); }, c.level); });
    v.push_back([](Ctx& c) { T what = small<T>(c.r); return aggregate<T, size_t, D, S>(c, "count", [what](auto d, auto& mk, auto& x, auto const& a, auto& r) { fa::InputNoDataPolicies<decltype(d), SkipNoData> in(std::move(d), SkipNoData()); fa::statistic::count(in, mk, x, a, what, r); }, c.level); });
}
std::vector<Maker> catalogue()
{
    std::vector<Maker> v;
    stats<int64_t, 1, ByMask>(v); stats<int32_t, 2, ByMask>(v); stats<double, 2, ByMask>(v); stats<float, 1, ByValue>(v); stats<int32_t, 2, ByValue>(v);
    v.push_back([](Ctx& c) { return job2<int32_t, int32_t, int32_t, 2, 2>(c, "binary min", IN2(fa::statistic::binary_min(in, mk, x, a, b, r))); });
    v.push_back([](Ctx& c) { return job2<double, double, double, 1, 1>(c, "binary max", IN2(fa::statistic::binary_max(in, mk, x, a, b, r))); });
    v.push_back([](Ctx& c) { return job2<uint8_t, uint8_t, uint8_t, 2, 0, ByValue>(c, "binary max", IN2(fa::statistic::binary_max(in, mk, x, a, b, r))); });
    return v;
}
} // namespace vh
#elif PART == 3
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/policies.h"
#include "fern/algorithm/convolution/neighborhood.h"
#include "fern/algorithm/convolution/neighborhood/kernel.h"
#include "fern/algorithm/convolution/neighborhood/kernel_traits.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/space/focal/slope.h"
namespace vh {
namespace fv = fern::algorithm::convolve;
template<class AF, class NP, class OI, class NF, class V, class R, class S, class W = double> Job convolves(Ctx& c, char const* what)
{
    size_t rad = c.r.below(4); if(rad == 0 && c.r.chance(70)) rad = 1;
    Extent e = some_extent(c, 2 * rad); auto a = arg<V, 2, S>(c, e);
    auto kp = std::make_shared<fern::Kernel<W>>(rad, W(1)); auto& k = *kp; size_t side = 2 * rad + 1;
    for(size_t i = 0; i < side * side; ++i) { if constexpr(std::is_same<W, bool>::value) fern::get(k, i) = c.r.chance(50); else fern::get(k, i) = W(int(c.r.below(9)) - 2) / 4; }
    return field_job<R, 2, S, true>(c, std::string("convolve ") + what + ":" + tn<V>() + (std::is_same<W, bool>::value ? ":no weights" : "") + ":radius " + std::to_string(rad), e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<V, 2, S>> in(DetectOf<V, 2, S>(a->detect())); auto mk = res.marker(); auto const& av = a->values;
        fa::convolution::convolve<AF, NP, OI, NF, fv::OutOfRangePolicy>(in, mk, policy, av, *kp, res.values);
    });
}
template<class T> struct RasterOut : Out {
    using Raster = fern::MaskedRaster<T, 2>;
    std::shared_ptr<Raster> val; Raster res; int op; T f;
    RasterOut(std::shared_ptr<Raster> v, int o, T fraction) : val(v), res(extents[v->shape()[0]][v->shape()[1]], v->transformation()), op(o), f(fraction) { for(size_t i = 0; i < res.num_elements(); ++i) { res.data()[i] = T(-77); res.mask().data()[i] = false; } }
    void run(Pol& p) override
    {
        Raster const& cv = *val; MarkM<2> mk(res.mask(), true); using P = Spy<DetectM<2>>; fa::InputNoDataPolicies<P> in(P(DetectM<2>(val->mask(), true)));
        if(op == 3) { with<false>(p, [&](auto& x) { fa::algebra::laplacian<fa::laplacian::OutOfRangePolicy>(in, mk, x, cv, res); }); return; }
        with<true>(p, [&](auto& x) {
            if(op == 0) fa::algebra::gradient_x(in, mk, x, cv, res);
            else if(op == 1) fa::algebra::gradient_y(in, mk, x, cv, res);
            else if(op == 2) fa::space::slope<fa::slope::OutOfRangePolicy>(in, mk, x, cv, res);
            else fa::algebra::lax(in, mk, x, cv, f, res);
        });
    }
    std::vector<Cell> cells() const override { std::vector<Cell> c; for(size_t i = 0; i < res.num_elements(); ++i) c.push_back(cell_of(res.data()[i], res.mask().data()[i])); return c; }
    std::vector<std::pair<void*, size_t>> values() override { return {{res.data(), res.num_elements() * sizeof(T)}}; }
    size_t width() const override { return sizeof(T); }
};
template<class T> Job rasters(Ctx& c, int op)
{
    static char const* names[] = {"gradient_x", "gradient_y", "slope", "laplacian", "lax"};
    Extent e = some_extent(c, op < 2 ? 0 : 2); auto a = arg<T, 2>(c, e);
    using Raster = fern::MaskedRaster<T, 2>;
    typename Raster::Transformation t{{0.0, 0.5 + c.r.below(9), 0.0, 0.25 + c.r.below(9)}};
    auto v = std::make_shared<Raster>(extents[e.r][e.c], t);
    for(size_t i = 0; i < a->n(); ++i) { v->data()[i] = a->value(i); v->mask().data()[i] = a->marked(i); }
    T f = T(c.r.below(17)) / T(16);
    Job j; j.name = std::string(names[op]) + ":" + tn<T>(); j.where = e.show(2); j.n = e.cells(2);
    j.make = [=] { return std::make_unique<RasterOut<T>>(v, op, f); };
    return j;
}
std::vector<Maker> catalogue()
{
    return {
        [](Ctx& c) { return convolves<fv::SkipNoData, fv::DivideByWeights, fv::SkipOutOfImage, fv::KeepNoDataFocusElement, double, double, ByMask>(c, "skip, divide, skip, keep"); },
        [](Ctx& c) { return convolves<fv::ReplaceNoDataByFocalAverage, fv::DontDivideByWeights, fv::ReplaceOutOfImageByFocalAverage, fv::ReplaceNoDataFocusElement, float, double, ByMask>(c, "fill, sum, fill, replace"); },
        [](Ctx& c) { return convolves<fv::SkipNoData, fv::DontDivideByWeights, fv::ReplaceOutOfImageByFocalAverage, fv::KeepNoDataFocusElement, double, float, ByMask>(c, "skip, sum, fill, keep"); },
        [](Ctx& c) { return convolves<fv::ReplaceNoDataByFocalAverage, fv::DivideByWeights, fv::SkipOutOfImage, fv::ReplaceNoDataFocusElement, double, double, ByValue>(c, "fill, divide, skip, replace"); },
        [](Ctx& c) { return convolves<fv::SkipNoData, fv::DontDivideByWeights, fv::SkipOutOfImage, fv::KeepNoDataFocusElement, double, double, ByMask, bool>(c, "skip, sum, skip, keep"); },
        [](Ctx& c) { return convolves<fv::ReplaceNoDataByFocalAverage, fv::DivideByWeights, fv::SkipOutOfImage, fv::ReplaceNoDataFocusElement, float, double, ByMask, bool>(c, "fill, divide, skip, replace"); },
        [](Ctx& c) { return rasters<double>(c, int(c.r.below(2))); }, [](Ctx& c) { return rasters<float>(c, int(c.r.below(2))); },
        [](Ctx& c) { return rasters<double>(c, 2); }, [](Ctx& c) { return rasters<float>(c, 3); }, [](Ctx& c) { return rasters<double>(c, 4); }, [](Ctx& c) { return rasters<double>(c, 3); },
    };
}
} // namespace vh
#else
#include "fern/algorithm/algebra/elementary.h"
#include "fern/algorithm/algebra/elementary/tgamma.h"
#include "fern/algorithm/algebra/elementary/log2.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/atan.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/tan.h"
namespace vh {
std::vector<Maker> catalogue()
{
    return {
        [](Ctx& c) { return job1<double, double, 2>(c, "sqrt", IN1(fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<float, float, 1>(c, "log", IN1(fa::algebra::log<fa::log::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 2, ByValue>(c, "log2", IN1(fa::algebra::log2<fa::log2::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 1>(c, "log10", IN1(fa::algebra::log10<fa::log10::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 2>(c, "tgamma", IN1((fa::algebra::tgamma<fa::tgamma::OutOfDomainPolicy, fa::tgamma::OutOfRangePolicy>(in, mk, x, a, r)))); },
        [](Ctx& c) { return job1<float, float, 2>(c, "round", IN1(fa::algebra::round(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 1>(c, "ceil", IN1(fa::algebra::ceil(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 2>(c, "floor", IN1(fa::algebra::floor(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<float, float, 1>(c, "trunc", IN1(fa::algebra::trunc(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 2>(c, "acos", IN1(fa::trigonometry::acos<fa::acos::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<float, float, 1>(c, "asin", IN1(fa::trigonometry::asin<fa::asin::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 1>(c, "atan", IN1(fa::trigonometry::atan(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 2>(c, "cos", IN1(fa::trigonometry::cos<fa::cos::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<double, double, 1>(c, "sin", IN1(fa::trigonometry::sin<fa::sin::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return job1<float, float, 2>(c, "tan", IN1(fa::trigonometry::tan<fa::tan::OutOfDomainPolicy>(in, mk, x, a, r))); },
        [](Ctx& c) { return plain1<double, double, 1>(c, "floor", PL1(fa::algebra::floor(x, a, r))); },
        [](Ctx& c) { return plain1<double, double, 2>(c, "atan", PL1(fa::trigonometry::atan(x, a, r))); },
    };
}
} // namespace vh
#endif

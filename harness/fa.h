// Shared by the algorithm monitors: containers, policies, field helpers.
#pragma once
#include "vh.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/execution_policy.h"

namespace vh {
namespace fa = fern::algorithm;
using fern::extents;
template<size_t D> using Mask = fern::Mask<D>;
template<size_t D> using DetectM = fa::DetectNoDataByValue<Mask<D>>;
template<size_t D> using MarkM = fa::MarkNoDataByValue<Mask<D>>;
using Detect0 = fa::DetectNoDataByValue<bool>;
using Mark0 = fa::MarkNoDataByValue<bool>;
using fa::SkipNoData;
using fa::DontMarkNoData;
using i128 = __int128;
using u128 = unsigned __int128;

template<class A> struct U1 {}; // type list helpers
template<class... T> struct Types {};
template<class F, class... T> void each(Types<T...>, F&& f) { (f(static_cast<T*>(nullptr)), ...); }
using AllTypes = Types<uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, float, double>;
using IntTypes = Types<uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t>;
using SignedTypes = Types<int8_t, int16_t, int32_t, int64_t, float, double>;
using RealTypes = Types<float, double>;

// units in the last place between two floats of the same type
template<class T> double ulps(T a, T b)
{
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b) ? 0 : 1e300;
    if(a == b) return 0;
    if(std::isinf(a) || std::isinf(b)) return 1e300;
    T m = std::max(std::fabs(a), std::fabs(b));
    T u = std::nextafter(m, std::numeric_limits<T>::infinity()) - m;
    if(!std::isfinite(u)) u = m - std::nextafter(m, T(0));
    return double(std::fabs((long double)a - (long double)b) / u);
}

// number of parallel workers used by the parallel monitors
inline std::vector<size_t> const& worker_counts() { static std::vector<size_t> v{1, 2, 3, 5, 8}; return v; }

// Sequential and parallel policies behind one type (pools are made once).
struct Exec { std::string name; fa::ExecutionPolicy policy; };
inline std::vector<Exec>& execs()
{
    static std::vector<Exec> v{{"seq", fa::SequentialExecutionPolicy{}}, {"par1", fa::ParallelExecutionPolicy{1}}, {"par2", fa::ParallelExecutionPolicy{2}},
        {"par3", fa::ParallelExecutionPolicy{3}}, {"par7", fa::ParallelExecutionPolicy{7}}};
    return v;
}

struct Extent {
    size_t n1 = 1, r = 1, c = 1; // one extent for each dimensionality
    size_t cells(size_t d) const { return d == 0 ? 1 : d == 1 ? n1 : r * c; }
    std::string show(size_t d) const { return d == 0 ? "0d" : d == 1 ? "[" + std::to_string(n1) + "]" : "[" + std::to_string(r) + "x" + std::to_string(c) + "]"; }
};
inline Extent extent(Rng& r, size_t most = 40)
{
    Extent e;
    switch(r.below(8)) {
    case 0: e.r = 1; e.c = 1 + r.below(12); break;
    case 1: e.r = 1 + r.below(12); e.c = 1; break;
    case 2: e.r = r.below(3); e.c = r.below(3); break;
    default: e.r = 1 + r.below(12); e.c = 1 + r.below(12);
    }
    switch(r.below(8)) { case 0: e.n1 = r.below(4); break; case 1: e.n1 = 64 + r.below(200); break; default: e.n1 = 1 + r.below(most); }
    // Now and then large ones: many rows, many columns, more cells than 16 bits can count.
    if(r.chance(2)) {
        e.n1 = 500 + r.below(3500);
        switch(r.below(3)) {
        case 0: e.r = 100 + r.below(600); e.c = 1 + r.below(4); break;
        case 1: e.r = 1 + r.below(4); e.c = 100 + r.below(600); break;
        default: e.r = 20 + r.below(40); e.c = 20 + r.below(40);
        }
        if(r.chance(3)) {
            e.n1 = 65530 + r.below(3000);
            switch(r.below(3)) { case 0: e.r = 65530 + r.below(300); e.c = 1; break; case 1: e.r = 1; e.c = 65530 + r.below(300); break; default: e.r = 256 + r.below(4); e.c = 256 + r.below(6); }
        }
    }
    return e;
}

// No-data patterns: which cells are marked.
inline std::vector<char> pattern(Rng& r, size_t n)
{
    std::vector<char> m(n, 0);
    if(!n) return m;
    switch(r.below(8)) {
    case 0: break;
    case 1: std::fill(m.begin(), m.end(), 1); break;
    case 2: m[r.below(n)] = 1; break;
    case 3: std::fill(m.begin(), m.end(), 1); m[r.below(n)] = 0; break;
    case 4: { size_t a = r.below(n), b = a + r.below(n - a + 1); std::fill(m.begin() + a, m.begin() + b, 1); break; }
    case 5: for(size_t i = 0; i < n; ++i) m[i] = i & 1; break;
    default: { unsigned p = unsigned(r.below(101)); for(auto& x : m) x = r.chance(p); }
    }
    return m;
}

// An argument or result: values and marks, the marks kept in a mask (ByMask) or
// as a special value among the values (ByValue).
struct ByMask {}; struct ByValue {};
template<class T, size_t D, class Store = ByMask> struct Field;

template<class T, size_t D> struct FieldBase {
    using Values = fern::Array<T, D>;
    Values values;
    static Values make(Extent const& e) { if constexpr(D == 1) return Values(extents[e.n1]); else return Values(extents[e.r][e.c]); }
    static Mask<D> make_mask(Extent const& e) { if constexpr(D == 1) return Mask<D>(extents[e.n1]); else return Mask<D>(extents[e.r][e.c]); }
    explicit FieldBase(Extent const& e) : values(make(e)) {}
    size_t n() const { return values.num_elements(); }
    T value(size_t i) const { return values.data()[i]; }
    void set(size_t i, T v) { values.data()[i] = v; }
};
template<class T> struct FieldBase<T, 0> {
    using Values = T;
    T values{};
    explicit FieldBase(Extent const&) {}
    size_t n() const { return 1; }
    T value(size_t) const { return values; }
    void set(size_t, T v) { values = v; }
};
template<class T, size_t D> struct Field<T, D, ByMask> : FieldBase<T, D> {
    using Marks = Mask<D>; using Detect = DetectM<D>; using Mark = MarkM<D>;
    Marks marks;
    explicit Field(Extent const& e) : FieldBase<T, D>(e), marks(FieldBase<T, D>::make_mask(e)) {}
    bool marked(size_t i) const { return marks.data()[i]; }
    void mark(size_t i, bool b) { marks.data()[i] = b; }
    Detect detect() const { return Detect(marks, true); }
    Mark marker() { return Mark(marks, true); }
};
template<class T> struct Field<T, 0, ByMask> : FieldBase<T, 0> {
    using Marks = bool; using Detect = Detect0; using Mark = Mark0;
    bool marks = false;
    explicit Field(Extent const& e) : FieldBase<T, 0>(e) {}
    bool marked(size_t) const { return marks; }
    void mark(size_t, bool b) { marks = b; }
    Detect detect() const { return Detect(marks, true); }
    Mark marker() { return Mark(marks, true); }
};
template<class T, size_t D> struct Field<T, D, ByValue> : FieldBase<T, D> {
    using Marks = typename FieldBase<T, D>::Values; using Detect = fa::DetectNoDataByValue<Marks>; using Mark = fa::MarkNoDataByValue<Marks>;
    static constexpr T nd = T(99);
    explicit Field(Extent const& e) : FieldBase<T, D>(e) {}
    bool marked(size_t i) const { return this->value(i) == nd; }
    void mark(size_t i, bool b) { if(b) this->set(i, nd); }
    Detect detect() const { return Detect(this->values, nd); }
    Mark marker() { return Mark(this->values, nd); }
};
// contents of a field before a call
template<class T> struct Snap { std::vector<T> v; std::vector<char> m; };
template<class T, size_t D, class S> Snap<T> snap(Field<T, D, S> const& f)
{
    Snap<T> s;
    for(size_t i = 0; i < f.n(); ++i) { s.v.push_back(f.value(i)); s.m.push_back(f.marked(i)); }
    return s;
}
template<class T> bool same_snap(Snap<T> const& a, Snap<T> const& b)
{
    if(a.m != b.m || a.v.size() != b.v.size()) return false;
    for(size_t i = 0; i < a.v.size(); ++i) if(!same(a.v[i], b.v[i])) return false;
    return true;
}
// policy of one input
template<class P, class F> P input(F const& f) { if constexpr(std::is_same<P, SkipNoData>::value) { (void)f; return SkipNoData(); } else return f.detect(); }
} // namespace vh

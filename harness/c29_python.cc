// C29: rasters in Python. The package is loaded into an interpreter of our own
// and driven by random calls, judged per cell.
#include <boost/python.hpp>
#include "io.h"
#include <cassert>
#include <cmath>
#include <iostream>
#include <variant>
#include <gdal_priv.h>
#include "fern/core/type_traits.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/policy/execution_policy.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/space/focal/slope.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/python/feature/masked_raster.h"
using namespace vh;
namespace bp = boost::python;
namespace fa = fern::algorithm;
namespace fp = fern::python;
using S = std::string;
using i128 = __int128;

#define MODULE(name) extern "C" PyObject* PyInit_##name();
MODULE(_fern_feature) MODULE(_fern_io) MODULE(_fern_algorithm) MODULE(_fern_algorithm_core)
MODULE(_fern_algorithm_algebra_elementary) MODULE(_fern_algorithm_space_focal)

static bp::object ns;   // names of the interpreter
static bp::object run(S const& code) { return bp::exec(code.c_str(), ns, ns); }
static bp::object get(S const& what) { return bp::eval(what.c_str(), ns, ns); }
static S trouble() {   // the exception that is set
    PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
    bp::handle<> h(bp::allow_null(t)), hv(bp::allow_null(v)), hb(bp::allow_null(b));
    S s = t ? bp::extract<S>(bp::str(bp::object(h).attr("__name__")))() : "?";
    if (v) s += ": " + S(bp::extract<S>(bp::str(bp::object(hv)))());
    return s;
}
template<class F> bool fails(F f) { try { f(); return false; } catch (bp::error_already_set const&) { trouble(); return true; } }

// ------------------------------------------------------------------- model
template<class T> constexpr T missing() { return std::is_floating_point<T>::value ? std::numeric_limits<T>::min() : std::is_unsigned<T>::value ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); }
template<class T> bool is_missing(T v) { return v == missing<T>(); }
template<class T> struct Ras {
    using type = T; size_t rows = 1, cols = 1; double x = 0, y = 0, w = 1, h = 1; std::vector<T> v; bp::object o;
    std::vector<bool> open;   // cells that can have any value, if not empty
    S show() const { S s = tn<T>() + "[" + std::to_string(rows) + "x" + std::to_string(cols) + "]"; if (v.size() < 13) for (auto& e : v) s += " " + (is_missing(e) ? S("-") : str(e)); return s; }
};
using AnyRas = std::variant<Ras<uint8_t>, Ras<uint32_t>, Ras<int32_t>, Ras<uint64_t>, Ras<int64_t>, Ras<float>, Ras<double>>;
template<class T> S word() { S s = std::is_floating_point<T>::value ? "float" : std::is_unsigned<T>::value ? "uint" : "int"; return s + std::to_string(sizeof(T) * 8); }
template<class T> T some(Rng& r) {
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point<T>::value) {
        switch (r.below(12)) {
        case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::max(); case 3: return T(0); case 4: return T(-0.0);
        case 5: return std::sqrt(L::max()) * T(0.5 + r.unit()); case 6: return T(r.range(-5, 5)); case 7: return T(int64_t(r.next()));
        default: return T((r.unit() - 0.5) * 200);
        }
    }
    else {
        switch (r.below(10)) {
        case 0: return L::max(); case 1: return L::min(); case 2: return T(L::max() - T(r.below(4))); case 3: return T(L::min() + T(r.below(4)));
        case 4: return T(r.next()); case 5: return T(std::sqrt(double(L::max()))) + T(r.below(3)); case 6: return T(0);
        default: return T(r.range(std::is_signed<T>::value ? -20 : 0, 20));
        }
    }
}
struct Shape { size_t rows, cols; double x, y, w, h; };
static Shape shape(Rng& r) {
    Shape s; bool big = r.chance(8);
    s.rows = 1 + r.below(big ? 70 : 7); s.cols = 1 + r.below(big ? 60 : 7);
    s.x = r.chance(20) ? 0 : (r.unit() - 0.5) * 1e5; s.y = r.chance(20) ? 0 : (r.unit() - 0.5) * 1e5; s.w = 0.5 + double(r.below(60)); s.h = r.chance(30) ? s.w : 0.25 + double(r.below(60));
    return s;
}
template<class T> bp::object to_py(T v) { if constexpr (std::is_floating_point<T>::value) return bp::object(bp::handle<>(PyFloat_FromDouble(double(v)))); else if constexpr (std::is_unsigned<T>::value) return bp::object(bp::handle<>(PyLong_FromUnsignedLongLong(v))); else return bp::object(bp::handle<>(PyLong_FromLongLong(v))); }
// A raster made in Python. Masked cells get any value.
template<class T, class F> Ras<T> raster(Rng& r, Shape const& s, F cell) {
    Ras<T> k; k.rows = s.rows; k.cols = s.cols; k.x = s.x; k.y = s.y; k.w = s.w; k.h = s.h;
    bp::list values, mask; unsigned const density = r.chance(25) ? 0 : unsigned(r.below(60));
    for (size_t i = 0; i < k.rows; ++i) {
        bp::list vs, ms;
        for (size_t j = 0; j < k.cols; ++j) {
            T v = cell(r); bool m = r.chance(density);
            if (!m && is_missing(v)) m = true;   // such values are missing anyway
            if (r.chance(10) && m) vs.append(bp::object()); else vs.append(to_py(v));
            ms.append(m ? r.chance(30) ? get("1") : get("True") : get("False"));
            k.v.push_back(m ? missing<T>() : v);
        }
        values.append(vs); mask.append(ms);
    }
    ns["v"] = values; ns["m"] = mask;
    ns["o"] = bp::make_tuple(k.x, k.y); ns["c"] = bp::make_tuple(k.w, k.h);
    k.o = get(r.chance(50) ? "fern.MaskedRaster(values=v, mask=m, origin=o, cell_sizes=c, value_type=fern." + word<T>() + ")" : "fern.MaskedRaster(v, m, o, c, fern.ValueType." + word<T>() + ")");
    return k;
}
template<class T> Ras<T> raster(Rng& r, Shape const& s) { return raster<T>(r, s, [](Rng& q) { return some<T>(q); }); }
static AnyRas any(Rng& r, Shape const& s) {
    switch (r.below(7)) { case 0: return raster<uint8_t>(r, s); case 1: return raster<uint32_t>(r, s); case 2: return raster<int32_t>(r, s); case 3: return raster<uint64_t>(r, s); case 4: return raster<int64_t>(r, s); case 5: return raster<float>(r, s); default: return raster<double>(r, s); }
}
// What is wrong with a raster, if anything.
template<class T> S differs(bp::object const& o, Ras<T> const& k, bool numpy) {
    bp::extract<fp::MaskedRaster const&> e(o);
    if (!e.check()) return "not a raster";
    fp::MaskedRaster const& p = e();
    if (p.value_type() != fern::TypeTraits<T>::value_type) return "value type " + std::to_string(int(p.value_type())) + " instead of " + word<T>();
    if (bp::extract<fern::ValueType>(o.attr("value_type"))() != fern::TypeTraits<T>::value_type) return "value type in Python";
    auto pair = [&](char const* n, double a, double b) { bp::tuple t = bp::extract<bp::tuple>(o.attr(n)); return bp::len(t) == 2 && bp::extract<double>(t[0])() == a && bp::extract<double>(t[1])() == b; };
    if (!pair("sizes", double(k.rows), double(k.cols))) return "sizes";
    if (!pair("origin", k.x, k.y)) return "origin";
    if (!pair("cell_sizes", k.w, k.h)) return "cell sizes";
    auto const& d = p.raster<T>();
    if (std::get<0>(d.sizes()) != k.rows || std::get<1>(d.sizes()) != k.cols || d.size() != k.v.size()) return "sizes of the data";
    if (std::get<0>(d.origin()) != k.x || std::get<1>(d.origin()) != k.y || std::get<0>(d.cell_sizes()) != k.w || std::get<1>(d.cell_sizes()) != k.h) return "georeference of the data";
    for (size_t i = 0; i < k.v.size(); ++i) if (!same(d.data()[i], k.v[i]) && (k.open.empty() || !k.open[i])) return "cell " + std::to_string(i) + " is " + str(d.data()[i]) + " instead of " + str(k.v[i]);
    mon().count("cells compared", k.v.size());
    if (numpy) {
        bp::object a = ns["fern"].attr("raster_as_numpy_array")(o);
        if (S(bp::extract<S>(bp::str(a.attr("dtype")))()) != word<T>()) return "dtype " + S(bp::extract<S>(bp::str(a.attr("dtype")))());
        if (bp::len(a.attr("shape")) != 2 || bp::extract<size_t>(a.attr("shape")[0])() != k.rows || bp::extract<size_t>(a.attr("shape")[1])() != k.cols) return "shape of the array";
        bp::list rows = bp::extract<bp::list>(a.attr("tolist")());
        for (size_t i = 0; i < k.rows; ++i) for (size_t j = 0; j < k.cols; ++j) if (!same(T(bp::extract<T>(rows[i][j])()), d.data()[i * k.cols + j])) return "element " + std::to_string(i) + "," + std::to_string(j) + " of the array";
        std::vector<T> const kept(d.data(), d.data() + d.size());
        a.attr("fill")(7);   // the array is a copy
        for (size_t i = 0; i < k.v.size(); ++i) if (!same(d.data()[i], kept[i])) return "array shares its cells with the raster";
        mon().count("arrays compared");
    }
    return "";
}
template<class T> S differs(Rng& r, Ras<T> const& k) { return differs(k.o, k, r.chance(10)); }

// -------------------------------------------------------------- references
enum Op { ADD, MULTIPLY, LESS, GREATER };
static char const* const opname[] = {"add", "multiply", "less", "greater"};
static char const* const opsign[] = {"+", "*", "<", ">"};
template<class R, class A, class B> bool exact(Op op, A a, B b, R& r) {
    if constexpr (std::is_floating_point<R>::value) { r = op == ADD ? R(R(a) + R(b)) : R(R(a) * R(b)); return std::isfinite(r); }
    else {
        i128 x = a, y = b, v, lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
        if (op == MULTIPLY && x > 0 && y > hi / x) return false;
        v = op == ADD ? x + y : x * y;
        if (v < lo || v > hi) return false;
        r = R(v); return true;
    }
}
// Whether a comparison can be made in the common type of its operands.
template<class A, class B> bool convert(A a, B b) { using C = std::common_type_t<A, B>; return (long double)C(a) == (long double)a && (long double)C(b) == (long double)b; }
template<class A, class B> int order(A a, B b) { long double x = a, y = b; return x < y ? -1 : x > y ? 1 : 0; }
template<class A, class B> using Sum = fa::add::result_value_type<A, B>;
template<class A, class B> using Product = fa::multiply::result_value_type<A, B>;
template<class R, class T> T fit(T v) { if constexpr (std::is_integral<T>::value && std::is_integral<R>::value) if (i128(v) > i128(std::numeric_limits<R>::max())) return T(v >> 1); return v; }

static S policy(Rng& r) {
    static unsigned uses = 0;
    if (uses++ % 8 == 0) run(r.chance(50) ? "fa.set_execution_policy(fa.SequentialExecutionPolicy())" : "fa.set_execution_policy(fa.ParallelExecutionPolicy())");
    return "";
}
// Call by function or by operator.
static bp::object call(Rng& r, Op op, bp::object a, bp::object b) {
    ns["a"] = a; ns["b"] = b;
    return get(r.chance(50) ? S("fa.") + opname[op] + "(a, b)" : S("a ") + opsign[op] + " b");
}
template<class R, class A, class B> Ras<R> expect(Op op, Ras<A> const& g, std::vector<A> const& a, std::vector<B> const& b, bool na, bool nb) {
    Ras<R> k; k.rows = g.rows; k.cols = g.cols; k.x = g.x; k.y = g.y; k.w = g.w; k.h = g.h;
    for (size_t i = 0; i < g.v.size(); ++i) {
        A x = na ? a[0] : a[i]; B y = nb ? b[0] : b[i]; R v{};
        if ((!na && is_missing(x)) || (!nb && is_missing(y))) { k.v.push_back(missing<R>()); mon().count("missing operands"); continue; }
        if constexpr (std::is_same<R, uint8_t>::value) if (op >= LESS) { k.open.resize(g.v.size()); k.open[i] = !convert(x, y); k.v.push_back(op == LESS ? order(x, y) < 0 : order(x, y) > 0); continue; }
        if (!exact<R>(op, x, y, v)) { k.v.push_back(missing<R>()); mon().count("results out of range"); }
        else { k.v.push_back(v); mon().count("results in range"); }
    }
    return k;
}
template<class A, class B> void two(Rng& r, Op op, Shape const& s) {
    using R1 = Sum<A, B>; using R2 = Product<A, B>;
    auto a = op == ADD ? raster<A>(r, s, [](Rng& q) { return fit<R1>(some<A>(q)); }) : op == MULTIPLY ? raster<A>(r, s, [](Rng& q) { return fit<R2>(some<A>(q)); }) : raster<A>(r, s);
    auto b = op == ADD ? raster<B>(r, s, [](Rng& q) { return fit<R1>(some<B>(q)); }) : op == MULTIPLY ? raster<B>(r, s, [](Rng& q) { return fit<R2>(some<B>(q)); }) : raster<B>(r, s);
    S const log = S(opname[op]) + " " + a.show() + " and " + b.show(); mon().at(log);
    bp::object o = call(r, op, a.o, b.o);
    S d = op == ADD ? differs(o, expect<R1>(op, a, a.v, b.v, false, false), r.chance(10)) : op == MULTIPLY ? differs(o, expect<R2>(op, a, a.v, b.v, false, false), r.chance(10)) : differs(o, expect<uint8_t>(op, a, a.v, b.v, false, false), r.chance(10));
    if (!d.empty()) mon().violation(S(opname[op]) + ":" + tn<A>() + "," + tn<B>(), d);
    d = differs(r, a); if (d.empty()) d = differs(r, b);
    if (!d.empty()) mon().violation(S(opname[op]) + ":arguments", d);
    mon().seen(log); mon().count(S("calls of ") + opname[op]);
}
template<class F> void pick(Rng& r, F f) { switch (r.below(7)) { case 0: f(uint8_t()); break; case 1: f(uint32_t()); break; case 2: f(int32_t()); break; case 3: f(uint64_t()); break; case 4: f(int64_t()); break; case 5: f(float()); break; default: f(double()); } }

// A number that a raster's value type can represent, and Python's form of it.
template<class T> T number(Rng& r, bool whole) {
    if constexpr (std::is_floating_point<T>::value) {
        if (whole) return T(r.range(-1000000, 1000000));
        T v = some<T>(r); return std::isfinite(v) ? v : T(2.5);
    }
    else {
        T v = some<T>(r);
        if (whole && i128(v) > i128(std::numeric_limits<int64_t>::max())) v = T(v >> 2);
        if (!whole && std::abs((long double)v) > 9e15L) v = T(v / 4096);   // doubles hold these
        return v;
    }
}
static void with_number(Rng& r, Op op, Shape const& s) {
    pick(r, [&](auto tag) {
        using T = decltype(tag); bool whole = r.chance(50), first = r.chance(50);
        auto k = raster<T>(r, s);
        S log; bp::object o; S d; bool const numpy = r.chance(10);
        if (op == ADD || op == MULTIPLY) {
            std::vector<T> n{number<T>(r, whole)};
            bp::object py = whole ? bp::object(bp::handle<>(PyLong_FromLongLong((long long)n[0]))) : bp::object(bp::handle<>(PyFloat_FromDouble(double(n[0]))));
            log = S(opname[op]) + " " + k.show() + (first ? " after " : " and ") + (whole ? "int " : "float ") + str(n[0]); mon().at(log);
            o = first ? call(r, op, py, k.o) : call(r, op, k.o, py);
            d = differs(o, first ? expect<T>(op, k, n, k.v, true, false) : expect<T>(op, k, k.v, n, false, true), numpy);
        }
        else if (whole) {
            std::vector<int64_t> n{r.chance(40) && !is_missing(k.v[0]) && std::abs((long double)k.v[0]) < 9e18L ? int64_t(k.v[0]) : some<int64_t>(r)};
            log = S(opname[op]) + " " + k.show() + (first ? " after int " : " and int ") + str(n[0]); mon().at(log);
            o = first ? call(r, op, to_py(n[0]), k.o) : call(r, op, k.o, to_py(n[0]));
            Ras<int64_t> g; g.rows = k.rows; g.cols = k.cols; g.x = k.x; g.y = k.y; g.w = k.w; g.h = k.h; g.v.resize(k.v.size());
            d = differs(o, first ? expect<uint8_t>(op, g, n, k.v, true, false) : expect<uint8_t>(op, k, k.v, n, false, true), numpy);
        }
        else {
            std::vector<double> n{r.chance(40) && !is_missing(k.v[0]) ? double(k.v[0]) : some<double>(r)};
            log = S(opname[op]) + " " + k.show() + (first ? " after float " : " and float ") + str(n[0]); mon().at(log);
            o = first ? call(r, op, to_py(n[0]), k.o) : call(r, op, k.o, to_py(n[0]));
            Ras<double> g; g.rows = k.rows; g.cols = k.cols; g.x = k.x; g.y = k.y; g.w = k.w; g.h = k.h; g.v.resize(k.v.size());
            d = differs(o, first ? expect<uint8_t>(op, g, n, k.v, true, false) : expect<uint8_t>(op, k, k.v, n, false, true), numpy);
        }
        if (!d.empty()) mon().violation(S(opname[op]) + ":number:" + tn<T>() + (first ? ":first" : ":second") + (whole ? ":int" : ":float"), d);
        d = differs(r, k); if (!d.empty()) mon().violation(S(opname[op]) + ":arguments", d);
        mon().seen(log); mon().count(S("calls of ") + opname[op]);
    });
}
// Changes a raster itself: everybody who has it sees the change.
static void in_place(Rng& r, Op op, Shape const& s) {
    pick(r, [&](auto tag) {
        using T = decltype(tag);
        auto a = raster<T>(r, s), b = raster<T>(r, s);
        S const how = r.chance(50) ? S("a = fa.i") + opname[op] + "(a, b)" : S("a ") + opsign[op] + "= b";
        bool const keep = r.chance(60), self = r.chance(10);
        S const log = how + " of " + a.show() + " and " + b.show(); mon().at(log);
        auto want = expect<T>(op, a, a.v, self ? a.v : b.v, false, false);
        ns["a"] = a.o; ns["b"] = self ? a.o : b.o; ns["other"] = keep ? a.o : bp::object();
        a.o = bp::object(); bp::object mine = b.o;
        run(how); run("import gc; gc.collect()");
        if (self) ns["b"] = bp::object();
        S d = differs(get("a"), want, r.chance(20));
        if (d.empty() && keep) { d = differs(get("other"), want, false); if (!d.empty()) d = "the raster itself: " + d; }
        if (d.empty() && keep) { run("a = None"); d = differs(get("other"), want, false); }
        if (d.empty()) d = differs(mine, b, false);
        if (!d.empty()) mon().violation(S("in-place:") + opname[op], d);
        run("a = b = other = None");
        mon().seen(log); mon().count(S("in place ") + opname[op]);
    });
}
static void condition(Rng& r, Shape const& s) {
    pick(r, [&](auto c_tag) { pick(r, [&](auto tag) {
        using C = decltype(c_tag); using T = decltype(tag);
        auto c = raster<C>(r, s, [](Rng& q) { return q.chance(50) ? C(0) : some<C>(q); });
        auto t = raster<T>(r, s), f = raster<T>(r, s);
        unsigned const form = unsigned(r.below(3)); bool const whole = r.chance(50); T const n = number<T>(r, whole);
        bp::object py = whole ? bp::object(bp::handle<>(PyLong_FromLongLong((long long)n))) : bp::object(bp::handle<>(PyFloat_FromDouble(double(n))));
        S const log = "if " + c.show() + (form == 1 ? " number " + str(n) : " " + t.show()) + (form == 2 ? " number " + str(n) : " " + f.show()); mon().at(log);
        ns["a"] = c.o; ns["b"] = form == 1 ? py : t.o; ns["c"] = form == 2 ? py : f.o;
        bp::object o = get("fa.if_(a, b, c)");
        Ras<T> k = c.rows ? t : t; k.v.clear();
        for (size_t i = 0; i < c.v.size(); ++i) k.v.push_back(is_missing(c.v[i]) ? missing<T>() : c.v[i] != C(0) ? (form == 1 ? n : t.v[i]) : form == 2 ? n : f.v[i]);
        S d = differs(o, k, r.chance(10));
        if (!d.empty()) mon().violation("if:" + tn<C>() + "," + tn<T>() + ":" + std::to_string(form), d);
        d = differs(r, c); if (d.empty()) d = differs(r, t); if (d.empty()) d = differs(r, f);
        if (!d.empty()) mon().violation("if:arguments", d);
        mon().seen(log); mon().count("calls of if_");
    }); });
}
template<class T> void slopes(Rng& r, Shape s) {
    if (s.rows < 2) s.rows = 2; if (s.cols < 2) s.cols = 2;
    auto k = raster<T>(r, s, [](Rng& q) { return T((q.unit() - 0.3) * 500); });
    S const log = "slope " + k.show() + " cells " + str(k.w) + "x" + str(k.h); mon().at(log);
    ns["a"] = k.o; bp::object o = get("fa.slope(a)");
    typename fern::MaskedRaster<T, 2>::Transformation g{{k.x, k.w, k.y, k.h}};
    fern::MaskedRaster<T, 2> in(fern::extents[long(k.rows)][long(k.cols)], g), out(fern::extents[long(k.rows)][long(k.cols)], g);
    for (size_t i = 0; i < k.v.size(); ++i) { in.data()[i] = k.v[i]; in.mask().data()[i] = is_missing(k.v[i]); }
    fa::SequentialExecutionPolicy seq;
    fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>> input{{in.mask(), true}};
    fa::MarkNoDataByValue<fern::Mask<2>> output(out.mask(), true);
    fa::space::slope<fa::slope::OutOfRangePolicy>(input, output, seq, in, out);
    Ras<T> want = k; for (size_t i = 0; i < k.v.size(); ++i) want.v[i] = out.mask().data()[i] ? missing<T>() : out.data()[i];
    S d = differs(o, want, r.chance(10)); if (!d.empty()) mon().violation("slope:" + tn<T>(), d);
    d = differs(r, k); if (!d.empty()) mon().violation("slope:arguments", d);
    mon().seen(log); mon().count("calls of slope");
}
// Only floating point rasters have a slope.
static void made(Rng& r, Shape const& s) {
    pick(r, [&](auto tag) {
        using T = decltype(tag);
        ns["o"] = bp::make_tuple(s.x, s.y); ns["c"] = bp::make_tuple(s.w, s.h); ns["s"] = bp::make_tuple(s.rows, s.cols);
        S const log = "zeros " + word<T>() + " " + std::to_string(s.rows) + "x" + std::to_string(s.cols); mon().at(log);
        Ras<T> k; k.rows = s.rows; k.cols = s.cols; k.x = s.x; k.y = s.y; k.w = s.w; k.h = s.h; k.v.assign(s.rows * s.cols, T(0));
        k.o = get("fern.MaskedRaster(sizes=s, origin=o, cell_sizes=c, value_type=fern." + word<T>() + ")");
        S d = differs(k.o, k, true); if (!d.empty()) mon().violation("zeros:" + tn<T>(), d);
        auto q = raster<T>(r, s); d = differs(q.o, q, true); if (!d.empty()) mon().violation("made:" + tn<T>(), d);
        mon().seen(log + q.show()); mon().count("rasters made");
        if constexpr (std::is_integral<T>::value) {   // what does not fit is refused
            ns["v"] = get(sizeof(T) == 8 ? "[[2**70]]" : "[[" + std::to_string(i128(std::numeric_limits<T>::max()) + 1 > 0 ? (long long)(i128(std::numeric_limits<T>::max()) + 1) : 0) + "]]");
            if (!fails([&] { get("fern.MaskedRaster(v, [[False]], (0.0, 0.0), (1.0, 1.0), fern." + word<T>() + ")"); })) mon().violation("refused:" + tn<T>(), "a value that does not fit");
            if (!fails([&] { get("fern.MaskedRaster([['x']], [[False]], (0.0, 0.0), (1.0, 1.0), fern." + word<T>() + ")"); })) mon().violation("refused:" + tn<T>(), "a word");
            mon().count("failures provoked", 2);
        }
    });
}

// ------------------------------------------------------------ input, output
template<class T> GDALDataType gdt() { return std::is_same<T, uint8_t>::value ? GDT_Byte : std::is_same<T, uint16_t>::value ? GDT_UInt16 : std::is_same<T, int16_t>::value ? GDT_Int16 : std::is_same<T, uint32_t>::value ? GDT_UInt32 : std::is_same<T, int32_t>::value ? GDT_Int32 : std::is_same<T, float>::value ? GDT_Float32 : GDT_Float64; }
template<class T> void written(Rng& r, Shape const& s, S const& dir, size_t id) {
    Shape q = s; if (r.chance(70)) q.h = -q.h;
    auto k = raster<T>(r, q);
    S const f = dir + "/w" + std::to_string(id) + ".tif", log = "write " + k.show() + " cells " + str(k.w) + "x" + str(k.h); mon().at(log);
    if (r.chance(20)) spit(f, "something else");
    ns["a"] = k.o; ns["f"] = f;
    run(r.chance(50) ? "fern.write_raster(a, f, 'GTiff')" : "fern.write_raster(raster=a, name=f, format='GTiff')");
    {
        auto* d = static_cast<GDALDataset*>(GDALOpen(f.c_str(), GA_ReadOnly));
        if (!d) { mon().violation("write:open", "GDAL cannot open what was written"); return; }
        double g[6]; d->GetGeoTransform(g); auto* b = d->GetRasterBand(1); int has = 0; double nd = b->GetNoDataValue(&has);
        std::vector<T> v(k.v.size());
        S e;
        if (d->GetRasterCount() != 1 || d->GetRasterXSize() != int(k.cols) || d->GetRasterYSize() != int(k.rows)) e = "extents";
        else if (b->GetRasterDataType() != gdt<T>()) e = "data type";
        else if (!(g[0] == k.x && g[1] == k.w && g[2] == 0 && g[3] == k.y && g[4] == 0 && g[5] == k.h) && !(k.x == 0 && k.y == 0 && k.w == 1 && std::abs(k.h) == 1)) e = "georeference";
        else if (!has || !nd == double(missing<T>())) e = "no-data value";
        else if (b->RasterIO(GF_Read, 0, 0, int(k.cols), int(k.rows), v.data(), int(k.cols), int(k.rows), gdt<T>(), 0, 0) != CE_None) e = "cannot be read";
        else for (size_t i = 0; i < v.size(); ++i) if (!same(v[i], k.v[i])) { e = "cell " + std::to_string(i) + " is " + str(v[i]) + " instead of " + str(k.v[i]); break; }
        GDALClose(d);
        if (!e.empty()) mon().violation("write:" + tn<T>(), e);
    }
    bp::object o = get(r.chance(50) ? "fern.read_raster(f)" : "fern.read_raster(name=f)");
    S d = differs(o, k, r.chance(20)); if (!d.empty() && !(k.x == 0 && k.y == 0)) mon().violation("read-back:" + tn<T>(), d);
    mon().seen(log); mon().count("rasters written");
    std::filesystem::remove(f);
}
template<class T> void files(Rng& r, Shape const& s, S const& dir, size_t id) {
    // A file of somebody else: with any no-data value, or without.
    S const f = dir + "/r" + std::to_string(id) + ".tif"; unsigned const kind = r.chance(50) ? 2 : 0; T const nd = T(r.range(0, 100));
    std::vector<T> v; Ras<T> k; k.rows = s.rows; k.cols = s.cols; k.x = s.x; k.y = s.y; k.w = s.w; k.h = -s.h;
    for (size_t i = 0; i < s.rows * s.cols; ++i) {
        T x = r.chance(10) ? nd : T(r.range(0, 100));
        v.push_back(x);
        bool gone = kind == 0 ? x == nd : false;
        k.v.push_back(gone ? missing<T>() : x);
    }
    S const log = "read " + k.show() + (kind == 0 ? " no-data " + str(nd) : ""); mon().at(log);
    {
        auto* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), int(s.cols), int(s.rows), 1, gdt<T>(), nullptr);
        double g[6] = {k.x, k.w, 0, k.y, 0, k.h}; d->SetGeoTransform(g);
        auto* b = d->GetRasterBand(1); bool ok = true;
        if (kind == 0) b->SetNoDataValue(double(nd));
        ok = b->RasterIO(GF_Write, 0, 0, int(s.cols), int(s.rows), v.data(), int(s.cols), int(s.rows), gdt<T>(), 0, 0) == CE_None;
        GDALClose(d);
        if (!ok) { mon().violation("harness", "cannot write " + f); return; }
    }
    size_t const before = open_files();
    ns["f"] = f; bp::object o = get("fern.read_raster(f)");
    S d = differs(o, k, false);
    if (!d.empty()) mon().violation("read:" + tn<T>(), d);
    if (open_files() != before) mon().violation("read:open-files", "a file is left open");
    mon().seen(log); mon().count("rasters read");
    std::filesystem::remove(f);
}
static void hostile(Rng& r, S const& dir, size_t id) {
    S const f = dir + "/h" + std::to_string(id) + ".tif"; ns["f"] = f; S log;
    size_t const before = open_files();
    auto refuse = [&](S const& what, S const& code) { log = what; mon().at(what); if (!fails([&] { run(code); })) mon().violation("silent", what + ": no error"); mon().count("failures provoked"); };
    ns["a"] = get("fern.MaskedRaster((2, 2), (0.0, 0.0), (1.0, 1.0), fern.int32)");
    switch (r.below(12)) {
    case 0: refuse("read a file that does not exist", "fern.read_raster(f)"); break;
    case 1: spit(f, "no raster"); refuse("read a file that is not a raster", "fern.read_raster(f)"); break;
    case 2: ns["f"] = dir + "/nowhere/x.tif"; refuse("write into a directory that does not exist", "fern.write_raster(a, f, 'GTiff')"); break;
    case 3: refuse("write in a format that does not exist", "fern.write_raster(a, f, 'NoSuchFormat')"); break;
    case 4: refuse("write in a format that cannot be created", "fern.write_raster(a, f, 'PNG')"); break;
    case 5: {
        S const t[] = {"int64", "uint64"}; ns["a"] = get("fern.MaskedRaster((2, 2), (0.0, 0.0), (1.0, 1.0), fern." + t[r.below(2)] + ")");
        refuse("write a value type GDAL does not have", "fern.write_raster(a, f, 'GTiff')"); break;
    }
    case 6: refuse("a row that is too short", "fern.MaskedRaster([[1, 2, 3], [4, 5]], [[False] * 3] * 2, (0.0, 0.0), (1.0, 1.0), fern.int32)"); break;
    case 7: refuse("a mask that is too short", "fern.MaskedRaster([[1, 2, 3], [4, 5, 6]], [[False] * 3], (0.0, 0.0), (1.0, 1.0), fern.int32)"); break;
    case 8: refuse("no rows", "fern.MaskedRaster([], [], (0.0, 0.0), (1.0, 1.0), fern.int32)"); break;
    case 9: { S const w[] = {"fa.add(a, 'x')", "a * 'x'", "fa.less(None, a)", "fa.add(3, 4)", "fa.if_(a, 1, 2)", "a += 5", "fa.iadd(a, 5)", "fa.slope(5)", "fa.slope(None)", "a + None", "None * a", "a > None", "fa.if_(None, a, a)", "fa.if_(a, a, None)", "fa.iadd(a, None)", "fa.imultiply(None, a)", "fern.write_raster(None, f, 'GTiff')"}; refuse("arguments of other types", w[r.below(sizeof w / sizeof *w)]); break; }
    case 10: refuse("policies of other types", r.chance(50) ? "fa.set_execution_policy(5)" : "fa.set_execution_policy(a)"); break;
    default: {
        auto* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), 2, 2, 1, r.chance(50) ? GDT_CFloat32 : GDT_CInt16, nullptr); GDALClose(d);
        refuse("read a raster of complex numbers", "fern.read_raster(f)");
    }
    }
    if (open_files() != before) mon().violation("open-files", log + ": a file is left open");
    mon().seen(log + std::to_string(id));
    std::error_code c; std::filesystem::remove(f, c);
}

static void interpreter(S const& dir) {
    PyImport_AppendInittab("_fern_feature", PyInit__fern_feature); PyImport_AppendInittab("_fern_io", PyInit__fern_io);
    PyImport_AppendInittab("_fern_algorithm", PyInit__fern_algorithm); PyImport_AppendInittab("_fern_algorithm_core", PyInit__fern_algorithm_core);
    PyImport_AppendInittab("_fern_algorithm_algebra_elementary", PyInit__fern_algorithm_algebra_elementary);
    PyImport_AppendInittab("_fern_algorithm_space_focal", PyInit__fern_algorithm_space_focal);
    Py_InitializeEx(0);
    // The package, as it is installed.
    std::filesystem::path const from(std::string(getenv("VERIF_REPO")) + "/source/fern/python");
    for (auto& e : std::filesystem::recursive_directory_iterator(from)) if (e.path().filename() == "__init__.py.in" && e.path().string().find("/test/") == S::npos) {
        auto to = std::filesystem::path(dir) / "package" / "fern" / std::filesystem::relative(e.path(), from).parent_path();
        std::filesystem::create_directories(to); std::filesystem::copy_file(e.path(), to / "__init__.py");
    }
    ns = bp::import("__main__").attr("__dict__");
    ns["where"] = dir + "/package";
    run("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, where)\n"
        "import _fern_feature, _fern_algorithm\n"
        "sys.modules['fern.feature._fern_feature'] = _fern_feature\n"
        "sys.modules['fern.algorithm._fern_algorithm'] = _fern_algorithm\n"
        "import fern, fern.algorithm as fa\n");
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    S const dir = scratch.dir.string();
    try {
        interpreter(dir);
        if (mon().want("two")) { Rng r = mon().rng("two"); for (size_t i = 0, n = mon().n(400, 20000); i < n; ++i) { policy(r); Shape s = shape(r); Op op = Op(r.below(4)); pick(r, [&](auto a) { pick(r, [&](auto b) { two<decltype(a), decltype(b)>(r, op, s); }); }); } }
        if (mon().want("number")) { Rng r = mon().rng("number"); for (size_t i = 0, n = mon().n(300, 15000); i < n; ++i) { policy(r); with_number(r, Op(r.below(4)), shape(r)); } }
        if (mon().want("in-place")) { Rng r = mon().rng("in-place"); for (size_t i = 0, n = mon().n(60, 3000); i < n; ++i) { policy(r); in_place(r, Op(r.below(2)), shape(r)); } }
        if (mon().want("if")) { Rng r = mon().rng("if"); for (size_t i = 0, n = mon().n(250, 12000); i < n; ++i) { policy(r); condition(r, shape(r)); } }
        if (mon().want("slope")) { Rng r = mon().rng("slope"); for (size_t i = 0, n = mon().n(60, 3000); i < n; ++i) { policy(r); if (r.chance(50)) slopes<float>(r, shape(r)); else slopes<double>(r, shape(r)); } }
        if (mon().want("made")) { Rng r = mon().rng("made"); for (size_t i = 0, n = mon().n(60, 3000); i < n; ++i) made(r, shape(r)); }
        if (mon().want("files")) { Rng r = mon().rng("files"); for (size_t i = 0, n = mon().n(80, 3000); i < n; ++i) {
            Shape s = shape(r);
            switch (r.below(5)) { case 0: written<uint8_t>(r, s, dir, i); break; case 1: written<uint32_t>(r, s, dir, i); break; case 2: written<int32_t>(r, s, dir, i); break; case 3: written<float>(r, s, dir, i); break; default: written<double>(r, s, dir, i); }
            switch (r.below(7)) { case 0: files<uint8_t>(r, s, dir, i); break; case 1: files<uint32_t>(r, s, dir, i); break; case 2: files<int32_t>(r, s, dir, i); break; case 3: files<float>(r, s, dir, i); break; case 4: files<uint16_t>(r, s, dir, i); break; case 5: files<int16_t>(r, s, dir, i); break; default: files<double>(r, s, dir, i); }
        } }
        if (mon().want("hostile")) { Rng r = mon().rng("hostile"); for (size_t i = 0, n = mon().n(60, 500); i < n; ++i) hostile(r, dir, i); }
    }
    catch (bp::error_already_set const&) { mon().violation("python", trouble()); }
    ns = bp::object();
    int const status = mon().finish();
    std::cout.flush(); std::filesystem::current_path("/"); std::filesystem::remove_all(dir);
    _Exit(status);
}

// C19: result types, type sets, expression types, result types of operations.
#include "vh.h"
#include <iostream>
#include <memory>
#include <array>
#include "fern/core/type_traits.h"
#include "fern/core/value_type_traits.h"
#include "fern/core/typelist.h"
#include "fern/core/value_types.h"
#include "fern/core/data_types.h"
#include "fern/core/expression_type.h"
#include "fern/core/data_type_traits/scalar.h"
#include "fern/algorithm/core/result_value.h"
#include "fern/algorithm/core/result_type.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/language/operation/core/expression_types.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/expression_type_calculation.h"
using namespace vh;
namespace fl = fern::language;
using fern::ValueTypes; using fern::DataTypes; using fern::ExpressionType;

template<class... T> struct Types {};
template<class F, class... T> void each(Types<T...>, F f) { (f(static_cast<T*>(nullptr)), ...); }
using Numbers = Types<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double>;

struct Kind { char c; unsigned size; bool operator==(Kind const& o) const { return c == o.c && size == o.size; } };
template<class T> Kind kind() {
    return {std::is_same<T, bool>::value ? 'b' : std::is_floating_point<T>::value ? 'f' : std::is_signed<T>::value ? 's' : 'u', unsigned(sizeof(T))};
}
static std::string str(Kind k) { return std::string(1, k.c) + std::to_string(k.size * 8); }

// The promotion rule as documented, written over kinds instead of types.
static Kind promoted(Kind a, Kind b) {
    if (a.c == 'f' || b.c == 'f') {
        unsigned s = 0;
        if (a.c == 'f') s = std::max(s, a.size);
        if (b.c == 'f') s = std::max(s, b.size);
        return {'f', s};
    }
    if (a.c == b.c) return {a.c, std::max(a.size, b.size)};
    Kind u = a.c == 'u' ? a : b, s = a.c == 'u' ? b : a;
    return {'s', std::max(std::min(u.size * 2, 8u), s.size)};
}

template<class A, class B> void pair_of() {
    using R = typename fern::algorithm::ResultValue<A, B>::type;
    using Q = typename fern::algorithm::ResultValue<B, A>::type;
    Kind a = kind<A>(), b = kind<B>(), r = kind<R>();
    std::string what = str(a) + "+" + str(b);
    mon().at("result value " + what);
    mon().seen("rv " + what);
    if (!(r == promoted(a, b))) mon().violation("result-value", what + " gives " + str(r) + ", documented " + str(promoted(a, b)));
    if (!std::is_same<R, Q>::value) mon().violation("result-value-order", what + " gives " + str(r) + " but the other way around " + str(kind<Q>()));
    if (std::is_same<A, B>::value && !std::is_same<R, A>::value) mon().violation("result-value-same", what + " gives " + str(r));
    if (a.c != 'f' && b.c != 'f' && r.size < std::max(a.size, b.size)) mon().violation("result-value-width", what + " gives " + str(r));
    // Values both types can represent exactly in the result (unless capped).
    if (r.c == 's' && !(std::max(a.size, b.size) == 8 )) {
        if ((long double)std::numeric_limits<R>::max() < (long double)std::numeric_limits<A>::max()
            || (long double)std::numeric_limits<R>::max() < (long double)std::numeric_limits<B>::max())
            mon().violation("result-value-holds", what + " gives " + str(r) + " which cannot hold both");
    }
    // Absorption: combining the result with an argument again changes nothing.
    // (False only where the table widens an unsigned type twice: u16+s8 -> s32.)
    using R2 = typename fern::algorithm::ResultValue<R, A>::type;
    if (!std::is_same<R2, R>::value && !(promoted(r, a) == kind<R2>())) mon().violation("result-value-again", what);

    using fern::Array; using fern::MaskedArray; using fern::Raster; using fern::MaskedRaster;
    using namespace fern::algorithm;
    auto same = [&](bool ok, char const* shape) {
        mon().seen(std::string("rt ") + shape + what);
        if (!ok) mon().violation(std::string("result-type-") + shape, what);
    };
    same(std::is_same<result_type<A, B>, R>::value, "constant,constant ");
    same(std::is_same<result_type<Array<A, 2>, B>, Array<R, 2>>::value, "array,constant ");
    same(std::is_same<result_type<A, Array<B, 1>>, Array<R, 1>>::value, "constant,array ");
    same(std::is_same<result_type<Array<A, 2>, Array<B, 2>>, Array<R, 2>>::value, "array,array ");
    same(std::is_same<result_type<MaskedArray<A, 2>, Array<B, 2>>, MaskedArray<R, 2>>::value, "masked,array ");
    same(std::is_same<result_type<A, MaskedArray<B, 1>>, MaskedArray<R, 1>>::value, "constant,masked ");
    same(std::is_same<result_type<MaskedRaster<A, 2>, B>, MaskedRaster<R, 2>>::value, "maskedraster,constant ");
    same(std::is_same<result_type<Raster<A, 2>, MaskedRaster<B, 2>>, Raster<R, 2>>::value, "raster,maskedraster ");
    same(std::is_same<result_type<fern::MaskedScalar<A>, B>, fern::MaskedScalar<R>>::value, "maskedscalar,constant ");
    same(std::is_same<result_type<A, fern::MaskedScalar<B>>, fern::MaskedScalar<R>>::value, "constant,maskedscalar ");
}

template<class T> void traits(char const* name, fern::ValueType id, ValueTypes const& set) {
    mon().at(std::string("traits ") + name);
    mon().seen(std::string("traits ") + name);
    using TT = fern::TypeTraits<T>;
    if (TT::value_type != id || fern::value_type_id<T>() != id) mon().violation("traits-id", name);
    if (TT::value_types != set || TT::value_types.count() != 1 || !TT::value_types.test(id)) mon().violation("traits-set", name);
    if (TT::name != name) mon().violation("traits-name", std::string(name) + " is called " + TT::name);
    if (!TT::builtin) mon().violation("traits-builtin", name);
}

template<class T> void limits(char const* name) {
    using TT = fern::TypeTraits<T>;
    mon().at(std::string("limits ") + name); mon().seen(std::string("limits ") + name);
    using L = std::numeric_limits<T>;
    if (TT::max() != L::max() || fern::max<T>() != L::max()) mon().violation("limit-max", name);
    if (std::is_integral<T>::value) {
        if (TT::min() != L::min() || fern::min<T>() != L::min()) mon().violation("limit-min", name);
    }
    // One value stands for no data; setting it and testing for it agree.
    T nd = TT::no_data_value();
    if (std::is_integral<T>::value && nd != (std::is_signed<T>::value ? L::min() : L::max())) mon().violation("no-data-value", name);
    for (T x : {T(0), T(1), T(42), L::max(), L::lowest(), nd}) {
        if (fern::is_no_data(x) != (x == nd)) mon().violation("is-no-data", name);
        T w = x; fern::set_no_data(w);
        if (!fern::is_no_data(w) || !(w == nd)) mon().violation("set-no-data", name);
    }
}

template<fern::ValueType V, class T> void back() {
    if (!std::is_same<typename fern::ValueTypeTraits<V>::type, T>::value) mon().violation("value-type-to-type", std::to_string(int(V)));
    mon().seen("vtt " + std::to_string(int(V)));
}

// --- sets --------------------------------------------------------------------
static std::vector<ValueTypes> const& vt_single() {
    static std::vector<ValueTypes> v{ValueTypes::BOOL, ValueTypes::CHAR, ValueTypes::UINT8, ValueTypes::INT8, ValueTypes::UINT16,
        ValueTypes::INT16, ValueTypes::UINT32, ValueTypes::INT32, ValueTypes::UINT64, ValueTypes::INT64, ValueTypes::FLOAT32,
        ValueTypes::FLOAT64, ValueTypes::STRING};
    return v;
}
static char const* vt_name[] = {"Bool", "Char", "Uint8", "Int8", "Uint16", "Int16", "Uint32", "Int32", "Uint64", "Int64", "Float32", "Float64", "String"};
static std::vector<DataTypes> const& dt_single() {
    static std::vector<DataTypes> v{DataTypes::CONSTANT, DataTypes::STATIC_FIELD};
    return v;
}
static char const* dt_name[] = {"Constant", "StaticField"};

template<class S> struct U;
template<> struct U<ValueTypes> { static std::vector<ValueTypes> const& single() { return vt_single(); } static char const** names() { return vt_name; } static unsigned n() { return 13; } };
template<> struct U<DataTypes> { static std::vector<DataTypes> const& single() { return dt_single(); } static char const** names() { return dt_name; } static unsigned n() { return 2; } };

template<class S> S make(unsigned bits) {
    S s;
    for (unsigned i = 0; i < U<S>::n(); ++i) if (bits >> i & 1) s |= U<S>::single()[i];
    return s;
}
template<class S> unsigned bits_of(S const& s) {
    unsigned b = 0;
    for (unsigned i = 0; i < U<S>::n(); ++i) if (s.test(i)) b |= 1u << i;
    return b;
}
static std::string hex(unsigned b) { char t[16]; snprintf(t, sizeof t, "%x", b); return t; }
static unsigned pop(unsigned b) { return __builtin_popcount(b); }

template<class S> void one_set(unsigned b, char const* what) {
    mon().at(std::string(what) + " " + hex(b));
    mon().seen(std::string(what) + hex(b), b != 0);
    S s = make<S>(b);
    auto bad = [&](char const* k) { mon().violation(std::string("set-") + k, std::string(what) + " " + hex(b) + " is " + s.to_string()); };
    if (bits_of(s) != b) bad("members");
    if (s.count() != pop(b)) bad("count");
    if (s.none() != (b == 0) || s.any() != (b != 0)) bad("any");
    if (s.fixed() != (pop(b) == 1)) bad("fixed");
    std::string want;
    for (unsigned i = 0; i < U<S>::n(); ++i) if (b >> i & 1) want += (want.empty() ? "" : "|") + std::string(U<S>::names()[i]);
    if (!b) want = "?";
    if (s.to_string() != want) bad("text");
    std::ostringstream o; o << s; if (o.str() != want) bad("text-stream");
    if (b) {
        S t; std::string x = s.to_string(); size_t p = 0;
        while (p <= x.size()) { size_t q = std::min(x.find('|', p), x.size()); t |= S::from_string(x.substr(p, q - p)); p = q + 1; }
        if (t != s) bad("round-trip");
    }
    if (!(s == s) || s != s) bad("self");
    if (b && !s.is_subset_of(s)) bad("subset-self");
    S u = s; u ^= s; if (u.any()) bad("xor-self");
    S c(s), d; d = s; S e(std::move(c)); if (d != s || e != s) bad("copy");
}

template<class S> void two_sets(unsigned a, unsigned b, char const* what) {
    std::string id = std::string(what) + " " + hex(a) + "," + hex(b);
    mon().at(id); mon().seen(id, a && b);
    S x = make<S>(a), y = make<S>(b);
    auto bad = [&](char const* k) { mon().violation(std::string("sets-") + k, id); };
    if (bits_of(x & y) != (a & b)) bad("intersection");
    if (bits_of(x | y) != (a | b)) bad("union");
    { S t = x; S& r = (t |= y); if (&r != &t || bits_of(t) != (a | b)) bad("union-into"); }
    { S t = x; S& r = (t &= y); if (&r != &t || bits_of(t) != (a & b)) bad("intersection-into"); }
    { S t = x; S& r = (t ^= y); if (&r != &t || bits_of(t) != (a ^ b)) bad("difference-into"); }
    if (bits_of(x) != a || bits_of(y) != b) bad("argument-changed");
    if ((x == y) != (a == b) || (x != y) != (a != b)) bad("equal");
    // An empty set means "unknown": it is a subset of nothing.
    if (x.is_subset_of(y) != (a != 0 && (a & ~b) == 0)) bad("subset");
}

// --- expression types --------------------------------------------------------
struct ET { unsigned d, v; };
static ExpressionType make(ET e) { return ExpressionType(make<DataTypes>(e.d), make<ValueTypes>(e.v)); }
static std::string str(ET e) { return hex(e.d) + "/" + hex(e.v); }
static bool satisfied(ET by, ET param) { return by.d && by.v && !(by.d & ~param.d) && !(by.v & ~param.v); }
static ET rnd(Rng& r) {
    ET e; e.d = 1 + r.below(3);
    switch (r.below(4)) {
        case 0: e.v = 1u << r.below(13); break;
        case 1: e.v = bits_of(r.chance(50) ? ValueTypes::NUMBER : r.chance(50) ? ValueTypes::INTEGER : ValueTypes::ALL); break;
        default: e.v = 1 + r.below((1u << 13) - 1); if (r.chance(50)) { unsigned m = r.below(1u << 13); if (e.v & m) e.v &= m; }
    }
    return e;
}

static void expressions(Rng& r) {
    ET a = rnd(r), b = rnd(r);
    if (r.chance(40)) { unsigned m = r.next(), n = r.next(); b = a; if (a.d & m) b.d = a.d & m; if (a.v & n) b.v = a.v & n; }
    std::string id = str(a) + " " + str(b);
    mon().at("expression types " + id); mon().seen("et " + id);
    ExpressionType x = make(a), y = make(b);
    if (x.is_satisfied_by(y) != satisfied(b, a)) mon().violation("expression-satisfied", id);
    if (x.data_type() != make<DataTypes>(a.d) || x.value_type() != make<ValueTypes>(a.v)) mon().violation("expression-members", id);
    if (!x.defined()) mon().violation("expression-defined", id);
    if (x.fixed() != (pop(a.d) == 1 && pop(a.v) == 1)) mon().violation("expression-fixed", id);
    bool eq = a.d == b.d && a.v == b.v;
    if ((x == y) != eq || (x != y) == eq) mon().violation("expression-equal", id);
    std::ostringstream o; o << x;
    if (o.str() != make<DataTypes>(a.d).to_string() + "/" + make<ValueTypes>(a.v).to_string()) mon().violation("expression-text", o.str());
    ExpressionType none;
    if (none.defined() || none.fixed() || x.is_satisfied_by(none) || none.is_satisfied_by(x)) mon().violation("expression-unknown", id);
    if (satisfied(b, a)) mon().count("satisfied pairs");
}

static void collections(Rng& r) {
    std::vector<ET> p(r.below(5)), q(r.below(5));
    for (auto& e : p) e = rnd(r);
    for (auto& e : q) { e = rnd(r); if (!p.empty() && r.chance(30)) { e = p[r.below(p.size())]; unsigned m = r.next(); if (e.v & m) e.v &= m; } if (r.chance(40)) { e.v = 1u << r.below(13); e.d = 1 << r.below(2);} }
    std::string id;
    for (auto e : p) id += str(e) + " "; id += "| "; for (auto e : q) id += str(e) + " ";
    mon().at("collections " + id); mon().seen("ets " + id, !p.empty() && !q.empty());
    fl::ExpressionTypes P, Q(q.size());
    for (auto e : p) P.add(make(e));
    for (size_t i = 0; i < q.size(); ++i) Q[i] = make(q[i]);
    size_t want = q.size();
    for (size_t i = 0; i < q.size() && want == q.size(); ++i) for (auto e : p) if (satisfied(q[i], e)) { want = i; break; }
    if (P.id_of_satisfying_type(Q) != want) mon().violation("expressions-id", id + " gives " + std::to_string(P.id_of_satisfying_type(Q)));
    if (P.is_satisfied_by(Q) != (want < q.size())) mon().violation("expressions-satisfied", id);
    if (P.size() != p.size() || P.is_empty() != p.empty()) mon().violation("expressions-size", id);
    bool fixed = !q.empty(); for (auto e : q) if (pop(e.d) != 1 || pop(e.v) != 1) fixed = false;
    if (Q.fixed() != fixed) mon().violation("expressions-fixed", id);
    size_t k = 0; std::string text;
    for (auto const& e : P) { if (!(e == make(p[k]))) mon().violation("expressions-element", id); std::ostringstream o; o << e; text += (k ? " | " : "") + o.str(); ++k; }
    if (k != p.size()) mon().violation("expressions-iterate", id);
    std::ostringstream o; o << P; if (o.str() != text) mon().violation("expressions-text", id);
    fl::ExpressionTypes C(P), D; D = P; D.add(make(ET{1, 1}));
    if (C.size() != p.size() || P.size() != p.size() || D.size() != p.size() + 1) mon().violation("expressions-copy", id);
    if (want < q.size()) mon().count("satisfied collections");
}

// --- operations --------------------------------------------------------------
struct Op : fl::Operation {
    Op(std::vector<fl::Parameter> const& p, std::vector<fl::Result> const& r) : fl::Operation("op", "an operation", p, r) {}
    std::vector<std::shared_ptr<fl::Argument>> execute(std::vector<std::shared_ptr<fl::Argument>> const&) const override { return {}; }
};
// C++ rank order of the numeric value types, highest first: floating point
// before integers, wider before narrower, unsigned before signed of one width.
static int const rank_order[] = {11, 10, 8, 9, 6, 7, 4, 5, 2, 3};
static unsigned highest(unsigned b) { for (int i : rank_order) if (b >> i & 1) return 1u << i; return 0; }

static void operations(Rng& r) {
    unsigned const number = bits_of(ValueTypes::NUMBER);
    size_t n = 1 + r.below(3);
    std::vector<ET> p(n), a(n);
    std::vector<fl::Parameter> params;
    for (size_t i = 0; i < n; ++i) {
        p[i].d = r.chance(70) ? 3 : 1 + r.below(3);
        p[i].v = r.chance(60) ? number : (1 + r.below((1u << 13) - 1)) & number;
        if (!p[i].v) p[i].v = number;
        params.emplace_back("p", "parameter", make<DataTypes>(p[i].d), make<ValueTypes>(p[i].v));
    }
    bool fixed_d = r.chance(30), fixed_v = r.chance(25);
    ET res{fixed_d ? 1u << r.below(2) : 3u, fixed_v ? 1u << r.below(13) : number};
    fl::Result result("r", "result", make(res));
    Op op(params, {result});
    std::vector<ExpressionType> args;
    for (size_t i = 0; i < n; ++i) {
        // What the caller checked beforehand: arguments satisfy the parameters, or are unknown.
        if (r.chance(10)) a[i] = ET{0, 0};
        else {
            a[i] = p[i];
            unsigned m = 1 + r.below(3); if (a[i].d & m) a[i].d &= m;
            if (r.chance(75)) { std::vector<unsigned> s; for (unsigned k = 0; k < 13; ++k) if (p[i].v >> k & 1) s.push_back(k); a[i].v = 1u << s[r.below(s.size())]; }
            else { unsigned w = r.next(); if (a[i].v & w) a[i].v &= w; }
        }
        args.push_back(a[i].d ? make(a[i]) : ExpressionType());
    }
    std::string id = std::to_string(n) + " result " + str(res) + " args";
    for (auto e : a) id += " " + str(e);
    id += " params"; for (auto e : p) id += " " + str(e);
    mon().at("operation " + id); mon().seen("op " + id);
    unsigned md = 0, mv = 0, pd = 0, pv = 0;
    for (size_t i = 0; i < n; ++i) { md |= a[i].d & p[i].d; mv |= a[i].v & p[i].v; pd |= p[i].d; pv |= p[i].v; }
    ET want;
    want.d = fixed_d ? res.d : md & 2 ? 2u : md & 1 ? 1u : pd;
    if (fixed_v) want.v = res.v;
    else if (n == 1 && a[0].v) want.v = a[0].v;
    else if (pop(mv) == 1) want.v = mv;
    else want.v = mv ? highest(mv) : pv;
    ExpressionType got = fl::standard_expression_type(op, 0, args);
    if (!(got == make(want))) { std::ostringstream o; o << got << " instead of " << make(want) << " for " << id; mon().violation("operation-result-type", o.str()); }
    // The order of the arguments does not matter.
    if (n == 2) {
        Op po({params[1], params[0]}, {result});
        if (!(fl::standard_expression_type(po, 0, {args[1], args[0]}) == got)) mon().violation("operation-order", id);
    }
    if (op.arity() != n || op.name() != "op" || op.description() != "an operation" || op.parameters().size() != n || op.results().size() != 1
        || !(op.results()[0].expression_type() == make(res))) mon().violation("operation-members", id);
    for (size_t i = 0; i < n; ++i) {
        auto t = op.parameters()[i].expression_types();
        if (t.size() != 1 || !(t[0] == make(p[i]))) mon().violation("parameter-types", id);
    }
}

int main(int c, char** v) {
    mon().init(c, v);
    each(Numbers{}, [](auto* a) { each(Numbers{}, [](auto* b) {
        pair_of<std::remove_pointer_t<decltype(a)>, std::remove_pointer_t<std::remove_reference_t<decltype(*&b)>>>(); }); });
    if (!std::is_same<fern::algorithm::ResultValue<bool, bool>::type, bool>::value) mon().violation("result-value-bool", "");
    traits<bool>("bool", fern::VT_BOOL, ValueTypes::BOOL); traits<char>("char", fern::VT_CHAR, ValueTypes::CHAR);
    traits<int8_t>("int8", fern::VT_INT8, ValueTypes::INT8); traits<uint8_t>("uint8", fern::VT_UINT8, ValueTypes::UINT8);
    traits<int16_t>("int16", fern::VT_INT16, ValueTypes::INT16); traits<uint16_t>("uint16", fern::VT_UINT16, ValueTypes::UINT16);
    traits<int32_t>("int32", fern::VT_INT32, ValueTypes::INT32); traits<uint32_t>("uint32", fern::VT_UINT32, ValueTypes::UINT32);
    traits<int64_t>("int64", fern::VT_INT64, ValueTypes::INT64); traits<uint64_t>("uint64", fern::VT_UINT64, ValueTypes::UINT64);
    traits<float>("float32", fern::VT_FLOAT32, ValueTypes::FLOAT32); traits<double>("float64", fern::VT_FLOAT64, ValueTypes::FLOAT64);
    limits<int8_t>("int8"); limits<uint8_t>("uint8"); limits<int16_t>("int16"); limits<uint16_t>("uint16"); limits<int32_t>("int32");
    limits<uint32_t>("uint32"); limits<int64_t>("int64"); limits<uint64_t>("uint64"); limits<float>("float32"); limits<double>("float64");
    back<fern::VT_BOOL, bool>(); back<fern::VT_CHAR, char>(); back<fern::VT_UINT8, uint8_t>(); back<fern::VT_INT8, int8_t>();
    back<fern::VT_UINT16, uint16_t>(); back<fern::VT_INT16, int16_t>(); back<fern::VT_UINT32, uint32_t>(); back<fern::VT_INT32, int32_t>();
    back<fern::VT_UINT64, uint64_t>(); back<fern::VT_INT64, int64_t>(); back<fern::VT_FLOAT32, float>(); back<fern::VT_FLOAT64, double>();
    back<fern::VT_STRING, std::string>();
    // Aliases.
    auto alias = [](ValueTypes const& s, unsigned bits, char const* name) {
        mon().at(std::string("alias ") + name); mon().seen(std::string("alias ") + name);
        if (bits_of(s) != bits) mon().violation("alias", std::string(name) + " is " + s.to_string());
    };
    alias(ValueTypes::UNKNOWN, 0, "unknown"); alias(ValueTypes::UNSIGNED_INTEGER, 0x154, "unsigned");
    alias(ValueTypes::SIGNED_INTEGER, 0x2a8, "signed"); alias(ValueTypes::INTEGER, 0x3fc, "integer");
    alias(ValueTypes::SIZE, 0x100, "size"); alias(ValueTypes::FLOATING_POINT, 0xc00, "floating point");
    alias(ValueTypes::NUMBER, 0xffc, "number"); alias(ValueTypes::ALL, 0x1fff, "all");
    alias(ValueTypes::from_string("Number"), 0xffc, "by name: number"); alias(ValueTypes::from_string("All"), 0x1fff, "by name: all");
    alias(ValueTypes::from_string("Size"), 0x100, "by name: size");
    if (bits_of(DataTypes::ALL) != 3 || bits_of(DataTypes::from_string("All")) != 3 || DataTypes::UNKNOWN.any()) mon().violation("alias-data", "");
    // All subsets, all pairs of subsets of the smaller universe, sampled pairs of the larger.
    for (unsigned b = 0; b < (1u << 13); ++b) one_set<ValueTypes>(b, "value types");
    for (unsigned b = 0; b < 4; ++b) one_set<DataTypes>(b, "data types");
    for (unsigned a = 0; a < 4; ++a) for (unsigned b = 0; b < 4; ++b) two_sets<DataTypes>(a, b, "data types");
    Rng r = mon().rng("sets");
    for (size_t i = 0, n = mon().n(60000, 3000000); i < n; ++i) {
        unsigned a = r.below(1u << 13), b = r.below(1u << 13);
        switch (r.below(5)) { case 0: b = a & b; break; case 1: b = a | b; break; case 2: a = 1u << r.below(13); break; case 3: b = a ^ (1u << r.below(13)); break; }
        two_sets<ValueTypes>(a, b, "value types");
    }
    Rng e = mon().rng("expressions");
    for (size_t i = 0, n = mon().n(40000, 1000000); i < n; ++i) expressions(e);
    for (size_t i = 0, n = mon().n(20000, 500000); i < n; ++i) collections(e);
    for (size_t i = 0, n = mon().n(40000, 1000000); i < n; ++i) operations(e);
    return mon().finish();
}

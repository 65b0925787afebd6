// C20: arrays, masked arrays, rasters: cells, marks, extents, georeference.
#include "vh.h"
#include <array>
#include <cassert>
#include <memory>
#include <vector>
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/array_reference.h"
#include "fern/feature/core/array_reference.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/point.h"
#include "fern/language/operation/raster.h"
using namespace vh;
using fern::Index; using fern::extents;

template<class T> struct Val { static T of(Rng& r) { return r.chance(60) ? T(r.below(4)) : T(r.range(-100, 100)); } };
template<> struct Val<uint8_t> { static uint8_t of(Rng& r) { return r.chance(60) ? r.below(4) : r.below(256); } };
template<> struct Val<bool> { static bool of(Rng& r) { return r.chance(50); } };
template<> struct Val<double> { static double of(Rng& r) {
    if (r.chance(10)) return std::numeric_limits<double>::quiet_NaN();
    return r.chance(60) ? double(r.below(4)) : r.unit() * 1e6 - 5e5; } };
template<class T> bool eq(T a, T b) { return a == b || (a != a && b != b); }

template<class C> struct Tr;
template<class T, size_t D> struct Tr<fern::Array<T, D>> { static bool const masked = false, raster = false; static char const* name() { return "Array"; } };
template<class T, size_t D> struct Tr<fern::MaskedArray<T, D>> { static bool const masked = true, raster = false; static char const* name() { return "MaskedArray"; } };
template<class T, size_t D> struct Tr<fern::Raster<T, D>> { static bool const masked = false, raster = true; static char const* name() { return "Raster"; } };
template<class T, size_t D> struct Tr<fern::MaskedRaster<T, D>> { static bool const masked = true, raster = true; static char const* name() { return "MaskedRaster"; } };

// What the container should hold.
template<class T, size_t D> struct Model {
    std::array<size_t, D> shape{};
    std::vector<T> v;
    std::vector<char> m;
    std::array<double, 2 * D> t{};
    size_t n() const { size_t k = 1; for (auto s : shape) k *= s; return k; }
};
template<size_t D> std::string str(std::array<size_t, D> const& s) { std::string r; for (auto x : s) r += (r.empty() ? "" : "x") + std::to_string(x); return r; }

template<size_t D> struct Ext;
template<> struct Ext<1> { template<class F> static auto with(std::array<size_t, 1> s, F f) { return f(extents[Index(s[0])]); } };
template<> struct Ext<2> { template<class F> static auto with(std::array<size_t, 2> s, F f) { return f(extents[Index(s[0])][Index(s[1])]); } };
template<> struct Ext<3> { template<class F> static auto with(std::array<size_t, 3> s, F f) { return f(extents[Index(s[0])][Index(s[1])][Index(s[2])]); } };


template<class C> struct C_;
template<template<class, size_t> class K, class T, size_t D> struct C_<K<T, D>> {
    using Cont = K<T, D>;
    using M = Model<T, D>;
    using X = Tr<Cont>;
    static bool const masked = X::masked, raster = X::raster;

    static std::string title() { return std::string(X::name()) + "<" + (std::is_same<T, double>::value ? "double" : std::is_same<T, bool>::value ? "bool" : sizeof(T) == 1 ? "uint8" : "int") + "," + std::to_string(D) + ">"; }

    static void verify(Cont const& c, M const& m, std::string const& step) {
        std::string k = title() + " " + step;
        auto bad = [&](char const* what, std::string const& s = "") { mon().violation(std::string("container-") + what, k + " " + str(m.shape) + " " + s); };
        if (c.num_dimensions() != D) bad("rank");
        if (c.num_elements() != m.n() || fern::size(c) != m.n()) { bad("size", std::to_string(c.num_elements())); return; }
        if (c.size() != m.shape[0]) bad("first-extent");
        for (size_t d = 0; d < D; ++d) if (c.shape()[d] != m.shape[d] || fern::size(c, d) != m.shape[d]) { bad("extent"); return; }
        size_t per = D == 0 || m.shape[0] == 0 ? 0 : m.n() / m.shape[0];
        for (size_t i = 0; i < m.n(); ++i) {
            if (!eq(fern::get(c, i), m.v[i])) { bad("value", "cell " + std::to_string(i)); break; }
            if (c.data() + i != &fern::get(c, i)) { bad("address", "cell " + std::to_string(i)); break; }
            if (element(c, m, i) != c.data() + i) { bad("element", "cell " + std::to_string(i)); break; }
        }
        if (size_t(std::distance(c.begin(), c.end())) != m.shape[0]) bad("iterate");
        if constexpr (D == 1) { size_t i = 0; for (auto const& x : c) { if (!eq<T>(x, m.v[i])) { bad("iterate-value"); break; } ++i; } }
        if constexpr (D == 2) for (size_t r = 0; r < m.shape[0]; ++r) for (size_t q = 0; q < m.shape[1]; ++q)
            if (fern::index(c, r, q) != r * m.shape[1] + q) { bad("index"); r = m.shape[0] - 1; break; }
        if constexpr (masked) {
            auto const& k = c.mask();
            for (size_t d = 0; d < D; ++d) if (k.shape()[d] != m.shape[d]) { bad("mask-shape"); return; }
            bool any = false;
            for (size_t i = 0; i < m.n(); ++i) { if (k.data()[i] != bool(m.m[i])) { bad("mask", "cell " + std::to_string(i)); break; } any |= bool(m.m[i]); }
            if (c.has_masked_values() != any) bad("has-masked-values");
        }
        if constexpr (raster) if (c.transformation() != m.t) bad("georeference");
        if constexpr (raster && D == 2) {
            if (!eq(fern::cell_size(c, 0), m.t[1]) || !eq(fern::cell_size(c, 1), m.t[3])) bad("cell-size");
            if (!eq(fern::cell_area(c), m.t[1] * m.t[3])) bad("cell-area");
        }
        (void)per;
    }
    static T const* element(Cont const& c, M const& m, size_t i) {
        if constexpr (D == 1) return &c[i];
        if constexpr (D == 2) return &c[i / m.shape[1]][i % m.shape[1]];
        if constexpr (D == 3) return &c[i / (m.shape[1] * m.shape[2])][i / m.shape[2] % m.shape[1]][i % m.shape[2]];
    }
    static T* element(Cont& c, M const& m, size_t i) {
        if constexpr (D == 1) return &c[i];
        if constexpr (D == 2) return &c[i / m.shape[1]][i % m.shape[1]];
        if constexpr (D == 3) return &c[i / (m.shape[1] * m.shape[2])][i / m.shape[2] % m.shape[1]][i % m.shape[2]];
    }
    static M model(std::array<size_t, D> s, T v, Rng& r) {
        M m; m.shape = s; m.v.assign(m.n(), v); m.m.assign(m.n(), 0);
        for (auto& x : m.t) x = r.range(-1000, 1000) / 8.0;
        return m;
    }
    static std::unique_ptr<Cont> make(M const& m, bool value, T v) {
        return Ext<D>::with(m.shape, [&](auto const& e) {
            if constexpr (raster) return value ? std::make_unique<Cont>(e, m.t, v) : std::make_unique<Cont>(e, m.t);
            else return value ? std::make_unique<Cont>(e, v) : std::make_unique<Cont>(e);
        });
    }
    template<class U> static void check_clone(Cont const& c, M const& m, Rng& r) {
        using CU = K<U, D>; using CC = C_<CU>;
        Model<U, D> e; e.shape = m.shape; e.t = m.t; e.m.assign(m.n(), 0);
        U v = Val<U>::of(r);
        { auto k = fern::clone<U>(c); static_assert(std::is_same<decltype(k), CU>::value, ""); e.v.assign(m.n(), U()); CC::verify(k, e, "clone"); }
        { auto k = fern::clone<U>(c, v); e.v.assign(m.n(), v); CC::verify(k, e, "clone with value");
          if (m.n()) { size_t i = r.below(m.n()); U w = Val<U>::of(r); fern::get(k, i) = w; e.v[i] = w; CC::verify(k, e, "write to clone"); verify(c, m, "original after write to clone"); } }
    }

    static void history(Rng& r) {
        std::array<size_t, D> s;
        for (auto& x : s) x = r.chance(6) ? 0 : r.chance(20) ? 1 : 1 + r.below(D == 1 ? 40 : D == 2 ? 9 : 5);
        bool withv = r.chance(60);
        T v = Val<T>::of(r);
        M m = model(s, withv ? v : T(), r);
        std::string log = title() + " " + str(s);
        mon().at(log);
        auto c = make(m, withv, v);
        verify(*c, m, "constructed");
        unsigned steps = 1 + r.below(20);
        size_t n = m.n();
        for (unsigned k = 0; k < steps; ++k) {
            unsigned op = r.below(16);
            log += "," + std::to_string(op); mon().at(log);
            std::string step = "step " + std::to_string(op);
            switch (op) {
            case 0: case 1: if (n) { size_t i = r.below(n); T x = Val<T>::of(r); fern::get(*c, i) = x; m.v[i] = x; } break;
            case 2: if (n) { size_t i = r.below(n); T x = Val<T>::of(r); *element(*c, m, i) = x; m.v[i] = x; } break;
            case 3: if (D == 2 && n) { if constexpr (D == 2) { size_t a = r.below(m.shape[0]), b = r.below(m.shape[1]); T x = Val<T>::of(r); fern::get(*c, fern::index(*c, a, b)) = x; m.v[a * m.shape[1] + b] = x;
                        if (!eq<T>((*c)[a][b], x)) mon().violation("container-index-write", log); } } break;
            case 4: if (r.chance(30)) { T x = Val<T>::of(r); c->fill(x); m.v.assign(n, x); } break;
            case 5: for (size_t i = 0; i < n; ++i) m.v[i] = c->data()[i] = Val<T>::of(r); break;
            case 6: if (r.chance(25)) check_clone<int>(*c, m, r); break;
            case 7: if (r.chance(25)) { check_clone<double>(*c, m, r); check_clone<uint8_t>(*c, m, r); } break;
            case 8: { auto d = std::make_unique<Cont>(std::move(*c)); c = std::move(d); } break;
            case 9: if constexpr (!masked) { auto d = std::make_unique<Cont>(*c); if (n) { size_t i = r.below(n); T x = Val<T>::of(r); T old = m.v[i];
                        fern::get(*d, i) = x; verify(*c, m, "original after write to copy"); m.v[i] = x; verify(*d, m, "copy"); m.v[i] = old; } else verify(*d, m, "copy"); } break;
            case 10: if constexpr (!masked) { auto d = make(m, false, T()); *d = *c; verify(*d, m, "assigned"); auto e = make(m, false, T()); *e = std::move(*d); verify(*e, m, "move assigned"); c = std::move(e); } break;
            case 11: if constexpr (masked) { T x = n && r.chance(70) ? m.v[r.below(n)] : Val<T>::of(r); c->set_mask(x); for (size_t i = 0; i < n; ++i) if (m.v[i] == x) m.m[i] = 1; } break;
            case 12: if constexpr (masked) { import<uint8_t>(*c, m, r); import<int>(*c, m, r); } break;
            case 13: if constexpr (masked) { exported<uint8_t>(*c, m, "uint8"); exported<int>(*c, m, "int"); exported<uint64_t>(*c, m, "uint64"); exported<int8_t>(*c, m, "int8"); } break;
            case 14: if constexpr (masked) { if (r.chance(15)) { c->mask_all(); m.m.assign(n, 1); } else if (n) { size_t i = r.below(n); bool b = r.chance(50); c->mask().data()[i] = b; m.m[i] = b; }
                        if (r.chance(10)) { c->mask().fill(false); m.m.assign(n, 0); } } break;
            case 15: if constexpr (raster) { size_t i = r.below(2 * D); double x = r.range(-1000, 1000) / 16.0; if (r.chance(50)) c->transformation()[i] = x; else { if constexpr (masked) fern::set_transformation(*c, i, x); else c->transformation()[i] = x; } m.t[i] = x; } break;
            }
            verify(*c, m, step);
        }
        mon().seen(log, n > 0);
        mon().count(title());
        mon().count("steps", steps);
    }
    template<class U> static void import(Cont& c, M& m, Rng& r) {
        auto a = Ext<D>::with(m.shape, [&](auto const& e) { return fern::Array<U, D>(e); });
        for (size_t i = 0; i < m.n(); ++i) a.data()[i] = U(r.below(4));
        bool def = r.chance(50);
        U k = def ? U(0) : U(r.below(5));
        if (def) c.set_mask(a); else c.set_mask(a, k);
        for (size_t i = 0; i < m.n(); ++i) if (a.data()[i] == k) m.m[i] = 1;
    }
    template<class U> static void exported(Cont const& c, M const& m, char const* t) {
        auto a = Ext<D>::with(m.shape, [&](auto const& e) { return fern::Array<U, D>(e, U(7)); });
        c.mask(a);
        for (size_t i = 0; i < m.n(); ++i)
            if ((a.data()[i] == U(0)) != bool(m.m[i]) || (!m.m[i] && a.data()[i] != U(255))) { mon().violation("mask-export", title() + " as " + t + " cell " + std::to_string(i)); break; }
        // Importing what was exported reproduces the mask.
        auto k = Ext<D>::with(m.shape, [&](auto const& e) { return fern::MaskedArray<int, D>(e); });
        k.set_mask(a);
        for (size_t i = 0; i < m.n(); ++i) if (k.mask().data()[i] != bool(m.m[i])) { mon().violation("mask-round-trip", title() + " as " + t); break; }
    }
};

template<class T> void lists(Rng& r) {
    size_t n = r.below(12);
    std::vector<T> x(n); for (auto& e : x) e = Val<T>::of(r);
    mon().at("from vector of " + std::to_string(n)); mon().seen("vector " + std::to_string(n) + std::to_string(r.next()), n > 0);
    Model<T, 1> m; m.shape = {n}; m.v = x; m.m.assign(n, 0);
    C_<fern::Array<T, 1>>::verify(fern::Array<T, 1>(x), m, "from vector");
    C_<fern::Array<T, 1>>::verify(fern::Array<T, 1>(n, T(1)), [&] { auto k = m; k.v.assign(n, T(1)); return k; }(), "from size");
    C_<fern::MaskedArray<T, 1>>::verify(fern::MaskedArray<T, 1>(n, T(1)), [&] { auto k = m; k.v.assign(n, T(1)); return k; }(), "from size");
    std::vector<fern::MaskedScalar<T>> ms;
    for (size_t i = 0; i < n; ++i) { bool b = r.chance(40); ms.emplace_back(x[i], b); m.m[i] = b; }
    C_<fern::MaskedArray<T, 1>>::verify(fern::MaskedArray<T, 1>(ms), m, "from masked scalars");
    std::fill(m.m.begin(), m.m.end(), 0);
    T a = Val<T>::of(r), b = Val<T>::of(r), c = Val<T>::of(r), d = Val<T>::of(r), e = Val<T>::of(r), f = Val<T>::of(r);
    m.shape = {3}; m.v = {a, b, c}; m.m.assign(3, 0);
    C_<fern::Array<T, 1>>::verify(fern::Array<T, 1>({a, b, c}), m, "list");
    C_<fern::MaskedArray<T, 1>>::verify(fern::MaskedArray<T, 1>({a, b, c}), m, "list");
    Model<T, 2> q; q.v = {a, b, c, d, e, f}; q.m.assign(6, 0);
    q.shape = {2, 3};
    C_<fern::Array<T, 2>>::verify(fern::Array<T, 2>({{a, b, c}, {d, e, f}}), q, "list of lists");
    C_<fern::MaskedArray<T, 2>>::verify(fern::MaskedArray<T, 2>({{a, b, c}, {d, e, f}}), q, "list of lists");
    q.shape = {3, 2};
    C_<fern::Array<T, 2>>::verify(fern::Array<T, 2>({{a, b}, {c, d}, {e, f}}), q, "list of lists");
    C_<fern::MaskedArray<T, 2>>::verify(fern::MaskedArray<T, 2>({{a, b}, {c, d}, {e, f}}), q, "list of lists");
    q.shape = {r.below(5), r.below(5)}; q.v.assign(q.n(), a); q.m.assign(q.n(), 0);
    C_<fern::Array<T, 2>>::verify(fern::Array<T, 2>(q.shape[0], q.shape[1], a), q, "from sizes");
    Model<T, 2> z; z.shape = {0, 0}; 
    C_<fern::Array<T, 2>>::verify(fern::Array<T, 2>(), z, "default");
    C_<fern::MaskedArray<T, 2>>::verify(fern::MaskedArray<T, 2>(), z, "default");
    // The vector, scalar and reference customization points.
    std::vector<int> y(n); for (auto& k : y) k = Val<int>::of(r);
    if (fern::size(y) != n) mon().violation("vector-size", "");
    for (size_t i = 0; i < n; ++i) { if (fern::get(static_cast<std::vector<int> const&>(y), i) != y[i]) mon().violation("vector-get", ""); fern::get(y, i) = 17; if (y[i] != 17) mon().violation("vector-set", ""); }
    { auto k = fern::clone<double>(y); auto l = fern::clone<uint8_t>(y, uint8_t(5)); static_assert(std::is_same<decltype(k), std::vector<double>>::value, "");
      if (k != std::vector<double>(n) || l != std::vector<uint8_t>(n, 5)) mon().violation("vector-clone", ""); }
    // Extents from one upwards, as the data of an empty vector may be absent.
    size_t rows = 1 + r.below(6), cols = 1 + r.below(6);
    std::vector<int> store(rows * cols, 3);
    fern::ArrayReference<int, 2> ref(store.data(), extents[Index(rows)][Index(cols)]);
    if (fern::size(ref) != rows * cols || fern::size(ref, 0) != rows || fern::size(ref, 1) != cols) mon().violation("reference-size", "");
    size_t rr = r.below(rows), cc = r.below(cols);
    ref[rr][cc] = 9; if (store[rr * cols + cc] != 9) mon().violation("reference-element", "");
    size_t li = r.below(rows * cols); fern::get(ref, li) = 11; if (store[li] != 11) mon().violation("reference-get", "");
    store[li] = 12; if (fern::get(static_cast<fern::ArrayReference<int, 2> const&>(ref), li) != 12) mon().violation("reference-const-get", "");
}

static void scalars(Rng& r) {
    mon().at("masked scalar");
    fern::MaskedScalar<int> s; int v = 0; bool k = false;
    std::string log = "scalar";
    for (unsigned i = 0, n = 1 + r.below(12); i < n; ++i) {
        unsigned op = r.below(8); log += "," + std::to_string(op);
        int x = Val<int>::of(r);
        switch (op) {
        case 0: s = x; v = x; k = false; break;
        case 1: s = fern::MaskedScalar<int>(x); v = x; k = false; break;
        case 2: k = r.chance(50); s = fern::MaskedScalar<int>(x, k); v = x; break;
        case 3: s.value() = x; v = x; break;
        case 4: k = !k; s.mask() = k; break;
        case 5: fern::get(s) = x; v = x; break;
        case 6: static_cast<int&>(s) = x; v = x; break;
        case 7: { fern::MaskedScalar<int> t(s); if (!(t == s)) mon().violation("scalar-copy", log); t.value() += 1; if (t == s) mon().violation("scalar-equal", log);
                  t = s; t.mask() = !k; if (t == s) mon().violation("scalar-equal-mask", log); fern::MaskedScalar<int> u(std::move(t)); if (u.value() != v || u.mask() == k) mon().violation("scalar-move", log); } break;
        }
        fern::MaskedScalar<int> const& c = s;
        if (c.value() != v || c.mask() != k || int(c) != v || fern::get(c) != v) mon().violation("scalar", log);
    }
    mon().seen(log + std::to_string(v));
    int p = Val<int>::of(r); double q = 2.5;
    fern::get(p) = 4; if (p != 4 || fern::get(q) != 2.5 || fern::size(p) != 1 || fern::clone<double>(p) != 0 || fern::clone<double>(p, 1.5) != 1.5) mon().violation("constant", "");
    fern::Point<double, 1> p1(1.5); fern::Point<double, 2> p2(1.5, 2.5); fern::Point<int, 3> p3(int(v), 2, 3), p0;
    if (p1[0] != 1.5 || p2[0] != 1.5 || p2[1] != 2.5 || p3[0] != v || p3[1] != 2 || p3[2] != 3 || p0[0] || p0[1] || p0[2]) mon().violation("point", "");
    fern::Point<int, 3> const& pc = p3;
    if (fern::get<0>(pc) != v || fern::get<1>(pc) != 2 || fern::get<2>(pc) != 3) mon().violation("point-get", "");
    fern::get<1>(p3) = 77; if (p3[1] != 77 || p3[0] != v || p3[2] != 3) mon().violation("point-set", "");
}

// Fixed-size raster of the language.
template<size_t R, size_t C> void fixed(Rng& r) {
    fern::language::Raster<int, R, C> a, b(7);
    std::string what = "language raster " + std::to_string(R) + "x" + std::to_string(C);
    mon().at(what);
    std::vector<int> m(R * C, 0);
    for (size_t i = 0; i < R * C; ++i) if (b.begin()[i] != 7) mon().violation("fixed-raster-fill", what);
    if (a.nr_rows() != R || a.nr_cols() != C || size_t(a.end() - a.begin()) != R * C) mon().violation("fixed-raster-size", what);
    for (unsigned k = 0, n = r.below(3 * R * C); k < n; ++k) {
        size_t i = r.below(R), j = r.below(C); int x = Val<int>::of(r);
        a.set(i, j, x); m[i * C + j] = x;
    }
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) {
        if (a.get(i, j) != m[i * C + j]) { mon().violation("fixed-raster", what); return; }
        if (a.begin()[i * C + j] != m[i * C + j]) { mon().violation("fixed-raster-order", what); return; }
    }
    mon().seen(what + std::to_string(r.next()));
}

template<template<class, size_t> class K> void kinds(Rng& r) {
    switch (r.below(9)) {
    case 0: C_<K<int, 1>>::history(r); break; case 1: C_<K<int, 2>>::history(r); break; case 2: C_<K<int, 3>>::history(r); break;
    case 3: C_<K<double, 1>>::history(r); break; case 4: C_<K<double, 2>>::history(r); break; case 5: C_<K<double, 3>>::history(r); break;
    case 6: C_<K<uint8_t, 1>>::history(r); break; case 7: C_<K<uint8_t, 2>>::history(r); break; case 8: C_<K<uint8_t, 3>>::history(r); break;
    }
}

int main(int c, char** v) {
    mon().init(c, v);
    Rng r = mon().rng("histories");
    for (size_t i = 0, n = mon().n(3000, 120000); i < n; ++i) {
        if (PART == 0) { kinds<fern::Array>(r); kinds<fern::Raster>(r); if (r.chance(20)) C_<fern::Array<bool, 2>>::history(r); }
        if (PART == 1) { kinds<fern::MaskedArray>(r); kinds<fern::MaskedRaster>(r); }
        if (PART == 0) {
            if (i % 4 == 0) { lists<int>(r); lists<double>(r); lists<uint8_t>(r); }
            scalars(r);
            switch (r.below(6)) { case 0: fixed<1, 1>(r); break; case 1: fixed<2, 5>(r); break; case 2: fixed<5, 2>(r); break; case 3: fixed<4, 4>(r); break; case 4: fixed<1, 7>(r); break; case 5: fixed<7, 1>(r); break; }
        }
    }
    return mon().finish();
}

// Random programs, a model of what they do, and the XML the parser of scripts
// would make of them. Shared by the monitors of the interpreter and of the commands.
#pragma once
#include "io.h"
#include <cassert>
#include <cmath>
#include <iostream>
#include <memory>
#include <variant>
#include "front.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/type_traits.h"
#include "fern/core/validate_error.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/core/feature.h"
#include "fern/language/interpreter/data_sources.h"
#include "fern/language/interpreter/data_syncs.h"
#include "fern/language/interpreter/interpreter.h"
#include "fern/language/io/drivers.h"
#include "fern/language/io/io_client.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/feature_argument.h"
#include "fern/language/compiler/parse_command_line.h"
using namespace vh;
namespace fl = fern::language;
using S = std::string;

// ----------------------------------------------------------------- values
template<class T> struct Field { using type = T; size_t rows = 1, cols = 1; std::vector<T> v; std::vector<char> m; double box[4] = {0, 0, 1, 1}; };
template<class T> struct is_field : std::false_type {};
template<class T> struct is_field<Field<T>> : std::true_type {};
using Val = std::variant<int64_t, double, S, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, uint64_t, float,
    Field<uint8_t>, Field<uint16_t>, Field<int16_t>, Field<uint32_t>, Field<int32_t>, Field<float>, Field<double>, Field<int8_t>, Field<int64_t>, Field<uint64_t>>;
template<class T> std::string type_word() {
    if constexpr (std::is_same<T, S>::value) return "String";
    else { S s = std::is_floating_point<T>::value ? "Float" : std::is_unsigned<T>::value ? "Uint" : "Int"; return s + std::to_string(sizeof(T) * 8); }
}
static S type_of(Val const& v) {
    return std::visit([](auto const& x) -> S { using T = std::decay_t<decltype(x)>; if constexpr (is_field<T>::value) return "StaticField/" + type_word<typename T::type>(); else return "Constant/" + type_word<T>(); }, v);
}
static bool numeric(Val const& v) { return !std::holds_alternative<S>(v); }
static bool field(Val const& v) { return std::visit([](auto const& x) { return is_field<std::decay_t<decltype(x)>>::value; }, v); }
static bool gdal(Val const& v) { return std::visit([](auto const& x) { using T = std::decay_t<decltype(x)>; if constexpr (is_field<T>::value) return !(std::is_same<typename T::type, int8_t>::value || std::is_same<typename T::type, int64_t>::value || std::is_same<typename T::type, uint64_t>::value); else return false; }, v); }
static S show(Val const& v) {
    return std::visit([&](auto const& x) -> S { using T = std::decay_t<decltype(x)>; if constexpr (is_field<T>::value) return type_of(v) + " " + std::to_string(x.rows) + "x" + std::to_string(x.cols); else if constexpr (std::is_same<T, S>::value) return "\"" + x + "\""; else return type_word<T>() + " " + str(x); }, v);
}
template<class T> T number(Rng& r) {   // The lowest integers have no absolute value.
    using L = std::numeric_limits<T>;
    if (r.chance(8)) return L::max();
    if (r.chance(8)) return T(L::lowest() + (std::is_signed<T>::value && std::is_integral<T>::value));
    if constexpr (std::is_floating_point<T>::value) {
        if (r.chance(4)) return L::quiet_NaN();
        if (r.chance(6)) return r.chance(50) ? L::infinity() : -L::infinity();
        if (r.chance(5)) return T(-0.0);
        return T((r.unit() - 0.5) * (r.chance(50) ? 1e6 : 1.0));
    }
    else {
        T v = r.chance(50) ? T(r.range(std::is_signed<T>::value ? -100 : 0, 100)) : T(r.next());
        return std::is_signed<T>::value && v == L::lowest() ? T(1) : v;
    }
}
template<class T> Field<T> raster(Rng& r) {
    Field<T> f; size_t most = r.chance(5) ? 60 : 7; f.rows = 1 + r.below(most); f.cols = 1 + r.below(most);
    for (size_t i = 0; i < f.rows * f.cols; ++i) { f.v.push_back(number<T>(r)); f.m.push_back(r.chance(15)); }
    double cell = double(1 + r.below(20));
    f.box[0] = double(r.range(-100, 100)); f.box[1] = double(r.range(-100, 100)); f.box[2] = f.box[0] + cell * double(f.cols); f.box[3] = f.box[1] + cell * double(f.rows);
    return f;
}
static Val value(Rng& r, int kind) {
    switch (kind) {
    case 0: return number<int64_t>(r); case 1: return number<double>(r); case 2: return S(r.chance(20) ? "" : name(r));
    case 3: return number<int8_t>(r); case 4: return number<uint8_t>(r); case 5: return number<int16_t>(r); case 6: return number<uint16_t>(r);
    case 7: return number<int32_t>(r); case 8: return number<uint32_t>(r); case 9: return number<uint64_t>(r); case 10: return number<float>(r);
    case 11: return raster<uint8_t>(r); case 12: return raster<uint16_t>(r); case 13: return raster<int16_t>(r); case 14: return raster<uint32_t>(r);
    case 15: return raster<int32_t>(r); case 16: return raster<float>(r); case 17: return raster<double>(r); case 18: return raster<int8_t>(r);
    case 19: return raster<int64_t>(r); default: return raster<uint64_t>(r);
    }
}
static std::shared_ptr<fl::Attribute> attribute(Val const& v) {
    return std::visit([](auto const& x) -> std::shared_ptr<fl::Attribute> {
        using T = std::decay_t<decltype(x)>;
        if constexpr (is_field<T>::value) {
            using E = typename T::type;
            auto a = std::make_shared<fl::FieldAttribute<E>>();
            auto value = std::make_shared<fl::FieldValue<E>>(fern::extents[long(x.rows)][long(x.cols)]);
            for (size_t i = 0; i < x.v.size(); ++i) { value->data()[i] = x.v[i]; value->mask().data()[i] = x.m[i]; }
            fl::d2::Point sw, ne;
            fern::set<0>(sw, x.box[0]); fern::set<1>(sw, x.box[1]); fern::set<0>(ne, x.box[2]); fern::set<1>(ne, x.box[3]);
            a->add(fl::d2::Box(sw, ne), value);
            return a;
        }
        else return std::make_shared<fl::ConstantAttribute<T>>(x);
    }, v);
}
static S differs(std::shared_ptr<fl::Attribute> const& a, Val const& v) {
    return std::visit([&](auto const& x) -> S {
        using T = std::decay_t<decltype(x)>;
        if constexpr (is_field<T>::value) {
            using E = typename T::type;
            auto f = std::dynamic_pointer_cast<fl::FieldAttribute<E>>(a);
            if (!f) return "not a field of " + tn<E>();
            if (f->size() != 1 || f->domain().size() != 1) return "not one geometry";
            auto const& b = f->domain().cbegin()->second;
            double const got[4] = {fern::get<0>(b.min_corner()), fern::get<1>(b.min_corner()), fern::get<0>(b.max_corner()), fern::get<1>(b.max_corner())};
            for (int i = 0; i < 4; ++i) if (std::abs(got[i] - x.box[i]) > 1e-6) return "box side " + std::to_string(i) + " is " + str(got[i]) + " instead of " + str(x.box[i]);
            auto const& w = *f->values().cbegin()->second;
            if (w.num_dimensions() != 2 || w.shape()[0] != x.rows || w.shape()[1] != x.cols) return "extents " + std::to_string(w.shape()[0]) + "x" + std::to_string(w.shape()[1]) + " instead of " + std::to_string(x.rows) + "x" + std::to_string(x.cols);
            for (size_t i = 0; i < x.v.size(); ++i) {
                if (bool(w.mask().data()[i]) != bool(x.m[i])) return "cell " + std::to_string(i) + (x.m[i] ? " is not masked" : " is masked");
                if (!x.m[i] && !same(w.data()[i], x.v[i])) return "cell " + std::to_string(i) + " is " + str(w.data()[i]) + " instead of " + str(x.v[i]);
            }
            mon().count("cells compared", x.v.size());
            return "";
        }
        else {
            auto c = std::dynamic_pointer_cast<fl::ConstantAttribute<T>>(a);
            if (!c) return "not a constant of " + type_word<T>();
            if constexpr (std::is_same<T, S>::value) { if (c->values().value() != x) return "\"" + c->values().value() + "\" instead of \"" + x + "\""; }
            else if (!same(c->values().value(), x)) return str(c->values().value()) + " instead of " + str(x);
            return "";
        }
    }, v);
}
// A value on the stack: an attribute, or a feature with one attribute.
struct Item { Val v; S feature; };
static S differs(std::shared_ptr<fl::Argument> const& a, Item const& x) {
    mon().count("values compared");
    if (!a) return "no argument";
    if (x.feature.empty()) {
        auto p = std::dynamic_pointer_cast<fl::AttributeArgument>(a);
        if (!p || a->argument_type() != fl::ArgumentType::AT_ATTRIBUTE) return "not an attribute";
        return differs(p->attribute(), x.v);
    }
    auto p = std::dynamic_pointer_cast<fl::FeatureArgument>(a);
    if (!p || a->argument_type() != fl::ArgumentType::AT_FEATURE) return "not a feature";
    if (p->feature()->nr_attributes() != 1 || !p->feature()->contains_attribute(x.feature)) return "attributes of the feature";
    return differs(p->feature()->attribute(x.feature), x.v);
}
static Val absolute(Val const& v) {
    return std::visit([](auto const& x) -> Val {
        using T = std::decay_t<decltype(x)>;
        if constexpr (is_field<T>::value) { T y = x; for (auto& c : y.v) if (c < 0) c = decltype(+c)(-c); else if (c == 0) c = 0; if constexpr (std::is_floating_point<typename T::type>::value) for (size_t i = 0; i < y.v.size(); ++i) y.v[i] = std::fabs(x.v[i]); return y; }
        else if constexpr (std::is_same<T, S>::value) return x;
        else if constexpr (std::is_floating_point<T>::value) return T(std::fabs(x));
        else if constexpr (std::is_signed<T>::value) return T(x < 0 ? -x : x);
        else return x;
    }, v);
}

// --------------------------------------------------------------- programs
struct Ex { enum Kind { Lit, Str, Name, Call } kind = Lit; S text; Val v; std::vector<Ex> kids; int line = 1, col = 0; };
struct St { bool assign = false; S target; int line = 1, col = 0; Ex ex; };
static S escape(S const& s) { S o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else if (c == '\r') o += "&#13;"; else if (c == '\n') o += "&#10;"; else if (c == '\t') o += "&#9;"; else o += c; return o; }
static S at(S const& tag, int line, int col) { return "<" + tag + " line=\"" + std::to_string(line) + "\" col=\"" + std::to_string(col) + "\">"; }
static S xml(Ex const& e) {
    S o = at("Expression", e.line, e.col);
    switch (e.kind) {
    case Ex::Name: o += "<Name>" + e.text + "</Name>"; break;
    case Ex::Str: o += "<String>" + escape(std::get<S>(e.v)) + "</String>"; break;
    case Ex::Lit:
        o += std::visit([](auto const& x) -> S {
            using T = std::decay_t<decltype(x)>;
            if constexpr (is_field<T>::value || std::is_same<T, S>::value) { abort(); return ""; }
            else {
                S tag = std::is_floating_point<T>::value ? "Float" : std::is_unsigned<T>::value ? "UnsignedInteger" : "Integer", v;
                if constexpr (std::is_floating_point<T>::value) { char b[64]; snprintf(b, sizeof b, "%.17g", double(x)); v = x != x ? "NaN" : std::isinf(x) ? (x > 0 ? "INF" : "-INF") : b; }
                else v = std::to_string(x);
                return "<Number><" + tag + "><Size>" + std::to_string(sizeof(T) * 8) + "</Size><Value>" + v + "</Value></" + tag + "></Number>";
            }
        }, e.v);
        break;
    case Ex::Call:
        o += "<FunctionCall><Name>" + e.text + "</Name><Expressions>";
        for (auto& k : e.kids) o += xml(k);
        o += "</Expressions></FunctionCall>";
    }
    return o + "</Expression>";
}
static S xml(std::vector<St> const& p, S const& source) {
    S o = "<?xml version=\"1.0\"?><Fern source=\"" + escape(source) + "\"><Statements>";
    for (auto& s : p) {
        o += at("Statement", s.line, s.assign ? s.col : s.ex.col);
        if (s.assign) o += "<Assignment>" + at("Expression", s.line, s.col) + "<Name>" + s.target + "</Name></Expression>" + xml(s.ex) + "</Assignment>";
        else o += xml(s.ex);
        o += "</Statement>";
    }
    return o + "</Statements></Fern>";
}
static S text(Ex const& e) {
    if (e.kind == Ex::Name) return e.text;
    if (e.kind != Ex::Call) return show(e.v);
    S o = e.text + "("; for (size_t i = 0; i < e.kids.size(); ++i) o += (i ? ", " : "") + text(e.kids[i]);
    return o + ")";
}
static S text(std::vector<St> const& p) { S o; for (auto& s : p) o += (s.assign ? s.target + " = " : S()) + text(s.ex) + "; "; return o; }

// ------------------------------------------------------ sources and sinks
static std::vector<S> effects;   // reads and writes, in order
struct Source : fl::DataSource {
    S name; Val v; fern::ExpressionType type; mutable int reads = 0; bool absent = false;
    Source(S const& n, Val const& x) : name(n), v(x) { auto a = std::make_shared<fl::AttributeArgument>(attribute(x)); type = fern::ExpressionType(field(x) ? fern::DataTypes::STATIC_FIELD : fern::DataTypes::CONSTANT, std::visit([](auto const& y) { using T = std::decay_t<decltype(y)>; if constexpr (is_field<T>::value) return fern::TypeTraits<typename T::type>::value_types; else return fern::TypeTraits<T>::value_types; }, x)); }
    ~Source() = default;
    fern::ExpressionType const& expression_type() const override { return type; }
    std::shared_ptr<fl::Argument> read() const override { ++reads; effects.push_back("read " + name); return std::make_shared<fl::AttributeArgument>(attribute(v)); }
};
struct Sink : fl::DataSync {
    S name; std::vector<std::pair<S, Item>> const* expected = nullptr; std::vector<std::shared_ptr<fl::Attribute>> written;
    Sink(S const& n) : name(n) {}
    ~Sink() = default;
    void write(fl::Argument const& a) override { effects.push_back("write " + name); auto p = dynamic_cast<fl::AttributeArgument const*>(&a); written.push_back(p ? p->attribute() : nullptr); }
};

// ---------------------------------------------------------------- model
struct Failure { S message; };
struct World {   // What is known between executions.
    S dir;
    std::map<S, Item> names;
    std::map<S, std::map<S, Val>> gnr;   // file, path
    std::map<S, Val> tif;                // file
    std::vector<Item> stack;
};
struct Run {   // One execution.
    World& w;
    std::map<S, std::shared_ptr<Source>> sources; std::map<S, bool> read;
    std::vector<S> effects;
    void eval(Ex const& e, std::vector<Item>& out) {
        if (e.kind == Ex::Lit || e.kind == Ex::Str) { out.push_back({e.v, ""}); return; }
        if (e.kind == Ex::Name) {
            auto it = w.names.find(e.text);
            if (it == w.names.end()) { auto s = sources.at(e.text); effects.push_back("read " + e.text); w.names[e.text] = Item{s->v, ""}; it = w.names.find(e.text); }
            out.push_back(it->second); return;
        }
        std::vector<Item> a;
        for (auto& k : e.kids) eval(k, a);
        if (e.text == "abs") { out.push_back({absolute(a.at(0).v), ""}); return; }
        if (e.text == "read") {
            S n = std::get<S>(a.at(0).v); size_t c = n.find(':'); S file = n.substr(0, c), path = c == S::npos ? "/" : "/" + n.substr(c + 1);
            auto g = w.gnr.find(file); auto t = w.tif.find(file);
            if (g != w.gnr.end()) {
                auto v = g->second.find(path);
                if (v == g->second.end()) throw Failure{"I/O error handling " + file + ": Does not contain data: " + path};
                out.push_back({v->second, ""}); return;
            }
            if (t != w.tif.end()) {
                S stem = std::filesystem::path(file).stem().string();
                if (path == "/" + stem) out.push_back({t->second, stem});
                else if (path == "/" + stem + "/" + stem) out.push_back({t->second, ""});
                else throw Failure{"I/O error handling " + file + ": Does not contain data: " + path};
                return;
            }
            throw Failure{"I/O error handling " + file + ": Cannot be read"};
        }
        if (e.text == "write") {
            S n = std::get<S>(a.at(1).v), format = std::get<S>(a.at(2).v); size_t c = n.find(':'); S file = n.substr(0, c), path = "/" + n.substr(c + 1);
            if (format == "Fern") {
                if (file.find("/nowhere/") != S::npos) throw Failure{"I/O error handling " + file + ": Cannot be written"};
                w.gnr[file][path] = a[0].v;
            }
            else if (format == "GTiff") w.tif[file] = a[0].v;
            else throw Failure{"I/O error handling " + file + ": No such driver: " + format};
            return;
        }
        abort();
    }
};

// -------------------------------------------------------------- generation
struct Gen {
    Rng& r; World w; Run run; S dir; int line = 1; size_t& serial;
    Gen(Rng& r_, World const& w_, std::map<S, std::shared_ptr<Source>> const& s, size_t& n) : r(r_), w(w_), run{w, s, {}, {}}, dir(w_.dir), serial(n) { for (auto& p : s) w.names.erase(p.first); }
    Gen(Gen const&) = delete;
    void place(Ex& e) { e.line = line; e.col = int(r.below(80)); }
    Ex lit(Val const& v) { Ex e; e.kind = std::holds_alternative<S>(v) ? Ex::Str : Ex::Lit; e.v = v; place(e); return e; }
    Ex str(S const& s) { return lit(Val(s)); }
    Ex call(S const& n, std::vector<Ex> k) { Ex e; e.kind = Ex::Call; e.text = n; e.kids = std::move(k); place(e); return e; }
    Ex name(S const& n) { Ex e; e.kind = Ex::Name; e.text = n; place(e); return e; }
    // Names with values that satisfy a condition.
    template<class F> std::vector<S> such(F f) {
        std::vector<S> v;
        for (auto& p : w.names) if (p.second.feature.empty() && f(p.second.v)) v.push_back(p.first);
        for (auto& p : run.sources) if (!w.names.count(p.first) && f(p.second->v)) v.push_back(p.first);
        return v;
    }
    Ex number(int depth) {
        if (depth > 0 && r.chance(40)) return call("abs", {number(depth - 1)});
        auto n = such([](Val const& v) { return numeric(v); });
        if (!n.empty() && r.chance(60)) return name(r.pick(n));
        if (r.chance(25)) { std::vector<S> all; for (auto& f : w.gnr) for (auto& p : f.second) if (numeric(p.second)) all.push_back(f.first + ":" + p.first.substr(1)); for (auto& t : w.tif) { S s = std::filesystem::path(t.first).stem().string(); all.push_back(t.first + ":" + s + "/" + s); } if (!all.empty()) return call("read", {str(r.pick(all))}); }
        int const kinds[] = {0, 0, 0, 1, 1, 3, 4, 5, 6, 7, 8, 9, 10};
        return lit(value(r, kinds[r.below(13)]));
    }
    Ex expr() {
        if (r.chance(20)) { auto n = such([](Val const&) { return true; }); if (!n.empty()) return name(r.pick(n)); }
        if (r.chance(15)) return lit(value(r, 2));
        return number(int(r.below(4)));
    }
    S fresh() { return std::string(1, char('a' + r.below(r.chance(50) ? 5 : 20))); }
    // Statements with an effect on files.
    bool write(std::vector<St>& p) {
        Ex v; S n, format = "Fern";
        auto f = such([](Val const& x) { return gdal(x); });
        auto c = such([](Val const& x) { return numeric(x) && !field(x); });
        if (!f.empty() && r.chance(50)) { v = name(r.pick(f)); if (r.chance(50)) v = call("abs", {v}); S s = "t" + std::to_string(serial++); n = dir + "/" + s + ".tif:" + s + "/" + s; format = "GTiff"; }
        else if (r.chance(70) || c.empty()) {
            int const kinds[] = {0, 1, 3, 4, 5, 6, 7, 8, 9, 10};
            v = c.empty() || r.chance(50) ? lit(value(r, kinds[r.below(10)])) : name(r.pick(c));
            if (r.chance(30)) v = call("abs", {v});
            n = dir + "/g" + std::to_string(r.below(3)) + ".gnr:f" + std::to_string(r.below(2)) + "/" + (r.chance(20) ? "h/" : "") + "x" + std::to_string(serial++);
        }
        else return false;
        St s; s.ex = call("write", {v, str(n), str(format)});
        if (r.chance(20)) { St q; q.assign = true; q.target = "path"; q.ex = str(n); push(p, q); s.ex.kids[1] = name("path"); }
        push(p, s);
        return true;
    }
    void push(std::vector<St>& p, St s) {
        s.line = line; s.col = int(r.below(5));
        p.push_back(s);
        std::vector<Item> out;
        run.eval(s.ex, out);
        if (s.assign) w.names[s.target] = out.at(0);
        ++line;
    }
    std::vector<St> program() {
        std::vector<St> p;
        for (size_t i = r.below(9); i; --i) {
            if (r.chance(20) && write(p)) continue;
            St s; s.assign = r.chance(65); s.target = fresh();
            if (r.chance(10)) { if (w.tif.empty()) continue; auto it = w.tif.begin(); std::advance(it, long(r.below(w.tif.size()))); s.ex = call("read", {str(it->first + ":" + std::filesystem::path(it->first).stem().string())}); }
            else s.ex = expr();
            push(p, s);
            if (r.chance(10)) ++line;
        }
        return p;
    }
};

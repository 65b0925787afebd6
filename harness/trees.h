// Random program trees, built of vertices, and their text.
#pragma once
#include <cassert>
#include <string>
#include <vector>
#include <iostream>
#include <memory>
#include "vh.h"
#include "fern/core/exception.h"
#include "fern/core/type_traits.h"
#include "fern/language/ast/core/vertices.h"
using namespace vh;
namespace fl = fern::language;
using S = std::string;
using V = fl::AstVertex const*;

// ------------------------------------------------------------- the programs
struct Expr; struct Stmt;
using E = std::shared_ptr<Expr>; using T = std::shared_ptr<Stmt>;
enum EK { Name, Number, String, Call, Oper, Subscript, Attribute };
enum SK { Eval, Assign, If, While, Def, Return };
struct Expr { EK kind; S name, type; long long i = 0; unsigned long long u = 0; double d = 0; int line = 0, col = 0; std::vector<E> kids; fl::ExpressionVertexPtr v; };
struct Stmt { SK kind; S name; E target, value; std::vector<E> params; std::vector<T> body, other; std::shared_ptr<fl::StatementVertex> v; std::shared_ptr<fl::ScopeVertex> sa, sb; };
struct Module { std::vector<T> body; std::shared_ptr<fl::ScopeVertex> scope; fl::ModuleVertexPtr v; };
static std::vector<std::pair<S, S>> const unary{{"Invert", "~"}, {"Not", "!"}, {"UnaryAdd", "+"}, {"UnarySub", "-"}};
static std::vector<std::pair<S, S>> const binary{{"add", "+"}, {"Sub", "-"}, {"Mult", "*"}, {"Div", "/"}, {"Mod", "%"}, {"Pow", "**"},
    {"LShift", "<<"}, {"RShift", ">>"}, {"BitOr", "|"}, {"BitXor", "^"}, {"BitAnd", "&"}, {"FloorDiv", "//"}, {"And", "and"}, {"Or", "or"},
    {"Eq", "=="}, {"NotEq", "!="}, {"Lt", "<"}, {"LtE", "<="}, {"Gt", ">"}, {"GtE", ">="}};

// ------------------------------------------------------------- building vertices
static std::shared_ptr<fl::ScopeVertex> build(std::vector<T> const& b);
static fl::ExpressionVertexPtr build(E const& e) {
    fl::ExpressionVertices kids;
    for (auto& k : e->kids) kids.push_back(build(k));
    fl::ExpressionVertexPtr v;
    switch (e->kind) {
        case Name: v = std::make_shared<fl::NameVertex>(e->name); break;
        case String: v = std::make_shared<fl::StringVertex>(e->line, e->col, e->name); break;
        case Call: v = std::make_shared<fl::FunctionCallVertex>(e->name, kids); break;
        case Oper: v = std::make_shared<fl::OperatorVertex>(e->name, kids); break;
        case Subscript: v = std::make_shared<fl::SubscriptVertex>(kids[0], kids[1]); break;
        case Attribute: v = std::make_shared<fl::AttributeVertex>(kids[0], e->name); break;
        case Number:
            if (e->type == "i8") v = std::make_shared<fl::NumberVertex<int8_t>>(int8_t(e->i));
            else if (e->type == "i16") v = std::make_shared<fl::NumberVertex<int16_t>>(int16_t(e->i));
            else if (e->type == "i32") v = std::make_shared<fl::NumberVertex<int32_t>>(int32_t(e->i));
            else if (e->type == "i64") v = std::make_shared<fl::NumberVertex<int64_t>>(int64_t(e->i));
            else if (e->type == "u8") v = std::make_shared<fl::NumberVertex<uint8_t>>(uint8_t(e->u));
            else if (e->type == "u16") v = std::make_shared<fl::NumberVertex<uint16_t>>(uint16_t(e->u));
            else if (e->type == "u32") v = std::make_shared<fl::NumberVertex<uint32_t>>(uint32_t(e->u));
            else if (e->type == "u64") v = std::make_shared<fl::NumberVertex<uint64_t>>(uint64_t(e->u));
            else if (e->type == "f32") v = std::make_shared<fl::NumberVertex<float>>(float(e->d));
            else v = std::make_shared<fl::NumberVertex<double>>(e->d);
    }
    v->set_position(e->line, e->col);
    return e->v = v;
}
static void build(T const& t) {
    if (t->value) build(t->value);
    if (t->target) build(t->target);
    fl::ExpressionVertices params;
    for (auto& p : t->params) params.push_back(build(p));
    if (t->kind == If || t->kind == While || t->kind == Def) { t->sa = build(t->body); t->sb = build(t->other); }
    switch (t->kind) {
        case Eval: t->v = t->value->v; break;
        case Assign: t->v = std::make_shared<fl::AssignmentVertex>(t->target->v, t->value->v); break;
        case If: t->v = std::make_shared<fl::IfVertex>(t->value->v, t->sa, t->sb); break;
        case While: t->v = std::make_shared<fl::WhileVertex>(t->value->v, t->sa, t->sb); break;
        case Def: t->v = std::make_shared<fl::FunctionDefinitionVertex>(t->name, params, t->sa); break;
        case Return: t->v = t->value ? std::make_shared<fl::ReturnVertex>(t->value->v) : std::make_shared<fl::ReturnVertex>(); break;
    }
}
static std::shared_ptr<fl::ScopeVertex> build(std::vector<T> const& b) {
    fl::StatementVertices s;
    for (auto& t : b) { build(t); s.push_back(t->v); }
    return std::make_shared<fl::ScopeVertex>(s);
}
static void build(Module& m) { m.scope = build(m.body); m.v = std::make_shared<fl::ModuleVertex>("<string>", m.scope); }

// ------------------------------------------------------------- random programs
struct Want { bool whiles = true, ifs = true, defs = false, sub = true; int names = 6; std::vector<S> calls{"f", "g", "abs"}; };
static S ident(Rng& r, int n) { static char const* w[] = {"a", "b", "dem", "slope_2", "x", "y1", "Z", "wind", "veg", "q"}; return w[r.below(std::min(n, 10))]; }
static E make(EK k, Rng& r) { auto e = std::make_shared<Expr>(); e->kind = k; e->line = int(r.below(100)); e->col = int(r.below(80)); return e; }
static E name(Rng& r, Want const& w) { E e = make(Name, r); e->name = ident(r, w.names); return e; }
template<class X> X edge(Rng& r) {
    if (r.chance(20)) return std::numeric_limits<X>::max(); if (r.chance(20)) return std::numeric_limits<X>::min();
    if (r.chance(40)) return X(r.below(100)); return X(r.next());
}
static E number(Rng& r) {
    E e = make(Number, r);
    static char const* types[] = {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"};
    e->type = types[r.below(10)];
    if (e->type == "i8") e->i = edge<int8_t>(r); else if (e->type == "i16") e->i = edge<int16_t>(r); else if (e->type == "i32") e->i = edge<int32_t>(r); else if (e->type == "i64") e->i = edge<int64_t>(r);
    else if (e->type == "u8") e->u = edge<uint8_t>(r); else if (e->type == "u16") e->u = edge<uint16_t>(r); else if (e->type == "u32") e->u = edge<uint32_t>(r); else if (e->type == "u64") e->u = edge<uint64_t>(r);
    else { e->d = (r.unit() - 0.3) * std::pow(10.0, double(r.range(-8, 12))); if (r.chance(30)) e->d = double(r.below(1000)) / 4; if (e->type == "f32") e->d = float(e->d); }
    return e;
}
static E expression(Rng& r, Want const& w, int depth) {
    int k = depth <= 0 ? int(r.below(3)) : int(r.below(8));
    if (k == 0 || k == 3) return name(r, w);
    if (k == 1) { E e = make(String, r); static char const* s[] = {"", "five", "a b", "1 = 2", "if x:", "(a)", "\xc3\xa9", "%1%", "data/dem.map"}; e->name = s[r.below(9)]; return e; }
    if (k == 2) return number(r);
    if (k == 4) { E e = make(Call, r); e->name = r.pick(w.calls); int n = int(r.below(4)); for (int i = 0; i < n; ++i) e->kids.push_back(expression(r, w, depth - 1)); return e; }
    if (k == 5 || !w.sub) {
        E e = make(Oper, r); bool one = r.chance(30); e->name = one ? r.pick(unary).first : r.pick(binary).first;
        e->kids.push_back(expression(r, w, depth - 1)); if (!one) e->kids.push_back(expression(r, w, depth - 1)); return e;
    }
    if (k == 6) { E e = make(Subscript, r); e->kids = {expression(r, w, depth - 1), expression(r, w, depth - 1)}; return e; }
    E e = make(Attribute, r); e->name = ident(r, 10); e->kids = {expression(r, w, depth - 1)}; return e;
}
static std::vector<T> block(Rng& r, Want const& w, int depth, size_t least, size_t most);
static T statement(Rng& r, Want const& w, int depth) {
    auto t = std::make_shared<Stmt>();
    int k = int(r.below(10));
    if (depth > 0 && k == 0 && w.ifs) t->kind = If;
    else if (depth > 0 && k == 1 && w.whiles) t->kind = While;
    else if (k < 4) t->kind = Eval;
    else t->kind = Assign;
    t->value = expression(r, w, r.chance(5) ? 6 : int(r.below(4)));
    if (t->kind == Assign) t->target = name(r, w);
    if (t->kind == If || t->kind == While) { t->body = block(r, w, depth - 1, 1, 4); if (r.chance(50)) t->other = block(r, w, depth - 1, 1, 4); }
    return t;
}
static std::vector<T> block(Rng& r, Want const& w, int depth, size_t least, size_t most) {
    std::vector<T> b; size_t n = least + r.below(most - least + 1);
    for (size_t i = 0; i < n; ++i) b.push_back(statement(r, w, depth));
    return b;
}

// ------------------------------------------------------------- text of the model, for reports and for the reader
static S symbol(Expr const& e) { for (auto& p : e.kids.size() == 1 ? unary : binary) if (p.first == e.name) return p.second; return "?"; }
static S num(Expr const& e) {
    std::ostringstream o;
    if (e.type[0] == 'i') o << "n" << e.i; else if (e.type[0] == 'u') o << "n" << e.u << "U"; else { o.precision(6); o << "n" << e.d; }
    return o.str();
}
static S show(E const& e) {
    S k; for (size_t i = 0; i < e->kids.size(); ++i) k += (i ? " " : "") + show(e->kids[i]);
    switch (e->kind) {
        case Name: return "$" + e->name; case String: return "'" + e->name + "'"; case Number: return num(*e);
        case Call: return "call:" + e->name + "{" + k + "}"; case Oper: return "op" + std::to_string(e->kids.size()) + ":" + symbol(*e) + "{" + k + "}";
        case Subscript: return "sub{" + k + "}"; case Attribute: return "att:" + e->name + "{" + k + "}";
    }
    return "";
}
static S show(std::vector<T> const& b) {
    S s = "[";
    for (auto& t : b) {
        switch (t->kind) {
            case Eval: s += show(t->value); break;
            case Assign: s += show(t->target) + ":=" + show(t->value); break;
            case If: s += "if " + show(t->value) + show(t->body) + "else" + show(t->other); break;
            case While: s += "while " + show(t->value) + show(t->body) + "else" + show(t->other); break;
            case Def: s += "def " + t->name + show(t->body); break;
            case Return: s += "return " + (t->value ? show(t->value) : S("-")); break;
        }
        s += ";";
    }
    return s + "]";
}

// C30: graphs of programs with branches, loops, functions and subscripts, drawn
// by the visitors that draw for the command.
#include "trees.h"
#include "dot.h"
#include "fern/language/ast/visitor/ast_dot_visitor.h"
#include "fern/language/ast/visitor/flowgraph_dot_visitor.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"

static bool has(E const& e, EK k) { if (e->kind == k) return true; for (auto& c : e->kids) if (has(c, k)) return true; return false; }
static bool has(std::vector<T> const& b, EK k) {
    for (auto& t : b) if ((t->value && has(t->value, k)) || has(t->body, k) || has(t->other, k)) return true;
    return false;
}
static S label(E const& e) {
    switch (e->kind) {
        case String: return "\"" + e->name + "\"";
        case Name: case Call: return e->name;
        case Oper: return symbol(*e);
        case Subscript: return "[]";
        default: break;
    }
    std::ostringstream o;
    if (e->type[0] == 'i') o << e->i; else if (e->type[0] == 'u') o << e->u; else if (e->type == "f32") o << float(e->d); else o << e->d;
    return o.str();
}
using Pair = std::pair<S, S>;
struct Want_ { std::multiset<S> nodes; std::multiset<Pair> edges, flow, uses; size_t parts = 0; std::map<V, S> names; };

// ------------------------------------------------------------ syntax
static void expect(E const& e, Want_& w) {
    S l = label(e); w.nodes.insert(l); w.names[e->v.get()] = l;
    for (auto& k : e->kids) { w.edges.insert({l, label(k)}); expect(k, w); }
}
static S label(T const& t) { switch (t->kind) { case Eval: return label(t->value); case Assign: return "="; case If: return "If"; case While: return "While"; case Def: return t->name; default: return "return"; } }
static void expect(std::vector<T> const& b, fl::ScopeVertex const* s, Want_& w) {
    ++w.parts; w.nodes.insert("scope"); w.nodes.insert("sentinel"); w.names[s] = "scope"; w.names[s->sentinel().get()] = "sentinel";
    for (auto& t : b) {
        S l = label(t); w.edges.insert({"scope", l});
        if (t->kind == Eval) { expect(t->value, w); continue; }
        w.nodes.insert(l); w.names[t->v.get()] = l;
        if (t->target) { w.edges.insert({l, label(t->target)}); expect(t->target, w); }
        if (t->value) { w.edges.insert({l, label(t->value)}); expect(t->value, w); }
        if (t->sa && t->kind != Return) expect(t->body, t->sa.get(), w);
        if (t->sb && (t->kind == If || t->kind == While)) expect(t->other, t->sb.get(), w);
    }
}
// ------------------------------------------------------------ flow of values
// What the value of an expression comes from: itself, or the definitions of a name.
static std::vector<E> sources(E const& e, std::map<V, E> const& all) {
    if (e->kind != Name) return {e};
    auto const& d = static_cast<fl::NameVertex&>(*e->v).definitions();
    if (d.empty()) return {e};
    std::vector<E> o; for (auto x : d) o.push_back(all.at(x));
    return o;
}
static void collect(E const& e, std::map<V, E>& o) { o[e->v.get()] = e; for (auto& k : e->kids) collect(k, o); }
static void collect(std::vector<T> const& b, std::map<V, E>& o) { for (auto& t : b) { if (t->value) collect(t->value, o); if (t->target) collect(t->target, o); collect(t->body, o); collect(t->other, o); } }
static void values(E const& e, std::map<V, E> const& all, Want_& w) {
    if (e->kind == Name) { auto const& d = static_cast<fl::NameVertex&>(*e->v).definitions(); if (d.empty() || std::find(d.begin(), d.end(), e->v.get()) != d.end()) w.nodes.insert(e->name); }
    else w.nodes.insert(label(e));
    for (auto& k : e->kids) { for (auto& s : sources(k, all)) w.edges.insert({label(s), label(e)}); values(k, all, w); }
}
static void values(std::vector<T> const& b, std::map<V, E> const& all, Want_& w) {
    for (auto& t : b) {
        values(t->value, all, w);
        if (t->target) { for (auto& s : sources(t->value, all)) w.edges.insert({label(s), label(t->target)}); values(t->target, all, w); }
        if (t->kind == If) { w.nodes.insert("If"); ++w.parts; values(t->body, all, w); if (!t->other.empty()) { ++w.parts; values(t->other, all, w); } }
    }
}
template<class A> static S differs(A const& got, A const& want) { return got.size() == want.size() ? "as many, but others" : std::to_string(got.size()) + " instead of " + std::to_string(want.size()); }

static void draw(Rng& r, bool syntax) {
    Want w; w.whiles = syntax; w.defs = syntax; Module m;
    auto cut = [](S s) { if (s.size() > 500) s = s.substr(0, 500) + "..."; return s; };
    do {
        m.body = block(r, w, 3, 0, 6);
        if (syntax && r.chance(30)) {
            auto t = std::make_shared<Stmt>(); t->kind = Def; t->name = "fun"; t->body = block(r, w, 1, 1, 3);
            if (r.chance(70)) { auto q = std::make_shared<Stmt>(); q->kind = Return; if (r.chance(70)) q->value = expression(r, w, 1); t->body.push_back(q); }
            m.body.insert(m.body.begin() + r.below(m.body.size() + 1), t);
        }
    } while (has(m.body, Attribute));
    build(m);
    int modes = 0; bool flow = false, uses = false, loops = false;
    std::function<void(std::vector<T> const&)> look = [&](std::vector<T> const& b) { for (auto& t : b) { loops = loops || t->kind == While; look(t->body); look(t->other); } };
    look(m.body);
    S const id = cut(show(m.body)); mon().at((syntax ? "syntax " : "values ") + id); mon().seen((syntax ? "s" : "v") + id, !m.body.empty());
    fl::IdentifyVisitor iv; m.v->Accept(iv);
    S script; Want_ want;
    if (syntax) {
        flow = !loops && r.chance(50); uses = r.chance(50);
        if (flow) { fl::ThreadVisitor t; m.v->Accept(t); modes |= fl::AstDotVisitor::ConnectingCfg; }
        if (uses) modes |= fl::AstDotVisitor::ConnectingUses;
        fl::AstDotVisitor v(modes); m.v->Accept(v); script = v.script();
        if (r.chance(20)) { m.v->Accept(v); if (v.script() != script) mon().violation("drawn-again", "another graph: " + id); }
        expect(m.body, m.scope.get(), want);
        for (auto& n : want.names) {
            if (!dynamic_cast<fl::ReturnVertex const*>(n.first) && (dynamic_cast<fl::ExpressionVertex const*>(n.first) || dynamic_cast<fl::AssignmentVertex const*>(n.first)) && n.second != "scope" && n.second != "sentinel") for (auto s : n.first->successors()) { auto q = want.names.find(s); want.flow.insert({n.second, q == want.names.end() ? "?" : q->second}); }
            if (auto x = dynamic_cast<fl::NameVertex const*>(n.first)) for (auto u : x->uses()) want.uses.insert({x->name(), u->name()});
        }
    }
    else {
        fl::FlowgraphDotVisitor v; m.v->Accept(v); script = v.script();
        if (r.chance(20)) { m.v->Accept(v); if (dot(v.script()).nodes.size() != dot(script).nodes.size()) mon().violation("drawn-again", "another graph: " + id); }
        std::map<V, E> all; collect(m.body, all); values(m.body, all, want);
    }
    Graph g = dot(script); S const kind = syntax ? "syntax-" : "values-";
    if (!g.trouble.empty()) { mon().violation(kind + "form", g.trouble + ": " + id); return; }
    std::map<S, S> labels; Want_ got; got.parts = g.parts.size();
    for (auto& n : g.nodes) { S l = n.a.count("label") ? n.a.at("label") : S(); if (syntax && l[0] != '\\') l = l.substr(0, l.find("\\ndt: ")); l = decode(l); labels[n.id] = l; got.nodes.insert(l); }
    for (auto& e : g.edges) {
        auto c = e.a.find("color"); Pair p{labels[e.from], labels[e.to]};
        if (c == e.a.end()) got.edges.insert(p); else if (c->second == "/spectral11/8") got.uses.insert(p); else got.flow.insert(p);
    }
    if (got.nodes != want.nodes) mon().violation(kind + "vertices", differs(got.nodes, want.nodes) + ": " + id);
    else if (got.edges != want.edges) mon().violation(kind + "edges", differs(got.edges, want.edges) + ": " + id);
    else if (got.parts != want.parts) mon().violation(kind + "parts", std::to_string(got.parts) + " instead of " + std::to_string(want.parts) + ": " + id);
    if (flow) { for (auto& p : want.flow) if (!got.flow.count(p)) { mon().violation("flow-missing", p.first + " to " + p.second + ": " + id); break; } } else if (!got.flow.empty()) mon().violation("flow-unasked", id);
    if (uses ? got.uses != want.uses : !got.uses.empty()) mon().violation("uses", differs(got.uses, want.uses) + ": " + id);
    mon().count("graphs of branches", 1); mon().count("nodes", got.nodes.size()); mon().count("edges", got.edges.size()); mon().count("edges of flow and use", got.flow.size() + got.uses.size());
}
int main(int argc, char** argv) {
    mon().init(argc, argv);
    if (mon().want("syntax")) { Rng r = mon().rng("syntax"); for (size_t i = 0, n = mon().n(1500, 40000); i < n; ++i) draw(r, true); }
    if (mon().want("values")) { Rng r = mon().rng("values"); for (size_t i = 0, n = mon().n(1500, 40000); i < n; ++i) draw(r, false); }
    return mon().finish();
}

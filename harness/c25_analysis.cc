// C25: what the analyses of a program (order of evaluation, definitions and
// uses, inputs and outputs, types, validation, source text) report about it.
#include <cassert>
#include <string>
#include <vector>
#include <iostream>
#include <memory>
#include <csignal>
#include <sys/wait.h>
#include "trees.h"
#include "fern/language/ast/visitor/annotate_visitor.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/io_visitor.h"
#include "fern/language/ast/visitor/module_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"
#include "fern/language/ast/visitor/validate_visitor.h"
#include "fern/language/operation/core/operations.h"
using fern::DataTypes; using fern::ValueTypes; using fern::ExpressionType;

// ------------------------------------------------------------- A: order in which a visitor meets the vertices
struct Order : fl::AstVisitor { std::vector<V> met; void Visit(fl::AstVertex& v) override { met.push_back(&v); } };
static void order(E const& e, std::vector<V>& o) { for (auto& k : e->kids) order(k, o); o.push_back(e->v.get()); }
static void order(std::vector<T> const& b, fl::ScopeVertex const* s, std::vector<V>& o) {
    for (auto& t : b) {
        if (t->kind == Eval) { order(t->value, o); continue; }
        if (t->kind == Assign) { order(t->value, o); order(t->target, o); }
        else { if (t->value) order(t->value, o); for (auto& p : t->params) order(p, o); if (t->sa) order(t->body, t->sa.get(), o); if (t->sb && t->kind != Def) order(t->other, t->sb.get(), o); }
        o.push_back(t->v.get());
    }
    o.push_back(s->sentinel().get()); o.push_back(s);
}

// ------------------------------------------------------------- B: flow of control
// Every construct has a first vertex and a vertex control leaves it by; both
// are found from the model alone and the edges between them collected.
using Edges = std::map<V, std::vector<V>>;
struct Flow {
    Edges edges;
    std::vector<std::map<S, T>> known;   // functions that can be called here
    std::vector<V> ends;                 // where the enclosing functions end
    void edge(V a, V b) { if (a) edges[a].push_back(b); }
    // returns the vertex control is at after the construct; from: where it comes from (or none)
    V expr(E const& e, V from) {
        for (auto& k : e->kids) from = expr(k, from);
        edge(from, e->v.get());
        if (e->kind == Call) for (size_t i = known.size(); i-- > 0;) { auto it = known[i].find(e->name); if (it != known[i].end()) { edge(e->v.get(), it->second->v.get()); return it->second->sa->sentinel().get(); } }
        return e->v.get();
    }
    void body(std::vector<T> const& b, fl::ScopeVertex const* s, V from) {
        known.emplace_back();
        for (auto& t : b) if (t->kind == Def) {
            V at = t->v.get();
            for (auto& p : t->params) { edge(at, p->v.get()); at = p->v.get(); }
            ends.push_back(t->sa->sentinel().get());
            body(t->body, t->sa.get(), at);
            ends.pop_back();
            known.back()[t->name] = t;
        }
        edge(from, s);
        V at = s;
        for (auto& t : b) switch (t->kind) {
            case Def: break;
            case Eval: at = expr(t->value, at); break;
            case Assign: at = expr(t->value, at); edge(at, t->target->v.get()); edge(t->target->v.get(), t->v.get()); at = t->v.get(); break;
            case Return: if (t->value) at = expr(t->value, at); edge(at, t->v.get()); edge(t->v.get(), ends.back()); at = nullptr; break;
            case If: {
                at = expr(t->value, at); edge(at, t->v.get());
                V end = static_cast<fl::IfVertex const&>(*t->v).sentinel().get();
                body(t->body, t->sa.get(), t->v.get()); edge(t->sa->sentinel().get(), end);
                if (!t->other.empty()) { body(t->other, t->sb.get(), t->v.get()); edge(t->sb->sentinel().get(), end); }
                at = end; break;
            }
            case While: break;
        }
        edge(at, s->sentinel().get());
        known.pop_back();
    }
};

static void every(std::vector<T> const& b, fl::ScopeVertex const* s, std::vector<V>& o) {
    order(b, s, o);
    struct { void ends(std::vector<T> const& b, std::vector<V>& o) { for (auto& t : b) { if (t->kind == If) o.push_back(static_cast<fl::IfVertex const&>(*t->v).sentinel().get()); ends(t->body, o); ends(t->other, o); } } } m;
    m.ends(b, o);
}
// a program with functions; every function is called at most once
struct FlowGen {
    Rng& r; Want w; int made = 0;
    std::vector<S> uncalled;             // defined in this or an enclosing scope, not called yet
    E expr(int depth) {
        if (!uncalled.empty() && r.chance(25)) {
            E e = make(Call, r); size_t i = r.below(uncalled.size()); e->name = uncalled[i]; uncalled.erase(uncalled.begin() + i);
            int n = int(r.below(3)); for (int j = 0; j < n; ++j) e->kids.push_back(expr(depth - 1));
            return e;
        }
        E e = expression(r, w, depth <= 0 ? 0 : int(r.below(3)));
        return e;
    }
    std::vector<T> body(int depth, bool inside, size_t least) {
        std::vector<T> b; size_t n = least + r.below(5);
        std::vector<S> outer = uncalled, mine;
        std::vector<T> defs;
        if (depth > 0) for (size_t i = r.below(3); i-- > 0;) {
            auto t = std::make_shared<Stmt>(); t->kind = Def; t->name = "fun" + std::to_string(made++);
            int np = int(r.below(4)); for (int j = 0; j < np; ++j) t->params.push_back(name(r, w));
            t->body = body(depth - 1, true, 1);
            defs.push_back(t); uncalled.push_back(t->name); mine.push_back(t->name);
        }
        for (size_t i = 0; i < n; ++i) {
            auto t = std::make_shared<Stmt>(); int k = int(r.below(10));
            if (inside && k == 0) { t->kind = Return; if (r.chance(70)) t->value = expr(2); }
            else if (depth > 0 && k < 3) { t->kind = If; t->value = expr(2); t->body = body(depth - 1, inside, 1); if (r.chance(50)) t->other = body(depth - 1, inside, 1); }
            else if (k < 6) { t->kind = Eval; t->value = expr(3); }
            else { t->kind = Assign; t->value = expr(3); t->target = name(r, w); }
            b.push_back(t);
        }
        // definitions stand anywhere in the scope, keeping their own order
        size_t at = 0;
        for (auto& d : defs) { at += r.below(b.size() - at + 1); b.insert(b.begin() + at, d); ++at; }
        // what was defined here is out of sight now
        for (auto& m : mine) for (size_t i = 0; i < uncalled.size(); ++i) if (uncalled[i] == m) { uncalled.erase(uncalled.begin() + i); break; }
        return b;
    }
};
static void judge_flow(Module& m, S const& id) {
    Flow f; f.edge(m.v.get(), m.scope.get());
    f.edges.clear();
    f.body(m.body, m.scope.get(), m.v.get());
    f.edge(m.scope->sentinel().get(), m.v.get());
    std::vector<V> vs; every(m.body, m.scope.get(), vs); vs.push_back(m.v.get());
    size_t n = 0;
    for (V v : vs) {
        std::vector<V> want = f.edges.count(v) ? f.edges[v] : std::vector<V>{}, got(v->successors().begin(), v->successors().end());
        n += want.size();
        if (got != want) { std::ostringstream o; o << "vertex " << (std::find(vs.begin(), vs.end(), v) - vs.begin()) << " has " << got.size() << " successors, expected " << want.size() << (got.size() == want.size() ? " (others)" : "") << ": " << id; mon().violation("flow-edges", o.str()); return; }
    }
    mon().count("flow edges", n);
}

// ------------------------------------------------------------- C: definitions and uses
struct Uses {
    std::vector<std::map<S, fl::NameVertex const*>> scopes;
    std::map<V, std::vector<V>> defs, uses; std::vector<V> names;
    void use(E const& e) {
        for (auto& k : e->kids) use(k);
        if (e->kind != Name) return;
        names.push_back(e->v.get());
        for (size_t i = scopes.size(); i-- > 0;) { auto it = scopes[i].find(e->name); if (it != scopes[i].end()) { defs[e->v.get()].push_back(it->second); uses[it->second].push_back(e->v.get()); return; } }
    }
    void body(std::vector<T> const& b) {
        scopes.emplace_back();
        for (auto& t : b) {
            use(t->value);
            if (t->kind == Assign) { auto n = static_cast<fl::NameVertex const*>(t->target->v.get()); names.push_back(n); defs[n].push_back(n); scopes.back()[t->target->name] = n; }
            if (t->kind == If || t->kind == While) { body(t->body); body(t->other); }
        }
        scopes.pop_back();
    }
};

// ------------------------------------------------------------- D: inputs and outputs
struct Io {
    std::vector<S> order;                        // names in order of first use
    std::set<S> input, known, unclear;           // must be reported, must not, either
    std::vector<std::pair<S, V>> out;            // last assignment at module level, in order
    std::set<S> inner;                           // assigned in a branch
    std::set<S> global;                          // assigned at module level so far
    void use(E const& e) {
        for (auto& k : e->kids) use(k);
        if (e->kind != Name) return;
        if (std::find(order.begin(), order.end(), e->name) == order.end()) order.push_back(e->name);
        if (input.count(e->name)) return;
        if (global.count(e->name)) { known.insert(e->name); return; }
        if (inner.count(e->name)) { unclear.insert(e->name); return; }
        input.insert(e->name);
    }
    void body(std::vector<T> const& b, bool top) {
        for (auto& t : b) {
            use(t->value);
            if (t->kind == Assign) {
                S const& n = t->target->name;
                if (top) { global.insert(n); for (size_t i = 0; i < out.size(); ++i) if (out[i].first == n) { out.erase(out.begin() + i); break; } out.emplace_back(n, t->target->v.get()); }
                else inner.insert(n);
            }
            body(t->body, false); body(t->other, false);
        }
    }
};

// ------------------------------------------------------------- E: types and validation
struct Op : fl::Operation {
    mutable std::vector<std::vector<ExpressionType>> seen; ExpressionType answer;
    Op(S const& n, std::vector<fl::Parameter> const& p, ExpressionType const& a) : Operation(n, "made up", p, {fl::Result("r", "r", ExpressionType(DataTypes::ALL, ValueTypes::ALL))}), answer(a) {}
    ExpressionType expression_type(size_t, std::vector<ExpressionType> const& a) const override { seen.push_back(a); return answer; }
    std::vector<std::shared_ptr<fl::Argument>> execute(std::vector<std::shared_ptr<fl::Argument>> const&) const override { return {}; }
};
static ExpressionType type_of(S const& t) {
    auto V = [](ValueTypes const& v) { return ExpressionType(DataTypes::CONSTANT, v); };
    return t == "i8" ? V(ValueTypes::INT8) : t == "i16" ? V(ValueTypes::INT16) : t == "i32" ? V(ValueTypes::INT32) : t == "i64" ? V(ValueTypes::INT64) : t == "u8" ? V(ValueTypes::UINT8) : t == "u16" ? V(ValueTypes::UINT16)
        : t == "u32" ? V(ValueTypes::UINT32) : t == "u64" ? V(ValueTypes::UINT64) : t == "f32" ? V(ValueTypes::FLOAT32) : V(ValueTypes::FLOAT64);
}
static S text(ExpressionType const& t) { std::ostringstream o; o << t; return o.str(); }
struct Error { S kind, what; int line = 0, col = 0; size_t a = 0, b = 0; bool operator==(Error const& o) const { return kind == o.kind && what == o.what && line == o.line && col == o.col && a == o.a && b == o.b; }
    S show() const { std::ostringstream s; s << kind << "(" << what << " " << line << ":" << col << " " << a << "," << b << ")"; return s.str(); } };
struct Types {
    std::map<S, std::shared_ptr<Op>> ops; std::map<S, ExpressionType> known;
    std::map<V, ExpressionType> want; std::map<Op*, std::vector<std::vector<ExpressionType>>> asked; std::map<V, Op*> bound;
    std::vector<Error> errors; // in the order a reader of the program meets them
    ExpressionType expr(E const& e) {
        std::vector<ExpressionType> args;
        for (auto& k : e->kids) args.push_back(expr(k));
        ExpressionType t; auto fail = [&](S const& k, size_t a = 0, size_t b = 0) { errors.push_back(Error{k, e->name, e->line, e->col, a, b}); };
        switch (e->kind) {
            case Name: if (known.count(e->name)) t = known[e->name]; if (t.value_type() == ValueTypes() && t.data_type() == DataTypes()) fail("UndefinedIdentifier"); break;
            case Number: t = type_of(e->type); break;
            case String: t = ExpressionType(DataTypes::CONSTANT, ValueTypes::STRING); break;
            default: {
                auto it = ops.find(e->name);
                if (it == ops.end()) { fail("UndefinedOperation"); break; }
                Op* op = it->second.get(); bound[e->v.get()] = op;
                if (op->arity() != args.size()) { fail("WrongNumberOfArguments", op->arity(), args.size()); break; }
                asked[op].push_back(args); t = op->answer;
                for (size_t i = 0; i < args.size(); ++i) if (!op->parameters()[i].expression_types().is_satisfied_by(fl::ExpressionTypes({args[i]}))) { fail("WrongTypeOfArgument", i + 1); break; }
            }
        }
        return want[e->v.get()] = t;
    }
    void body(std::vector<T> const& b) {
        for (auto& t : b) {
            ExpressionType x = expr(t->value);
            if (t->kind == Assign) {
                known[t->target->name] = x; want[t->target->v.get()] = x;
                if (!(x.data_type().count() || x.value_type().count())) errors.push_back(Error{"UndefinedIdentifier", t->target->name, t->target->line, t->target->col});
            }
        }
    }
};
template<class I, class X> typename I::value_type info(X const& x) { auto p = boost::get_error_info<I>(x); return p ? *p : typename I::value_type(); }
static Error caught(fl::ModuleVertexPtr const& m) {
    fl::ValidateVisitor v; Error e;
    auto at = [&](auto const& x) { e.line = int(info<fern::detail::ExceptionLineNr>(x)); e.col = int(info<fern::detail::ExceptionColNr>(x)); };
    try { m->Accept(v); }
    catch (fern::detail::UndefinedIdentifier const& x) { e.kind = "UndefinedIdentifier"; e.what = info<fern::detail::ExceptionIdentifier>(x); at(x); }
    catch (fern::detail::UndefinedOperation const& x) { e.kind = "UndefinedOperation"; e.what = info<fern::detail::ExceptionFunction>(x); at(x); }
    catch (fern::detail::WrongNumberOfArguments const& x) { e.kind = "WrongNumberOfArguments"; e.what = info<fern::detail::ExceptionFunction>(x); at(x); e.a = info<fern::detail::ExceptionRequiredNrArguments>(x); e.b = info<fern::detail::ExceptionProvidedNrArguments>(x); }
    catch (fern::detail::WrongTypeOfArgument const& x) { e.kind = "WrongTypeOfArgument"; e.what = info<fern::detail::ExceptionFunction>(x); at(x); e.a = info<fern::detail::ExceptionArgumentId>(x); }
    return e;
}

// ------------------------------------------------------------- F: a reader of the text
struct Reader {
    S const& s; size_t tab; size_t p = 0; S bad;
    bool fail(S const& why) { if (bad.empty()) bad = why + " at " + std::to_string(p); return false; }
    bool eat(S const& t) { if (s.compare(p, t.size(), t) == 0) { p += t.size(); return true; } return false; }
    bool need(S const& t) { return eat(t) || fail("expected \"" + t + "\""); }
    static bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
    S ident() { size_t q = p; while (p < s.size() && word(s[p])) ++p; if (q == p) fail("name"); return s.substr(q, p - q); }
    E node(EK k, S const& n = "") { auto e = std::make_shared<Expr>(); e->kind = k; e->name = n; return e; }
    E group() { need("("); E e = expr(); need(")"); return e; }
    E expr() {
        if (!bad.empty() || p >= s.size()) { fail("expression"); return node(Name); }
        char c = s[p];
        if (c == '"') { size_t q = s.find('"', p + 1); if (q == S::npos) { fail("string"); return node(String); } E e = node(String, s.substr(p + 1, q - p - 1)); p = q + 1; return e; }
        if (c == '(') {
            E a = group();
            if (eat("[")) { E e = node(Subscript); E b = expr(); need("]"); e->kids = {a, b}; return e; }
            if (eat(".")) { E e = node(Attribute, ident()); e->kids = {a}; return e; }
            if (eat(" ")) {
                size_t q = s.find(" (", p); if (q == S::npos) { fail("operator"); return a; }
                S sym = s.substr(p, q - p); p = q + 1;
                for (auto& b : binary) if (b.second == sym) { E e = node(Oper, b.first); E rhs = group(); e->kids = {a, rhs}; return e; }
                fail("operator " + sym); return a;
            }
            fail("after group"); return a;
        }
        for (auto& u : unary) if (s.compare(p, u.second.size() + 1, u.second + "(") == 0) { p += u.second.size(); E e = node(Oper, u.first); E a = group(); e->kids = {a}; return e; }
        if (isdigit((unsigned char)c) || c == '-' || s.compare(p, 3, "inf") == 0) {
            size_t q = p; ++p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '.' || ((s[p] == '-' || s[p] == '+') && (s[p - 1] == 'e')))) ++p;
            E e = node(Number); e->type = "t"; e->name = s.substr(q, p - q); return e;
        }
        S n = ident();
        if (eat("(")) { E e = node(Call, n); if (eat(")")) return e; do e->kids.push_back(expr()); while (bad.empty() && eat(", ")); need(")"); return e; }
        return node(Name, n);
    }
    std::vector<T> block(size_t level) {
        std::vector<T> b; S in(level * tab, ' ');
        while (bad.empty() && p < s.size()) {
            if (s.compare(p, in.size(), in) != 0) break;
            if (s[p + in.size()] == ' ') { fail("indent"); break; }
            size_t back = p; p += in.size();
            if (s.compare(p, 6, "else:\n") == 0) { p = back; break; }
            auto t = std::make_shared<Stmt>();
            if (eat("if ")) t->kind = If; else if (eat("while ")) t->kind = While; else t->kind = Eval;
            t->value = expr();
            if (t->kind == Eval) {
                if (eat(" = ")) { t->kind = Assign; t->target = t->value; t->value = expr(); }
                need("\n");
            } else {
                need(":\n"); t->body = block(level + 1); if (t->body.empty()) fail("empty block");
                if (s.compare(p, in.size() + 6, in + "else:\n") == 0) { p += in.size() + 6; t->other = block(level + 1); if (t->other.empty()) fail("empty else"); }
            }
            b.push_back(t);
        }
        return b;
    }
};
static S same(E const& want, E const& got) {
    if (want->kind != got->kind) return "kind of " + show(want);
    if (want->kids.size() != got->kids.size()) return "operands of " + show(want);
    if (want->kind == Number) {
        S t = got->name;
        if (want->type[0] == 'i') { if (t != std::to_string(want->i)) return "number " + std::to_string(want->i) + " reads " + esc(t); }
        else if (want->type[0] == 'u') { if (t != std::to_string(want->u) + "U") return "number " + std::to_string(want->u) + "U reads " + esc(t); }
        else { char* end; double d = strtod(t.c_str(), &end); if (*end || !(std::fabs(d - want->d) <= 1e-5 * std::fabs(want->d))) return "number " + std::to_string(want->d) + " reads " + t; }
    } else if (want->name != got->name) return "name of " + show(want) + ": " + got->name;
    for (size_t i = 0; i < want->kids.size(); ++i) { S d = same(want->kids[i], got->kids[i]); if (!d.empty()) return d; }
    return "";
}
static S same(std::vector<T> const& a, std::vector<T> const& b) {
    if (a.size() != b.size()) return "number of statements " + std::to_string(a.size()) + " reads " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i]->kind != b[i]->kind) return "kind of statement " + std::to_string(i);
        S d = same(a[i]->value, b[i]->value); if (!d.empty()) return d;
        if (a[i]->target && !(d = same(a[i]->target, b[i]->target)).empty()) return d;
        if (!(d = same(a[i]->body, b[i]->body)).empty() || !(d = same(a[i]->other, b[i]->other)).empty()) return d;
    }
    return "";
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    auto cut = [](S s) { if (s.size() > 600) s = s.substr(0, 600) + "..."; return s; };
    if (mon().want("order")) {
        Rng r = mon().rng("order"); size_t n = mon().n(1500, 40000);
        for (size_t c = 0; c < n; ++c) {
            Want w; Module m; FlowGen g{r, w};
            m.body = r.chance(50) ? g.body(3, false, 0) : block(r, w, 3, 0, 6); build(m);
            S id = show(m.body); mon().at("order " + cut(id)); mon().seen("o" + id, !m.body.empty());
            Order o; m.v->Accept(o);
            std::vector<V> want; order(m.body, m.scope.get(), want); want.push_back(m.v.get());
            mon().count("vertices visited", want.size());
            if (o.met != want) mon().violation("visiting-order", "met " + std::to_string(o.met.size()) + " vertices, expected " + std::to_string(want.size()));
        }
    }
    if (mon().want("flow")) {
        Rng r = mon().rng("flow"); size_t n = mon().n(3000, 80000);
        for (size_t c = 0; c < n; ++c) {
            Want w; w.whiles = false; Module m; FlowGen g{r, w};
            m.body = g.body(int(r.below(4)), false, 0); build(m);
            S id = show(m.body); mon().at("flow " + cut(id)); mon().seen("f" + id, !m.body.empty());
            if (g.made) mon().count("flow programs with functions");
            fl::ThreadVisitor t; m.v->Accept(t);
            judge_flow(m, cut(id));
            if (r.chance(20)) { // one visitor serves several programs
                Module k; FlowGen h{r, w}; k.body = h.body(2, false, 0); build(k); mon().at("flow again " + cut(show(k.body))); k.v->Accept(t); judge_flow(k, cut(show(k.body)));
            }
        }
    }
    if (mon().want("called-twice")) {
        // A function with two calls; in a process of its own, which must end normally.
        Rng r = mon().rng("called-twice"); size_t n = mon().n(20, 200);
        for (size_t c = 0; c < n; ++c) {
            Want w; w.ifs = w.whiles = w.sub = false; Module m;
            auto d = std::make_shared<Stmt>(); d->kind = Def; d->name = "fun"; d->body = block(r, w, 0, 1, 3); m.body = {d};
            size_t calls = 2 + r.below(3); std::vector<V> after;
            for (size_t i = 0; i < calls; ++i) { auto t = std::make_shared<Stmt>(); t->kind = Assign; t->value = make(Call, r); t->value->name = "fun"; t->target = name(r, w); m.body.push_back(t); }
            build(m);
            S id = show(m.body); mon().at("called-twice " + cut(id)); mon().seen("w" + id);
            pid_t p = fork();
            if (p == 0) {
                int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
                signal(SIGABRT, SIG_DFL); alarm(20);
                fl::ThreadVisitor t; m.v->Accept(t);
                // one edge back to every call, no more
                std::set<V> want, got; for (size_t i = 1; i < m.body.size(); ++i) want.insert(m.body[i]->target->v.get());
                auto& su = d->sa->sentinel()->successors(); got.insert(su.begin(), su.end());
                _exit(got == want && su.size() == want.size() ? 0 : 3);
            }
            int st = 0; waitpid(p, &st, 0);
            mon().count("processes waited for");
            if (!WIFEXITED(st)) { mon().violation("flow-called-twice-aborts", "the process ended by signal " + std::to_string(WTERMSIG(st)) + ": " + cut(id)); break; }
            if (WEXITSTATUS(st)) { mon().violation("flow-called-twice-edges", cut(id)); break; }
        }
    }
    if (mon().want("uses")) {
        Rng r = mon().rng("uses"); size_t n = mon().n(3000, 80000); fl::IdentifyVisitor iv; fl::IOVisitor io;
        for (size_t c = 0; c < n; ++c) {
            Want w; w.names = 2 + int(r.below(8)); Module m; m.body = block(r, w, 3, 0, r.chance(20) ? 25 : 7); build(m);
            S id = show(m.body); mon().at("uses " + cut(id)); mon().seen("u" + id, !m.body.empty());
            m.v->Accept(iv);
            Uses u; u.body(m.body);
            if (!iv.symbol_table().empty()) mon().violation("uses-leftover", cut(id));
            for (V v : u.names) {
                auto nv = static_cast<fl::NameVertex const*>(static_cast<fl::ExpressionVertex const*>(static_cast<fl::StatementVertex const*>(v)));
                std::vector<V> d(nv->definitions().begin(), nv->definitions().end()), s(nv->uses().begin(), nv->uses().end());
                mon().count("names judged");
                if (d != u.defs[v]) { mon().violation("definition-of-name", nv->name() + " has " + std::to_string(d.size()) + " definitions, expected " + std::to_string(u.defs[v].size()) + ": " + cut(id)); break; }
                if (s != u.uses[v]) { mon().violation("uses-of-name", nv->name() + " has " + std::to_string(s.size()) + " uses, expected " + std::to_string(u.uses[v].size()) + ": " + cut(id)); break; }
            }
            // inputs and outputs
            m.v->Accept(io);
            Io want; want.body(m.body, true);
            std::vector<S> in = io.inputs();
            std::set<S> got(in.begin(), in.end());
            if (got.size() != in.size()) mon().violation("inputs-twice", cut(id));
            for (auto& x : want.input) if (!got.count(x)) mon().violation("input-missing", x + " of " + cut(id));
            for (auto& x : got) { if (want.input.count(x) || want.unclear.count(x)) continue; mon().violation("input-defined", x + " of " + cut(id)); break; }
            std::vector<S> o; for (auto& x : want.order) if (want.input.count(x)) o.push_back(x);
            // the order in which they are first used, when nothing is unclear
            if (want.unclear.empty()) { std::vector<S> first; for (auto& x : want.order) if (got.count(x)) first.push_back(x); bool clear = true; for (auto& x : want.input) if (want.known.count(x)) clear = false; if (clear && first != in) mon().violation("inputs-order", cut(id)); }
            std::vector<V> outs; for (auto p : io.outputs()) if (!want.inner.count(p->name())) outs.push_back(p);
            std::vector<V> wouts; for (auto& p : want.out) if (!want.inner.count(p.first)) wouts.push_back(p.second);
            mon().count("outputs judged", wouts.size());
            if (outs != wouts) mon().violation("outputs", std::to_string(outs.size()) + " of " + std::to_string(wouts.size()) + ": " + cut(id));
        }
    }
    if (mon().want("types")) {
        Rng r = mon().rng("types"); size_t n = mon().n(3000, 80000);
        std::vector<ExpressionType> kinds; for (auto t : {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"}) kinds.push_back(type_of(t));
        kinds.push_back(ExpressionType(DataTypes::CONSTANT, ValueTypes::STRING)); kinds.push_back(ExpressionType(DataTypes::STATIC_FIELD, ValueTypes::FLOAT32)); kinds.push_back(ExpressionType(DataTypes::STATIC_FIELD, ValueTypes::INT32));
        std::vector<std::pair<DataTypes, ValueTypes>> params{{DataTypes::CONSTANT | DataTypes::STATIC_FIELD, ValueTypes::NUMBER}, {DataTypes::CONSTANT, ValueTypes::STRING}, {DataTypes::STATIC_FIELD, ValueTypes::FLOATING_POINT}, {DataTypes::ALL, ValueTypes::ALL}, {DataTypes::ALL, ValueTypes::ALL}};
        for (size_t c = 0; c < n; ++c) {
            Want w; w.ifs = w.whiles = w.sub = false; w.names = 2 + int(r.below(5)); w.calls = {"op0", "op1", "op2", "op3", "abs"};
            if (r.chance(70)) w.calls.pop_back();
            Module m; m.body = block(r, w, 0, 0, 6);
            Types t; std::vector<fl::OperationPtr> list;
            for (auto& nm : {S("op0"), S("op1"), S("op2"), S("op3"), S("add"), S("Mult"), S("Sub"), S("UnarySub")}) {
                if (r.chance(5)) continue;
                std::vector<fl::Parameter> ps; bool op = nm[0] != 'o'; size_t k = nm == "UnarySub" ? 1 : op ? 2 : r.below(4);
                for (size_t i = 0; i < k; ++i) { auto& p = r.chance(60) ? params[3] : params[r.below(params.size())]; ps.emplace_back("p", "p", p.first, p.second); }
                t.ops[nm] = std::make_shared<Op>(nm, ps, kinds[r.below(kinds.size())]); list.push_back(t.ops[nm]);
            }
            // mostly operators that exist and calls with the right number of arguments
            struct { void tidy(Rng& r, E const& e, std::map<S, std::shared_ptr<Op>> const& ops, Want const& w) {
                if (e->kind == Oper && r.chance(90)) e->name = e->kids.size() == 1 ? "UnarySub" : std::vector<S>{"add", "Mult", "Sub"}[r.below(3)];
                auto it = ops.find(e->name);
                if (e->kind == Call && it != ops.end() && r.chance(90)) { while (e->kids.size() > it->second->arity()) e->kids.pop_back(); while (e->kids.size() < it->second->arity()) e->kids.push_back(expression(r, w, 0)); }
                for (auto& k : e->kids) tidy(r, k, ops, w);
            } } tidy;
            for (auto& s : m.body) tidy.tidy(r, s->value, t.ops, w);
            build(m);
            S id = show(m.body); mon().at("types " + cut(id)); mon().seen("t" + id, !m.body.empty());
            auto ops = std::make_shared<fl::Operations>(list);
            fl::AnnotateVisitor a(ops);
            fern::SymbolTable<ExpressionType> globals;
            bool pre = r.chance(60);
            if (pre) { globals.push_scope(); for (int i = 0; i < w.names; ++i) if (r.chance(80)) { S nm = ident(r, w.names); ExpressionType k = kinds[r.below(kinds.size())]; globals.add_value(nm, k); t.known[nm] = k; } a.add_global_symbols(globals); }
            m.v->Accept(a);
            if (pre) globals.pop_scope();
            t.body(m.body);
            bool ok = true;
            for (auto& p : t.want) {
                auto ev = static_cast<fl::ExpressionVertex const*>(static_cast<fl::StatementVertex const*>(p.first));
                mon().count("types judged");
                if (ev->expression_types().size() != 1 || !(ev->expression_types()[0] == p.second)) { mon().violation("type", ev->name() + " has " + (ev->expression_types().size() ? text(ev->expression_types()[0]) : S("none")) + ", expected " + text(p.second) + ": " + cut(id)); ok = false; break; }
                auto ov = dynamic_cast<fl::OperationVertex const*>(ev);
                if (ov && ov->operation().get() != (t.bound.count(p.first) ? t.bound[p.first] : nullptr)) { mon().violation("operation-of-vertex", ev->name() + ": " + cut(id)); ok = false; break; }
            }
            for (auto& p : t.ops) if (ok && !(p.second->seen == t.asked[p.second.get()])) {
                S s; for (auto& x : p.second->seen) { s += "("; for (auto& y : x) s += text(y) + ","; s += ")"; }
                mon().violation("argument-types", p.first + " was asked for " + s + " in " + cut(id)); ok = false;
            }
            size_t evals = 0; for (auto& s : m.body) if (s->kind == Eval) ++evals;
            if (ok && a.stack().size() != evals) mon().violation("types-left", std::to_string(a.stack().size()) + " of " + std::to_string(evals));
            if (ok) { auto st = a.stack(); for (size_t i = m.body.size(); i-- > 0;) if (m.body[i]->kind == Eval) { if (!(st.top() == t.want[m.body[i]->value->v.get()])) { mon().violation("types-left", cut(id)); break; } st.pop(); } }
            a.clear_stack(); if (!a.stack().empty()) mon().violation("types-clear", cut(id));
            // validation reports the first mistake, and only mistakes
            Error want = t.errors.empty() ? Error() : t.errors[0], got = caught(m.v);
            mon().count(want.kind.empty() ? "valid programs" : "mistakes: " + want.kind);
            if (!(got == want)) mon().violation("validation", got.show() + ", expected " + want.show() + ": " + cut(id));
        }
    }
    if (mon().want("text")) {
        Rng r = mon().rng("text"); size_t n = mon().n(4000, 100000); fl::ModuleVisitor four;
        for (size_t c = 0; c < n; ++c) {
            Want w; Module m; m.body = block(r, w, 4, 0, 6); build(m);
            S id = show(m.body); mon().at("text " + cut(id)); mon().seen("m" + id, !m.body.empty());
            size_t tab = r.chance(50) ? 4 : 1 + r.below(8);
            fl::ModuleVisitor own(tab); fl::ModuleVisitor& mv = tab == 4 ? four : own;
            m.v->Accept(mv);
            S s = mv.module(); Reader rd{s, tab};
            auto b = rd.block(0);
            if (rd.bad.empty() && rd.p != s.size()) rd.fail("rest");
            if (!rd.bad.empty()) mon().violation("text-unreadable", rd.bad + " in " + cut(s));
            else { S d = same(m.body, b); if (!d.empty()) mon().violation(d.substr(0, 6) == "number" ? "text-number" : "text-differs", d + " in " + cut(s)); }
            mon().count("characters read back", s.size());
            if (c < 3) mon().sample(cut(s));
        }
    }
    return mon().finish();
}

// C23: symbol table, scope, stack, scope exit guard.
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>
#include <vector>
#include "fern/core/scope.h"
#include "fern/core/scope_exit.h"
#include "fern/core/stack.h"
#include "fern/core/std.h"
#include "fern/language/core/symbol_table.h"
using namespace vh;

static std::vector<std::string> const names{"a", "b", "ab", "", "a b", "\xc3\xb8", "Z", "_", "abcdefghijklmnopqrstuvwxyz0123456789"};

template<class V> struct Mk;
template<> struct Mk<int> { static int of(Rng& r) { return r.range(-5, 5); } };
template<> struct Mk<std::string> { static std::string of(Rng& r) { return std::string(r.below(40), char('a' + r.below(3))); } };
template<> struct Mk<std::shared_ptr<int>> { static std::shared_ptr<int> of(Rng& r) { return std::make_shared<int>(r.below(9)); } };

template<class Table> struct Sym;
template<class V> using Levels = std::vector<std::map<std::string, V>>;

template<class T, class V> void verify(T const& t, Levels<V> const& m, std::string const& log) {
    auto bad = [&](char const* k, std::string const& s = "") { mon().violation(std::string("symbol-") + k, log + " " + s); };
    size_t n = 0; for (auto& s : m) n += s.size();
    if (t.size() != n) bad("size", std::to_string(t.size()));
    if (t.empty() != (n == 0)) bad("empty");
    if (t.scope_level() != m.size()) bad("level");
    for (auto const& name : names) {
        size_t at = m.size(); while (at && !m[at - 1].count(name)) --at;
        if (t.has_value(name) != (at != 0)) { bad("has", name); continue; }
        if (!at) continue;
        if (!(t.value(name) == m[at - 1].at(name))) bad("value", name);
        if (t.scope_level(name) != at) bad("level-of", name + " " + std::to_string(t.scope_level(name)));
    }
    for (size_t l = 1; l <= m.size(); ++l) {
        auto const& s = t.scope(l);
        if (s.size() != m[l - 1].size()) { bad("scope-size"); continue; }
        auto it = m[l - 1].begin();
        for (auto const& x : s) { if (x.first != it->first || !(x.second == it->second)) bad("scope-content"); ++it; }
        for (auto const& name : names) {
            bool h = m[l - 1].count(name);
            if (s.has_value(name) != h) bad("scope-has", name);
            else if (h && !(s.value(name) == m[l - 1].at(name))) bad("scope-value", name);
        }
    }
}

template<class T, class V> void history(Rng& r, char const* kind) {
    T t; Levels<V> m;
    std::string log = kind;
    unsigned steps = 1 + r.below(40), deepest = 0, hidden = 0;
    unsigned few = 2 + r.below(names.size() - 1);
    mon().at(log);
    verify(t, m, log);
    for (unsigned k = 0; k < steps; ++k) {
        unsigned op = m.empty() ? 0 : r.below(14);
        std::string name = names[r.below(few)];
        log += "," + std::to_string(op); mon().at(log);
        switch (op) {
        case 0: case 1: t.push_scope(); m.emplace_back(); break;
        case 2: case 3: t.pop_scope(); m.pop_back(); break;
        case 4: if (r.chance(50)) { t.clear_scope(); m.back().clear(); } break;
        case 5: case 6: case 7: case 8: { V v = Mk<V>::of(r); for (auto& l : m) if (l.count(name)) { ++hidden; break; } t.add_value(name, v); m.back()[name] = v; log += name; } break;
        case 9: if (m.back().count(name)) { t.erase_value(name); m.back().erase(name); } break;
        case 10: { // A copy is independent.
            T c(t); Levels<V> cm = m;
            verify(c, cm, log + " copy");
            V v = Mk<V>::of(r); c.add_value(name, v); cm.back()[name] = v; c.push_scope(); cm.emplace_back();
            verify(c, cm, log + " copy changed"); verify(t, m, log + " original"); } break;
        case 11: { T c; c.push_scope(); c.add_value("other", Mk<V>::of(r)); c = t; verify(c, m, log + " assigned"); c.pop_scope(); verify(t, m, log + " original");
                   T& same = t; t = same; } break;
        case 12: { T c(std::move(t)); verify(c, m, log + " moved"); t = T(c); } break;
        case 13: { T c; c.push_scope(); c = std::move(t); verify(c, m, log + " move assigned"); t = c; } break;
        }
        deepest = std::max<unsigned>(deepest, m.size());
        verify(t, m, log);
    }
    mon().seen(log, deepest > 0);
    mon().count("steps", steps); mon().count("hiding definitions", hidden);
    if (deepest > 2) mon().count("nested deeper than two");
}

static void scope(Rng& r) {
    fern::Scope<int> s; std::map<std::string, int> m; std::string log = "scope";
    for (unsigned k = 0, n = r.below(20); k < n; ++k) {
        unsigned op = r.below(7); std::string name = names[r.below(names.size())]; int v = r.below(9);
        log += "," + std::to_string(op) + name; mon().at(log);
        switch (op) {
        case 0: case 1: case 2: s.set_value(name, v); m[name] = v; break;
        case 3: if (m.count(name)) { s.erase_value(name); m.erase(name); } break;
        case 4: { fern::Scope<int> c(s), d; d = s; c.set_value(name, 77); d.clear(); if (c.value(name) != 77 || d.size()) mon().violation("scope-copy", log); } break;
        case 5: { fern::Scope<int> c(std::move(s)), d; d = std::move(c); s = d; fern::Scope<int>& same = s; s = same; } break;
        case 6: if (r.chance(20)) { s.clear(); m.clear(); } break;
        }
        if (s.size() != m.size()) mon().violation("scope-size", log);
        for (auto const& x : names) if (s.has_value(x) != bool(m.count(x)) || (m.count(x) && s.value(x) != m[x])) mon().violation("scope-value", log);
        auto it = m.begin(); for (auto const& x : s) { if (x != std::pair<std::string const, int>(*it)) mon().violation("scope-content", log); ++it; }
    }
    mon().seen(log, !m.empty());
}

static void stack(Rng& r) {
    fern::Stack s; std::vector<boost::any> m; std::string log = "stack";
    auto same = [&](fern::Stack const& t) {
        if (t.size() != m.size() || t.empty() != m.empty()) { mon().violation("stack-size", log); return; }
        if (m.empty()) return;
        auto const& x = m.back();
        if (x.type() != t.top().type()) { mon().violation("stack-type", log); return; }
        bool ok = true, refused = false;
        if (auto p = boost::any_cast<int>(&x)) { ok = t.top<int>() == *p; try { t.top<double>(); } catch (boost::bad_any_cast const&) { refused = true; } }
        else if (auto p = boost::any_cast<double>(&x)) { ok = t.top<double>() == *p; try { t.top<int>(); } catch (boost::bad_any_cast const&) { refused = true; } }
        else if (auto p = boost::any_cast<std::string>(&x)) { ok = t.top<std::string>() == *p; try { t.top<int>(); } catch (boost::bad_any_cast const&) { refused = true; } }
        if (!ok) mon().violation("stack-value", log);
        if (!refused) mon().violation("stack-wrong-type", log);
    };
    for (unsigned k = 0, n = r.below(25); k < n; ++k) {
        unsigned op = r.below(7); log += "," + std::to_string(op); mon().at(log);
        switch (op) {
        case 0: { int v = r.below(99); s.push(v); m.push_back(v); } break;
        case 1: { double v = r.unit(); s.push(v); m.push_back(v); } break;
        case 2: { std::string v(r.below(50), 'x'); s.push(v); m.push_back(v); } break;
        case 3: case 4: if (!m.empty()) { s.pop(); m.pop_back(); } break;
        case 5: { fern::Stack c(s); same(c); if (!c.empty()) c.pop(); c.push(1); } break;
        case 6: { fern::Stack c(std::move(s)); same(c); s = c; } break;
        }
        same(s);
    }
    while (!m.empty()) { same(s); s.pop(); m.pop_back(); }
    same(s);
    mon().seen(log);
}

template<class F> fern::ScopeExit<F> passed(fern::ScopeExit<F> g) { return g; }
static void guards(Rng& r) {
    unsigned op = r.below(9); bool release = r.chance(40); unsigned moves = r.below(4);
    std::string log = "guard " + std::to_string(op) + " released " + std::to_string(release) + " moves " + std::to_string(moves) + " " + std::to_string(r.below(1000));
    mon().at(log); mon().seen(log);
    int runs = 0, alive = 0;
    auto token = std::make_shared<int>(1);
    auto bad = [&](char const* k, int want) { if (runs != want) mon().violation(std::string("guard-") + k, log + " ran " + std::to_string(runs) + " times"); };
    switch (op) {
    case 0: { { auto g = fern::makeScopeExit([&] { ++runs; }); if (runs) mon().violation("guard-early", log); if (release) { g.release(); g.release(); } } bad("plain", !release); } break;
    case 1: { try { auto g = fern::makeScopeExit([&] { ++runs; }); if (release) g.release(); throw std::runtime_error("x"); } catch (std::runtime_error const&) {} bad("exception", !release); } break;
    case 2: { { auto g = fern::makeScopeExit([&] { ++runs; }); auto h(std::move(g)); if (release) h.release(); if (runs) mon().violation("guard-early-moved", log); } bad("moved", !release); } break;
    case 3: { { auto g = passed(fern::makeScopeExit([&] { ++runs; })); if (release) g.release(); if (runs) mon().violation("guard-early-passed", log); } bad("passed", !release); } break;
    case 4: { { auto g = fern::makeScopeExit([&] { ++runs; }); { auto h(std::move(g)); if (release) h.release(); } if (runs != !release) mon().violation("guard-inner", log); } bad("inner", !release); } break;
    case 5: { { auto g = fern::makeScopeExit(std::function<void()>([&] { ++runs; })); auto h(std::move(g)); if (release) h.release(); } bad("function", !release); } break;
    case 6: { { auto g = fern::makeScopeExit([&runs, token] { runs += *token; }); alive = token.use_count(); auto h = passed(passed(std::move(g))); if (release) h.release(); } bad("capture", !release);
              if (token.use_count() != 1) mon().violation("guard-leak", log); (void)alive; } break;
    case 7: { { auto g = fern::makeScopeExit([&] { ++runs; }); g.release(); auto h(std::move(g)); } bad("released-then-moved", 0); } break;
    case 8: { // Several guards run in reverse order.
        std::string order; { auto a = fern::makeScopeExit([&] { order += 'a'; }); auto b = fern::makeScopeExit([&] { order += 'b'; }); auto c = fern::makeScopeExit([&] { order += 'c'; }); if (release) b.release(); }
        if (order != (release ? "ca" : "cba")) mon().violation("guard-order", log + " " + order); } break;
    }
    mon().count("guards");
}

static void sorting(Rng& r) {
    std::vector<int> v(r.below(30)); for (auto& x : v) x = r.below(10);
    auto w = v, u = v; std::sort(w.begin(), w.end());
    fern::sort(v); if (v != w) mon().violation("sort", std::to_string(v.size()));
    fern::sort(u, std::greater<int>()); std::reverse(w.begin(), w.end()); if (u != w) mon().violation("sort-predicate", std::to_string(v.size()));
    std::string s; for (int x : v) s += char('0' + x); mon().seen("sort " + s, v.size() > 1);
}

int main(int c, char** v) {
    mon().init(c, v);
    Rng r = mon().rng("symbols");
    for (size_t i = 0, n = mon().n(1500, 80000); i < n; ++i) {
        history<fern::SymbolTable<int>, int>(r, "int");
        history<fern::SymbolTable<std::string>, std::string>(r, "string");
        history<fern::SymbolTable<std::shared_ptr<int>>, std::shared_ptr<int>>(r, "pointer");
        scope(r); stack(r); guards(r); guards(r); sorting(r);
    }
    return mon().finish();
}

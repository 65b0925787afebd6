// Reads what is written in the dot language.
#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using S = std::string;

struct Graph { struct Node { S id; std::map<S, S> a; }; struct Edge { S from, to; std::map<S, S> a; }; std::vector<Node> nodes; std::vector<Edge> edges; std::vector<S> parts; S trouble; };
inline Graph dot(S const& t) {
    struct Token { S s; bool quoted; };
    Graph g; std::vector<Token> k;
    for (size_t i = 0; i < t.size();) {
        char c = t[i];
        if (isspace((unsigned char)c)) { ++i; continue; }
        if (c == '"') {
            S s; bool closed = false;
            for (++i; i < t.size(); ++i) { if (t[i] == '\\' && i + 1 < t.size()) { s += t[i++]; s += t[i]; } else if (t[i] == '"') { closed = true; ++i; break; } else s += t[i]; }
            if (!closed) { g.trouble = "text does not end"; return g; }
            k.push_back({s, true}); continue;
        }
        if (c == '-' && t.compare(i, 2, "->") == 0) { k.push_back({"->", false}); i += 2; continue; }
        if (strchr("{}[];,=", c)) { k.push_back({S(1, c), false}); ++i; continue; }
        S s; while (i < t.size() && (isalnum((unsigned char)t[i]) || strchr("_.-", t[i]))) s += t[i++];
        if (s.empty()) { g.trouble = "stray character " + S(1, c); return g; }
        k.push_back({s, false});
    }
    size_t i = 0; int depth = 0;
    auto is = [&](char const* s) { return i < k.size() && !k[i].quoted && k[i].s == s; };
    auto attrs = [&](std::map<S, S>& a) {
        if (!is("[")) return true;
        for (++i; !is("]");) { if (is(",") || is(";")) { ++i; continue; } if (i + 2 >= k.size() || k[i + 1].s != "=" || k[i + 1].quoted) return false; a[k[i].s] = k[i + 2].s; i += 3; }
        ++i; return true;
    };
    if (k.size() < 4 || k[0].s != "digraph" || k[2].s != "{") { g.trouble = "not a graph"; return g; }
    i = 3; depth = 1;
    while (i < k.size()) {
        if (depth == 0) { g.trouble = "text after the graph"; return g; }
        if (is(";")) { ++i; continue; }
        if (is("}")) { --depth; ++i; continue; }
        if (is("subgraph")) { if (i + 2 >= k.size() || k[i + 2].s != "{") { g.trouble = "subgraph"; return g; } g.parts.push_back(k[i + 1].s); i += 3; ++depth; continue; }
        if (!k[i].quoted) { if (i + 2 < k.size() && k[i + 1].s == "=") { i += 3; continue; } g.trouble = "statement at " + k[i].s; return g; }
        S id = k[i++].s;
        if (is("->")) { ++i; if (i >= k.size() || !k[i].quoted) { g.trouble = "edge"; return g; } Graph::Edge e{id, k[i++].s, {}}; if (!attrs(e.a)) { g.trouble = "attributes of an edge"; return g; } g.edges.push_back(e); }
        else { Graph::Node n{id, {}}; if (!attrs(n.a)) { g.trouble = "attributes of " + id; return g; } g.nodes.push_back(n); }
    }
    if (depth != 0) g.trouble = "graph does not end";
    { std::set<S> n(g.parts.begin(), g.parts.end()); if (n.size() != g.parts.size()) g.trouble = "two subgraphs of one name"; }
    std::set<S> ids; for (auto& n : g.nodes) if (!ids.insert(n.id).second) g.trouble = "node declared twice";
    for (auto& e : g.edges) if (!ids.count(e.from) || !ids.count(e.to)) g.trouble = "edge of an unknown node";
    return g;
}
inline S decode(S const& s) { S o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i]; } else o += s[i]; return o; }

// C30: the command line program. This program runs itself as the command, once
// per case, and judges what comes out: files, texts, status and history.
#include "programs.h"
#include "dot.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <csignal>
#include <set>
int fern_main(int argc, char** argv);

static S self, base;
struct Done { int status = -1; bool killed = false; S out, err; };
static Done command(std::vector<S> args, S const& in = "", char const* home = "") {
    S const i = base + "/stdin", o = base + "/stdout", e = base + "/stderr";
    spit(i, in);
    args.insert(args.begin(), {self, "--fern"});
    std::vector<char*> argv; for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        int a = open(i.c_str(), O_RDONLY), b = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666), c = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (a < 0 || b < 0 || c < 0 || dup2(a, 0) < 0 || dup2(b, 1) < 0 || dup2(c, 2) < 0) _exit(120);
        setenv("LC_ALL", "C.UTF-8", 1); setenv("TERM", "dumb", 1); setenv("COLUMNS", "20000", 1); setenv("LINES", "24", 1); setenv("INPUTRC", "/dev/null", 1);
        if (home) setenv("HOME", *home ? home : base.c_str(), 1); else unsetenv("HOME");
        execv("/proc/self/exe", argv.data());
        _exit(121);
    }
    Done d; int w = 0; bool over = false;
    for (int k = 0; k < 12000; ++k) { pid_t q = waitpid(p, &w, WNOHANG); if (q == p) { over = true; break; } usleep(k < 200 ? 500 : 5000); }
    if (!over) { kill(p, SIGKILL); waitpid(p, &w, 0); mon().violation("hang", "the command does not end"); }
    d.killed = !WIFEXITED(w); d.status = WIFEXITED(w) ? WEXITSTATUS(w) : -1; d.out = slurp(o); d.err = slurp(e);
    for (char const* t : {"Sanitizer", "runtime error:", "Assertion", "terminate called"}) d.killed = d.killed || d.err.find(t) != S::npos;
    if (d.killed) { size_t f = d.err.find("ERROR: "); if (f == S::npos) f = 0; mon().violation("crash:" + (args.size() > 2 ? args[2] : S("session")), d.err.substr(f, 400)); }
    mon().count("commands run");
    return d;
}
static S shorten(S const& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static void judge(S const& key, S const& got, S const& want) { if (got != want) mon().violation(key, "\"" + shorten(got) + "\" instead of \"" + shorten(want) + "\""); }
static bool plain(S const& s) { for (char c : s) if (c < 32 || c > 126) return false; return true; }

// ------------------------------------------------------------------ programs
struct Todo { std::vector<St> p; S xml, error; };   // error: what it has to say, empty when all is well
static Todo todo(Rng& r, World& w, size_t& serial, S const& source) {
    std::map<S, std::shared_ptr<Source>> none;
    Gen g(r, w, none, serial);
    Todo t; t.p = g.program();
    if (r.chance(25)) {   // A mistake: nothing is executed.
        Ex e = r.chance(50) ? g.name("nope" + std::to_string(r.below(3))) : g.call("do_it", {g.lit(value(r, 0))});
        t.error = source + ":" + std::to_string(e.line) + ":" + std::to_string(e.col) + (e.kind == Ex::Name ? ": Undefined identifier: " : ": Undefined operation: ") + e.text;
        St s; s.assign = r.chance(50); s.target = "z"; s.ex = e; s.line = g.line++;
        t.p.push_back(s); t.xml = xml(t.p, source); t.p.clear();
        return t;
    }
    if (r.chance(20)) {   // A failure along the way.
        St s; s.line = g.line++;
        switch (r.below(4)) {
        case 0: s.ex = g.call("read", {g.str(w.dir + "/missing.gnr:a/b")}); break;
        case 1: { S f = w.gnr.empty() ? w.dir + "/missing.gnr" : w.gnr.begin()->first; s.ex = g.call("read", {g.str(f + ":f0/absent")}); break; }
        case 2: s.ex = g.call("write", {g.lit(value(r, 0)), g.str(w.dir + "/x.gnr:a/b"), g.str("NoSuchFormat")}); break;
        default: s.ex = g.call("write", {g.lit(value(r, 0)), g.str(w.dir + "/nowhere/x.gnr:a/b"), g.str("Fern")});
        }
        t.p.push_back(s);
        if (r.chance(50)) { St q; q.assign = true; q.target = "late"; q.ex = g.lit(value(r, 0)); q.line = g.line++; t.p.push_back(q); }
    }
    t.xml = xml(t.p, source);
    Run run{w, none, {}, {}};
    try {
        for (auto& s : t.p) {
            std::vector<Item> out; run.eval(s.ex, out);
            if (s.assign) w.names[s.target] = out.at(0); else w.stack.insert(w.stack.end(), out.begin(), out.end());
        }
    }
    catch (Failure const& f) { t.error = f.message; }
    return t;
}
static void judge_files(World const& w, S const& log) {
    for (auto& f : w.gnr) {
        mon().at(log + " | file " + f.first);
        try {
            auto d = fl::open_dataset(f.first, fl::OpenMode::READ, "Fern");
            for (auto& p : f.second) { S e = differs(d->read_attribute(p.first), p.second); if (!e.empty()) mon().violation("file", p.first + ": " + e); mon().count("attributes in files"); }
        }
        catch (fern::Exception const& e) { mon().violation("file", e.message()); }
    }
    for (auto& f : w.tif) {
        mon().at(log + " | file " + f.first);
        S s = std::filesystem::path(f.first).stem().string();
        try { S e = differs(fl::open_dataset(f.first, fl::OpenMode::READ, "GTiff")->read_attribute("/" + s + "/" + s), f.second); if (!e.empty()) mon().violation("file", f.first + ": " + e); mon().count("attributes in files"); }
        catch (fern::Exception const& e) { mon().violation("file", e.message()); }
    }
}
static void execute(Rng& r, size_t id) {
    World w; w.dir = base + "/e" + std::to_string(id); std::filesystem::create_directory(w.dir);
    size_t serial = 0; S log;
    for (size_t k = 1 + r.below(3); k; --k) {
        w.names.clear(); w.stack.clear();
        S const source = r.chance(30) ? "<string>" : "dir/some program.ran";
        Todo t = todo(r, w, serial, source);
        log += " | execute " + text(t.p) + (t.error.empty() ? "" : " -> " + t.error); mon().at(log);
        Done d;
        if (r.chance(40)) d = command({"execute", "-"}, t.xml);
        else { S f = w.dir + "/program " + std::to_string(id); spit(f, t.xml); d = command({"execute", f}); }
        if (d.killed) break;
        if ((d.status == 0) != t.error.empty()) mon().violation("execute-status", std::to_string(d.status) + " " + shorten(d.err));
        judge("execute-error", d.err, t.error.empty() ? "" : t.error + "\n"); judge("execute-output", d.out, "");
        mon().count(t.error.empty() ? "programs executed" : "failures provoked");
        judge_files(w, log);
        if (std::filesystem::exists(w.dir + "/x.gnr")) mon().violation("execute-stray", "a file is left by a write that failed");
    }
    if (r.chance(30)) {
        S f = w.dir + "/absent.ran"; mon().at(log + " | execute a missing file"); Done d = command({"execute", f});
        if (d.status == 0) mon().violation("execute-status", "0 for a missing file"); judge("execute-error", d.err, "I/O error handling " + f + ": No such file or directory\n");
        mon().count("failures provoked");
    }
    if (r.chance(30)) {
        mon().at(log + " | execute what cannot be parsed"); Done d = command({"execute", "-"}, "! what is this");
        if (d.status == 0) mon().violation("execute-status", "0 for a parse error"); judge("execute-error", d.err, "Error parsing <string>:1:2: what is this\n");
        mon().count("failures provoked");
    }
    mon().seen(log); if (id < 2) mon().sample(shorten(log));
    std::filesystem::remove_all(w.dir);
}

// ------------------------------------------------------------------- session
static S shown(Val const& v) {
    return std::visit([](auto const& x) -> S {
        using T = std::decay_t<decltype(x)>; std::ostringstream s;
        if constexpr (is_field<T>::value) s << "static field"; else if constexpr (std::is_integral<T>::value) s << +x; else s << x;
        return s.str() + "\n";
    }, v);
}
static void session(Rng& r, size_t id) {
    World w; w.dir = base + "/s" + std::to_string(id); std::filesystem::create_directory(w.dir);
    size_t serial = 0; S log, in, err; std::vector<S> lines, outs;
    S past;
    if (r.chance(40)) { past = "x = 5\nabs(-3)\n"; spit(w.dir + "/.fern", past); }
    for (size_t k = r.below(8); k; --k) {
        World back = w; Todo t;
        S line;
        if (r.chance(10)) { line = "! it is wrong"; t.error = "Error parsing <string>:1:2: it is wrong"; }
        else {
            size_t const was = serial;
            do { w = back; serial = was; t = todo(r, w, serial, "<string>"); } while (!plain(t.xml));
            line = t.xml;
        }
        S out;
        if (t.error.empty()) for (size_t i = w.stack.size(); i; --i) { Item const& x = w.stack[i - 1]; out += x.feature.empty() ? shown(x.v) : "feature containing 1 attribute(s):\n" + x.feature + "\n" + shown(x.v); }
        w.stack.clear();
        lines.push_back(line); outs.push_back(out); in += line + "\n"; if (!t.error.empty()) err += t.error + "\n";
        log += " >>> " + (t.p.empty() ? line.substr(0, 60) : text(t.p)) + (t.error.empty() ? "" : " -> " + t.error);
    }
    bool const junk = r.chance(15), home = !r.chance(12);
    if (junk) { lines.push_back("junk <"); in += "junk <\n"; log += " >>> junk"; }
    if (r.chance(20) && !in.empty() && !junk) in.pop_back();   // the last line does not end
    mon().at(log + (home ? "" : " | no home"));
    Done d = command({}, in, home ? w.dir.c_str() : nullptr);
    if (!d.killed) {
        if (d.status != 0) mon().violation("session-status", std::to_string(d.status) + " " + shorten(d.err));
        // The prompt, what was typed, and what was printed.
        S body = d.out; size_t at = body.find(">>> ");
        if (at == S::npos) mon().violation("session-prompt", shorten(body));
        else {
            if (body.compare(0, 5, "fern ") != 0 || body.find("Copyright") > at) mon().violation("session-greeting", shorten(body.substr(0, at)));
            std::vector<S> got;
            for (;;) { size_t next = body.find("\n>>> ", at); got.push_back(body.substr(at + 4, next == S::npos ? S::npos : next + 1 - at - 4)); if (next == S::npos) break; at = next + 1; }
            if (got.size() != lines.size() + 1) mon().violation("session-prompts", std::to_string(got.size()) + " prompts for " + std::to_string(lines.size()) + " lines");
            else for (size_t i = 0; i < outs.size(); ++i) { judge("session-output", got[i], lines[i] + "\n" + outs[i]); mon().count("statements judged"); }
        }
        if (!junk) judge("session-errors", d.err, err); else if (d.err.size() <= err.size()) mon().violation("session-junk", "no error for what is not a program");
        if (home) { S h = past; for (auto& l : lines) h += l + "\n"; judge("session-history", slurp(w.dir + "/.fern"), h); }
        judge_files(w, log);
        mon().count("sessions");
    }
    mon().seen(log, !lines.empty()); if (id < 2) mon().sample(shorten(log));
    std::filesystem::remove_all(w.dir);
}

// -------------------------------------------------------------------- graphs
static S label(Ex const& e) {
    if (e.kind == Ex::Name || e.kind == Ex::Call) return e.text;
    if (e.kind == Ex::Str) return "\"" + std::get<S>(e.v) + "\"";
    S s = shown(e.v); s.pop_back(); return s;
}
static S renamed(S t) {   // nodes by order instead of address
    std::map<S, S> names; S o;
    for (size_t i = 0; i < t.size();) {
        if (t.compare(i, 2, "0x") == 0) { size_t j = i + 2; while (j < t.size() && isxdigit((unsigned char)t[j])) ++j; S id = t.substr(i, j - i); if (!names.count(id)) names[id] = "n" + std::to_string(names.size()); o += names[id]; i = j; }
        else o += t[i++];
    }
    return o;
}
static void graph(Rng& r, size_t id) {
    World w; w.dir = base + "/g" + std::to_string(id); std::filesystem::create_directory(w.dir);
    size_t serial = 0; std::map<S, std::shared_ptr<Source>> none; std::vector<St> p;
    { Gen g(r, w, none, serial); p = g.program(); if (r.chance(40)) { St s; s.assign = true; s.target = "text"; S x = name(r); S const odd[] = {"\"", "\\", "\"x\"", "a\\", "\\n", "two\nlines", "[];", "->", "0x12"}; if (r.chance(60)) x += odd[r.below(9)]; s.ex = g.str(x); s.line = g.line++; p.push_back(s); } }
    S const x = xml(p, r.chance(50) ? "<string>" : "some/program.ran"), f = w.dir + "/in", o = w.dir + "/out.dot"; spit(f, x);
    bool const ast = r.chance(50), cfg = ast && r.chance(50), use = ast && r.chance(50), in = r.chance(40);
    std::vector<S> args{"compile", "dot", ast ? "ast" : "flowgraph"};
    if (cfg) args.push_back("--with-cfg");
    if (use) args.push_back("--with-use");
    if (cfg && use && r.chance(50)) std::swap(args[3], args[4]);
    args.push_back(in ? "-" : f);
    S log = "graph"; for (size_t i = 2; i < args.size() - 1; ++i) log += " " + args[i]; log += ": " + text(p); mon().at(log);
    Done d = command(args, in ? x : "");
    if (d.killed) { std::filesystem::remove_all(w.dir); return; }
    if (d.status != 0) mon().violation("graph-status", std::to_string(d.status) + " " + shorten(d.err));
    judge("graph-error", d.err, "");
    Graph g = dot(d.out);
    if (!g.trouble.empty()) mon().violation("graph-form", g.trouble + ": " + shorten(d.out));
    else if (ast) {
        std::map<S, S> labels; std::map<S, std::vector<S>> kids; std::set<std::pair<S, S>> uses; size_t flow = 0;
        for (auto& n : g.nodes) labels[n.id] = decode(n.a.count("label") ? n.a.at("label") : S());
        for (auto& e : g.edges) {
            auto c = e.a.find("color");
            if (c == e.a.end()) kids[e.from].push_back(e.to);
            else if (c->second == "/spectral11/8") { if (!uses.insert({e.from, e.to}).second) mon().violation("graph-uses", "edge drawn twice"); }
            else ++flow;
        }
        S root; for (auto& n : labels) if (n.second == "scope") root = n.first;
        S bad; size_t count = 2; std::map<S, S> defined; std::set<std::pair<S, S>> want;
        std::function<void(S const&, Ex const&)> same_tree = [&](S const& n, Ex const& e) {
            ++count;
            S l = labels[n]; if (e.kind != Ex::Str) { S t; size_t c = l.find("\ndt: "); if (c == S::npos) bad = "no type: " + l; else { t = l.substr(c); l = l.substr(0, c); } if (e.kind == Ex::Lit) { S y = type_of(e.v); size_t s = y.find('/'); if (t != "\ndt: " + y.substr(0, s) + "\nvt: " + y.substr(s + 1)) bad = "type of " + l + ": " + t; } }
            if (l != label(e)) bad = l + " instead of " + label(e);
            if (e.kind == Ex::Name && defined.count(e.text)) want.insert({defined[e.text], n});
            auto& k = kids[n];
            if (k.size() != e.kids.size()) { bad = std::to_string(k.size()) + " arguments of " + l; return; }
            for (size_t i = 0; i < k.size(); ++i) same_tree(k[i], e.kids[i]);
        };
        auto& top = kids[root];
        if (root.empty() || top.size() != p.size()) bad = std::to_string(top.size()) + " statements instead of " + std::to_string(p.size());
        else for (size_t i = 0; i < p.size(); ++i) {
            if (!p[i].assign) { same_tree(top[i], p[i].ex); continue; }
            ++count; auto& k = kids[top[i]];
            if (labels[top[i]] != "=" || k.size() != 2) { bad = "not an assignment: " + labels[top[i]]; continue; }
            same_tree(k[1], p[i].ex); ++count;
            if (labels[k[0]].substr(0, labels[k[0]].find('\n')) != p[i].target) bad = "target " + labels[k[0]];
            defined[p[i].target] = k[0];
        }
        if (bad.empty() && count != g.nodes.size()) bad = std::to_string(g.nodes.size()) + " nodes instead of " + std::to_string(count);
        if (!bad.empty()) mon().violation("graph-tree", bad);
        else if (use && uses != want) mon().violation("graph-uses", std::to_string(uses.size()) + " uses instead of " + std::to_string(want.size()) + ", or others");
        if (!use && !uses.empty()) mon().violation("graph-uses", "uses that were not asked for");
        if (cfg != (flow > 0) && !p.empty()) mon().violation("graph-flow", std::to_string(flow) + " edges of control");
    }
    else {
        std::vector<S> want; std::vector<std::pair<size_t, size_t>> edges; std::map<S, size_t> defined;
        std::map<Ex const*, size_t> node;   // where the value of an expression comes from
        std::function<void(Ex const&)> declare = [&](Ex const& e) {
            if (e.kind == Ex::Name && defined.count(e.text)) { node[&e] = defined[e.text]; return; }
            node[&e] = want.size(); want.push_back(label(e));
            for (auto& k : e.kids) declare(k);
            for (auto& k : e.kids) edges.push_back({node[&k], node[&e]});
        };
        for (auto& s : p) { declare(s.ex); if (s.assign) { defined[s.target] = want.size(); want.push_back(s.target); edges.push_back({node[&s.ex], defined[s.target]}); } }
        S bad; std::map<S, size_t> at; for (size_t i = 0; i < g.nodes.size(); ++i) at[g.nodes[i].id] = i;
        if (g.nodes.size() != want.size()) bad = std::to_string(g.nodes.size()) + " nodes instead of " + std::to_string(want.size());
        else for (size_t i = 0; i < want.size(); ++i) { S l = decode(g.nodes[i].a["label"]); if (l != want[i]) bad = l + " instead of " + want[i]; }
        if (bad.empty()) {
            std::multiset<std::pair<size_t, size_t>> a, b(edges.begin(), edges.end()); for (auto& e : g.edges) a.insert({at[e.from], at[e.to]});
            if (a != b) bad = std::to_string(a.size()) + " edges instead of " + std::to_string(b.size()) + ", or others";
        }
        if (!bad.empty()) mon().violation("graph-flowgraph", bad);
    }
    mon().count("nodes", g.nodes.size()); mon().count("edges", g.edges.size());
    // The same to a file.
    args.push_back(o);
    Done e = command(args, in ? x : "");
    if (!e.killed) { if (e.status != 0 || !e.err.empty() || !e.out.empty()) mon().violation("graph-status", std::to_string(e.status) + " " + shorten(e.err + e.out)); S t = slurp(o); if (renamed(t) != renamed(d.out)) mon().violation("graph-file", shorten(t)); }
    if (r.chance(15)) {
        args.back() = w.dir + "/nowhere/out.dot"; mon().at(log + " | to nowhere"); e = command(args, in ? x : "");
        if (e.status == 0 || e.err.find(args.back()) == S::npos) mon().violation("graph-unwritable", std::to_string(e.status) + " " + shorten(e.err));
        mon().count("failures provoked");
    }
    if (r.chance(15)) {
        args[args.size() - 2] = w.dir + "/absent"; args.back() = o; std::filesystem::remove(o); mon().at(log + " | of nothing"); e = command(args);
        if (e.status == 0 || e.err != "I/O error handling " + w.dir + "/absent: No such file or directory\n" || std::filesystem::exists(o)) mon().violation("graph-missing", std::to_string(e.status) + " " + shorten(e.err));
        mon().count("failures provoked");
    }
    mon().seen(log, !p.empty()); if (id < 2) mon().sample(shorten(log));
    std::filesystem::remove_all(w.dir);
}

// ------------------------------------------------------------------- describe
static S sorted(S const& t) { std::multiset<S> s; std::istringstream i(t); for (S l; std::getline(i, l);) s.insert(l); S o; for (auto& l : s) o += l + "\n"; return o; }
static void describe(Rng& r, size_t id) {
    S const dir = base + "/d" + std::to_string(id); std::filesystem::create_directory(dir);
    S log; std::map<S, S> want;   // argument, lines
    S const f = dir + "/set.gnr"; std::set<S> features, attributes;
    {
        auto d = fl::open_dataset(f, fl::OpenMode::OVERWRITE, "Fern");
        for (size_t k = 1 + r.below(4); k; --k) {
            S p = "f" + std::to_string(r.below(3)), at = "/" + p; features.insert(p);
            if (r.chance(40)) at += "/g" + std::to_string(r.below(2));
            at += "/x" + std::to_string(id) + std::to_string(k); d->write_attribute(*attribute(value(r, 0)), at); attributes.insert(at);
        }
    }
    S all; for (auto& p : features) { all += "feature: \"" + p + "\"\n"; want[f + ":" + p] = "feature: \"/" + p + "\"\n"; }
    want[f] = all; for (auto& a : attributes) want[f + ":" + a.substr(1)] = "attribute: \"" + a + "\"\n";
    want[f + ":nothing"] = want[f + ":f0/none"] = "Datapath does not point to a feature or attribute\n";
    want[dir + "/absent.gnr"] = want[dir + "/absent.gnr:f0"] = "Dataset does not exist\n";
    S const t = dir + "/ras.tif"; { Val v = value(r, 15); fl::open_dataset(t, fl::OpenMode::OVERWRITE, "GTiff")->write_attribute(*attribute(v), "/ras/ras"); }
    want[t] = "feature: \"ras\"\n"; want[t + ":ras"] = "feature: \"/ras\"\n"; want[t + ":ras/ras"] = "attribute: \"/ras/ras\"\n"; want[t + ":rat"] = "Datapath does not point to a feature or attribute\n";
    spit(dir + "/junk.gnr", "this is not a dataset"); want[dir + "/junk.gnr"] = "Dataset does not exist\n";
    for (auto& x : want) {
        if (r.chance(50)) continue;
        log = "describe " + x.first.substr(dir.size()); mon().at(log);
        S before; for (auto& e : std::filesystem::directory_iterator(dir)) before += e.path().string() + slurp(e.path().string()).substr(0, 100000);
        Done d = command({"describe", x.first});
        S after; for (auto& e : std::filesystem::directory_iterator(dir)) after += e.path().string() + slurp(e.path().string()).substr(0, 100000);
        if (before != after) mon().violation("describe-changes", log);
        if (d.killed) continue;
        S o = d.out; S q; for (char c : o) if (c != '"') q += c;
        S v; for (char c : x.second) if (c != '"') v += c;
        judge("describe", sorted(q), sorted(v)); judge("describe-error", d.err, "");
        mon().count("data described"); mon().seen(log + std::to_string(id));
    }
    std::filesystem::remove_all(dir);
}

// ------------------------------------------------------------------ arguments
static void arguments(Rng& r, size_t id) {
    struct Case { std::vector<S> a; int status; S first, err; bool help; };   // status: 0, or 1 for failure
    static std::vector<Case> const cases{
        {{"--help"}, 0, "usage: fern [--help]", "", true}, {{"--version"}, 0, "fern ", "", false}, {{"--build"}, 0, "", "", false},
        {{"execute"}, 0, "usage: fern execute", "", true}, {{"execute", "--help"}, 0, "usage: fern execute", "", true}, {{"execute", "a", "b"}, 1, "usage: fern execute", "Too many arguments.\n", true},
        {{"describe"}, 0, "usage: fern describe", "", true}, {{"describe", "--help"}, 0, "usage: fern describe", "", true}, {{"describe", "a", "b"}, 1, "usage: fern describe", "Too many arguments.\n", true},
        {{"import"}, 0, "usage: fern import", "", true}, {{"import", "--help"}, 0, "usage: fern import", "", true}, {{"import", "a"}, 1, "usage: fern import", "Not enough arguments.\n", true}, {{"import", "a", "b", "c"}, 1, "usage: fern import", "Too many arguments.\n", true},
        {{"compile"}, 0, "usage: fern compile [--help] LANGUAGE", "", true}, {{"compile", "--help"}, 0, "usage: fern compile [--help] LANGUAGE", "", true},
        {{"compile", "dot"}, 0, "usage: fern compile dot [--help]", "", true}, {{"compile", "dot", "--help"}, 0, "usage: fern compile dot [--help]", "", true},
        {{"compile", "dot", "ast"}, 0, "usage: fern compile dot ast", "", true}, {{"compile", "dot", "ast", "--help"}, 0, "usage: fern compile dot ast", "", true},
        {{"compile", "dot", "ast", "--with-cfg"}, 1, "usage: fern compile dot ast", "Not enough arguments.\n", true}, {{"compile", "dot", "ast", "-", "b", "c"}, 1, "usage: fern compile dot ast", "Too many arguments.\n", true}, {{"compile", "dot", "ast", "--with-use", "-", "b", "c", "d"}, 1, "usage: fern compile dot ast", "Too many arguments.\n", true},
        {{"compile", "dot", "flowgraph"}, 0, "usage: fern compile dot flowgraph", "", true}, {{"compile", "dot", "flowgraph", "--help"}, 0, "usage: fern compile dot flowgraph", "", true},
        {{"compile", "dot", "flowgraph", "-", "b", "c"}, 1, "usage: fern compile dot flowgraph", "Too many arguments.\n", true}, {{"compile", "dot", "flowgraph", "-", "b", "c", "d"}, 1, "usage: fern compile dot flowgraph", "Too many arguments.\n", true},
        {{"compile", "dot", "@"}, 1, "", "Unknown graph type: @\nSee 'fern compile dot --help' for list of types.\n", false},
        {{"compile", "c++"}, 0, "usage: fern compile c", "", true}, {{"compile", "c++", "--help"}, 0, "usage: fern compile c", "", true},
        {{"compile", "c++", "a"}, 1, "usage: fern compile c", "Not enough arguments.\n", true}, {{"compile", "c++", "--dump_driver", "a"}, 1, "usage: fern compile c", "Not enough arguments.\n", true}, {{"compile", "c++", "a", "b", "c"}, 1, "usage: fern compile c", "Too many arguments.\n", true},
        {{"compile", "xml", "--help"}, 0, "usage: fern compile xml", "", true}, {{"compile", "xml", "a", "b", "c"}, 1, "usage: fern compile xml", "Too many arguments.\n", true},
        {{"compile", "@"}, 1, "", "Unknown target language: @\nSee 'fern compile --help' for list of languages.\n", false},
        {{"@"}, 1, "usage: fern [--help]", "", true}, {{"@", "a", "b"}, 1, "usage: fern [--help]", "", true}, {{""}, 1, "usage: fern [--help]", "", true},
    };
    Case c = cases[id % cases.size()];
    S const word = r.chance(30) ? "exec" : r.chance(30) ? "--hel" : name(r); S log = "fern";
    for (auto& a : c.a) { if (a == "@") a = word; log += " " + a; }
    for (size_t at; (at = c.err.find('@')) != S::npos;) c.err.replace(at, 1, word);
    mon().at(log);
    Done d = command(c.a);
    if (!d.killed) {
        if ((d.status == 0) != (c.status == 0)) mon().violation("arguments-status", std::to_string(d.status));
        if (d.out.compare(0, c.first.size(), c.first) != 0) mon().violation("arguments-help", shorten(d.out));
        if (!c.help && c.status && !d.out.empty()) mon().violation("arguments-output", shorten(d.out));
        judge("arguments-error", d.err, c.err);
        mon().count(c.status ? "refusals" : "helps");
    }
    mon().seen(log);
}

// ------------------------------------------------------------------------ C++
static void module(Rng& r, size_t id) {
    World w; w.dir = base + "/m" + std::to_string(id); std::filesystem::create_directory(w.dir);
    size_t serial = 0; std::map<S, std::shared_ptr<Source>> none; std::vector<St> p;
    S wrong, message;   // a program that cannot be compiled
    S const stem = "mod" + std::to_string(r.below(9)), source = "in/" + stem + ".ran";
    {
        Gen g(r, w, none, serial); p = g.program();
        auto q = p; St s; s.line = g.line; s.assign = r.chance(50); s.target = "z";
        s.ex = r.chance(50) ? g.call("do_it", {}) : g.call("abs", {g.number(1), g.number(1)});
        message = source + ":" + std::to_string(s.ex.line) + ":" + std::to_string(s.ex.col) + (s.ex.text == "abs" ? ": Wrong number of arguments for operation: abs: 1 required, but 2 provided\n" : ": Undefined operation: do_it\n");
        q.push_back(s); wrong = xml(q, source);
    }
    S const x = xml(p, source), f = w.dir + "/in", o = w.dir + "/out"; spit(f, x);
    std::filesystem::create_directory(o);
    bool const in = r.chance(40), driver = r.chance(40), cmake = r.chance(40), relative = r.chance(30);
    std::vector<S> args{"compile", "c++"}; if (driver) args.push_back("--dump_driver"); if (cmake) args.push_back("--dump_cmake");
    args.push_back(in ? "-" : f); args.push_back(relative ? std::filesystem::relative(o).string() : o);
    S log = "module: " + text(p) + (driver ? " driver" : "") + (cmake ? " cmake" : ""); mon().at(log);
    for (int round = 0; round < 2; ++round) {   // once more, over what is there
        Done d = command(args, in ? x : "");
        if (d.killed) break;
        if (d.status != 0 || !d.err.empty()) { mon().violation("module-status", std::to_string(d.status) + " " + shorten(d.err)); break; }
        std::set<S> got, want{stem + ".h", stem + ".cc"}; if (driver) want.insert("main.cc"); if (cmake) want.insert("CMakeLists.txt");
        for (auto& e : std::filesystem::directory_iterator(o)) { got.insert(e.path().filename().string()); if (slurp(e.path().string()).empty()) mon().violation("module-empty", e.path().filename().string()); }
        if (got != want) { S l; for (auto& g : got) l += g + " "; mon().violation("module-files", l); }
        S const h = slurp(o + "/" + stem + ".h"), c = slurp(o + "/" + stem + ".cc");
        if (h.find(stem) == S::npos || c.find("\"" + stem + ".h\"") == S::npos) mon().violation("module-text", "names");
        mon().count("modules written");
    }
    if (r.chance(40)) {
        std::filesystem::create_directory(w.dir + "/out2"); spit(w.dir + "/in2", wrong); mon().at(log + " | then what cannot be compiled");
        auto a = args; a.back() = w.dir + "/out2"; if (!in) a[a.size() - 2] = w.dir + "/in2";
        Done d = command(a, in ? wrong : "");
        if (!d.killed) { if (d.status == 0) mon().violation("module-status", "0 for a program that cannot be compiled"); judge("module-error", d.err, message); if (!std::filesystem::is_empty(w.dir + "/out2")) mon().violation("module-files", "files although the program cannot be compiled"); }
        mon().count("failures provoked");
    }
    if (r.chance(30)) {
        args.back() = w.dir + "/nowhere"; mon().at(log + " | to nowhere"); Done d = command(args, in ? x : "");
        if (d.status == 0 || d.err.find("nowhere") == S::npos) mon().violation("module-unwritable", std::to_string(d.status) + " " + shorten(d.err));
        mon().count("failures provoked");
    }
    if (r.chance(20)) {
        args[args.size() - 2] = w.dir + "/absent"; args.back() = o; mon().at(log + " | of nothing"); Done d = command(args);
        if (d.status == 0 || d.err != "I/O error handling " + w.dir + "/absent: No such file or directory\n") mon().violation("module-missing", std::to_string(d.status) + " " + shorten(d.err));
        mon().count("failures provoked");
    }
    mon().seen(log, !p.empty());
    std::filesystem::remove_all(w.dir);
}

int main(int argc, char** argv) {
    if (argc > 1 && S(argv[1]) == "--fern") return fern_main(argc - 1, argv + 1);
    mon().init(argc, argv);
    Scratch scratch;
    self = "fern"; base = scratch.dir.string();
    fl::IOClient client;
    if (mon().want("execute")) { Rng r = mon().rng("execute"); for (size_t i = 0, n = mon().n(60, 1500); i < n; ++i) execute(r, i); }
    if (mon().want("session")) { Rng r = mon().rng("session"); for (size_t i = 0, n = mon().n(80, 2000); i < n; ++i) session(r, i); }
    if (mon().want("graph")) { Rng r = mon().rng("graph"); for (size_t i = 0, n = mon().n(80, 2000); i < n; ++i) graph(r, i); }
    if (mon().want("describe")) { Rng r = mon().rng("describe"); for (size_t i = 0, n = mon().n(12, 300); i < n; ++i) describe(r, i); }
    if (mon().want("arguments")) { Rng r = mon().rng("arguments"); for (size_t i = 0, n = mon().n(60, 600); i < n; ++i) arguments(r, i); }
    if (mon().want("module")) { Rng r = mon().rng("module"); for (size_t i = 0, n = mon().n(30, 600); i < n; ++i) module(r, i); }
    return mon().finish();
}

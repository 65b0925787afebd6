// C31: programs compiled to C++. Random programs are translated, what comes out
// is compiled and loaded, and running it is judged against the model of the
// program, and against what the generated driver does with a command line.
#include "programs.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <set>
#include <sstream>
#include "fern/language/compiler/compiler.h"
#include "fern/language/compiler/module.h"

static S base, compiler_command;
static S shorten(S const& s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }

// What the code that is loaded offers.
using Run_f = int (*)(std::vector<std::shared_ptr<fl::DataSource>> const*, std::vector<std::shared_ptr<fl::DataSync>> const*, S*);
using Describe_f = void (*)(std::vector<fl::DataDescription>*, std::vector<fl::DataDescription>*);
using Driver_f = int (*)(int, char**);

struct Case {
    size_t id = 0; S dir, stem; World w;
    std::map<S, std::shared_ptr<Source>> sources;   // everything that can be asked for
    std::vector<St> p; S failure; bool writes = false, driver = false;
    std::vector<S> inputs, outputs;
};

static void names(Ex const& e, std::set<S>& known, std::vector<S>& inputs) {
    if (e.kind == Ex::Name && known.insert(e.text).second) inputs.push_back(e.text);
    for (auto& k : e.kids) names(k, known, inputs);
}
static void rename(Ex& e, std::map<S, S> const& m) { if (e.kind == Ex::Name) { auto i = m.find(e.text); if (i != m.end()) e.text = i->second; } for (auto& k : e.kids) rename(k, m); }
static bool writes(Ex const& e) { if (e.text == "write" && e.kind == Ex::Call) return true; for (auto& k : e.kids) if (writes(k)) return true; return false; }
// What a run has to do, given values for the inputs.
static S model(Case const& c, World& w, std::map<S, std::shared_ptr<Source>> const& sources, std::map<S, Item>& results) {
    Run run{w, sources, {}, {}};
    for (auto& i : c.inputs) w.names[i] = Item{sources.at(i)->v, ""};
    try {
        for (auto& s : c.p) {
            std::vector<Item> out; run.eval(s.ex, out);
            if (s.assign) results[s.target] = w.names[s.target] = out.at(0);
        }
    }
    catch (Failure const& f) { return f.message; }
    return "";
}
static St statement(Gen& g, Ex const& e, S const& target = "") { St s; s.assign = !target.empty(); s.target = target; s.ex = e; s.line = g.line++; return s; }
static S mistake(Rng& r, Gen& g, std::vector<St>& p, S const& source) {
    Ex e; S message;
    if (r.chance(40)) { e = g.call("do_" + std::to_string(r.below(3)), r.chance(50) ? std::vector<Ex>{g.number(1)} : std::vector<Ex>{}); message = "Undefined operation: " + e.text; }
    else {
        S const ops[] = {"abs", "read", "write", "add", "int32"}; size_t const need[] = {1, 1, 3, 2, 1}; size_t o = r.below(5), n = r.below(5); if (n == need[o]) n = need[o] + 1;
        std::vector<Ex> a; for (size_t i = 0; i < n; ++i) a.push_back(g.expr());
        e = g.call(ops[o], a); message = "Wrong number of arguments for operation: " + e.text + ": " + std::to_string(need[o]) + " required, but " + std::to_string(n) + " provided";
    }
    message = source + ":" + std::to_string(e.line) + ":" + std::to_string(e.col) + ": " + message;
    if (r.chance(30)) e = g.call("abs", {e});
    p.push_back(statement(g, e, r.chance(50) ? g.fresh() : S()));
    return message;
}
static void program(Rng& r, Case& c, size_t id) {
    c.id = id; c.stem = (r.chance(50) ? "m" : r.chance(50) ? "model_" : "Module") + std::to_string(id);
    c.dir = base + "/p" + std::to_string(id); std::filesystem::create_directory(c.dir); std::filesystem::create_directory(c.dir + "/code");
    c.w.dir = c.dir;
    for (size_t i = r.below(3); i; --i) { Val v = value(r, r.chance(50) ? 0 : 3 + int(r.below(8))); S f = c.dir + "/g" + std::to_string(i) + ".gnr"; fl::open_dataset(f, fl::OpenMode::OVERWRITE, "Fern")->write_attribute(*attribute(v), "/f0/there"); c.w.gnr[f]["/f0/there"] = v; }
    for (size_t i = r.below(3); i; --i) { Val v = value(r, 11 + int(r.below(7))); S s = "there" + std::to_string(i), f = c.dir + "/" + s + ".tif"; fl::open_dataset(f, fl::OpenMode::OVERWRITE, "GTiff")->write_attribute(*attribute(v), "/" + s + "/" + s); c.w.tif[f] = v; }
    c.driver = r.chance(40);   // run by the generated driver: only with values a command line can give
    for (size_t i = r.below(5); i; --i) {
        S n = r.chance(70) ? "s" + std::to_string(r.below(4)) : std::string(1, char('a' + r.below(5)));
        int const given[] = {0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17};
        c.sources[n] = std::make_shared<Source>(n, value(r, c.driver ? given[r.below(19)] : int(r.below(21))));
    }
    size_t serial = 0; S const source = (r.chance(30) ? "" : r.chance(50) ? "/some/where/" : "dir.d/") + c.stem + (r.chance(80) ? ".ran" : "");
    Gen g(r, c.w, c.sources, serial);
    c.p = g.program();
    if (r.chance(25)) {   // What else can be written down.
        Val const odd[] = {std::numeric_limits<int64_t>::lowest(), std::numeric_limits<int32_t>::lowest(), std::numeric_limits<int16_t>::lowest(), std::numeric_limits<int8_t>::lowest(),
                           std::numeric_limits<uint64_t>::max(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<float>::denorm_min(), std::numeric_limits<double>::max(), std::numeric_limits<float>::min(), 0.1, 0.1f,
                           S("\"quoted\""), S("back\\slash\\"), S("two\nlines\tand tabs"), S("what??/ ??= is"), S("%1% %d $HOME {}"), S("\xc3\xa9""1 \xe2\x82\xac" "42"), S("// not /* a comment"), S("R\"(raw)\"")};
        c.p.push_back(statement(g, g.lit(odd[r.below(19)]), "odd"));
    }
    if (r.chance(15)) {
        Ex e;
        switch (r.below(4)) {
        case 0: e = g.call("read", {g.str(c.dir + "/missing.gnr:a/b")}); break;
        case 1: { S f = c.w.gnr.empty() ? c.dir + "/missing.gnr" : c.w.gnr.begin()->first; e = g.call("read", {g.str(f + ":f0/absent")}); break; }
        case 2: e = g.call("write", {g.lit(value(r, 0)), g.str(c.dir + "/x.gnr:a/b"), g.str("NoSuchFormat")}); break;
        default: e = g.call("write", {g.lit(value(r, 0)), g.str(c.dir + "/nowhere/x.gnr:a/b"), g.str("Fern")});
        }
        bool const assign = e.text == "read" && r.chance(50);
        c.p.push_back(statement(g, e, assign ? g.fresh() : S()));
        for (size_t i = r.below(3); i; --i) c.p.push_back(statement(g, g.lit(value(r, 0)), "late" + std::to_string(r.below(2))));
    }
    if (r.chance(40)) {   // Names that mean something in C++, or in the code that is made.
        S const odd[] = {"int", "new", "class", "double", "data_sources", "data_syncs", "run", "_operations", "std", "fern", "EOF", "NULL", "case", "results", "module", "_1", "x_", "x", "A", "operations"};
        std::map<S, S> m; size_t shift = r.below(20);
        for (size_t i = 0; i < 20; ++i) if (r.chance(70)) m[S(1, char('a' + i))] = odd[(i + shift) % 20];
        for (auto& s : c.p) { rename(s.ex, m); if (m.count(s.target)) s.target = m[s.target]; }
        std::map<S, std::shared_ptr<Source>> renamed;
        for (auto& x : c.sources) { S n = m.count(x.first) ? m[x.first] : x.first; x.second->name = n; renamed[n] = x.second; }
        c.sources = renamed;
    }
    std::set<S> known;
    for (auto& s : c.p) {
        names(s.ex, known, c.inputs); c.writes = c.writes || writes(s.ex);
        if (s.assign) { known.insert(s.target); c.outputs.erase(std::remove(c.outputs.begin(), c.outputs.end(), s.target), c.outputs.end()); c.outputs.push_back(s.target); }
    }
    { World w = c.w; std::map<S, Item> x; c.failure = model(c, w, c.sources, x); }

    S const f = c.dir + "/input.xml", log = "compile " + c.stem + ": " + text(c.p); mon().at(log);
    fl::Compiler compiler("h", "cc");
    S const code = c.dir + "/code";
    if (r.chance(35)) {   // First something that cannot be compiled: nothing is written.
        std::vector<St> p = c.p; S want = mistake(r, g, p, source); spit(f, xml(p, source)); mon().at("compile " + text(p));
        try { compiler.compile(f, code, fl::Compiler::DUMP_DRIVER); mon().violation("compile-silent", "no error; expected " + want); }
        catch (fern::ValidateError const& e) { if (e.message() != want) mon().violation("compile-message", "\"" + e.message() + "\" instead of \"" + want + "\""); }
        catch (std::exception const& e) { mon().violation("compile-foreign", e.what()); }
        if (!std::filesystem::is_empty(code)) mon().violation("compile-partly", "files are left although the program cannot be compiled");
        mon().count("failures provoked"); mon().at(log);
    }
    S const x = xml(c.p, source); spit(f, x);
    int const flags = fl::Compiler::DUMP_DRIVER | (r.chance(30) ? fl::Compiler::DUMP_CMAKE : 0);
    try { compiler.compile(f, code, flags); }
    catch (fern::Exception const& e) { mon().violation("compile-error", e.message()); }
    catch (std::exception const& e) { mon().violation("compile-error", e.what()); }
    std::set<S> got, want{c.stem + ".h", c.stem + ".cc", "main.cc"}; if (flags & fl::Compiler::DUMP_CMAKE) want.insert("CMakeLists.txt");
    for (auto& e : std::filesystem::directory_iterator(code)) got.insert(e.path().filename().string());
    if (got != want) mon().violation("compile-files", std::to_string(got.size()) + " files instead of " + std::to_string(want.size()) + ", or others");
    if (slurp(f) != x) mon().violation("compile-input", "the program is changed");
    if (r.chance(30)) { S t = slurp(code + "/" + c.stem + ".cc"); compiler.compile(f, code); if (slurp(code + "/" + c.stem + ".cc") != t) mon().violation("compile-again", "other code the second time"); }
    mon().count("programs compiled");
}

static S judge_files(World const& w) {
    for (auto& f : w.gnr) try {
        auto d = fl::open_dataset(f.first, fl::OpenMode::READ, "Fern");
        for (auto& p : f.second) { S e = differs(d->read_attribute(p.first), p.second); if (!e.empty()) return f.first + " " + p.first + ": " + e; mon().count("attributes in files"); }
    }
    catch (fern::Exception const& e) { return e.message(); }
    for (auto& f : w.tif) try {
        S s = std::filesystem::path(f.first).stem().string(), e = differs(fl::open_dataset(f.first, fl::OpenMode::READ, "GTiff")->read_attribute("/" + s + "/" + s), f.second);
        if (!e.empty()) return f.first + ": " + e;
        mon().count("attributes in files");
    }
    catch (fern::Exception const& e) { return e.message(); }
    return "";
}
static void run_module(Rng& r, Case& c, Run_f run) {
    size_t const again = c.writes ? 1 : 1 + r.below(3);
    for (size_t k = 0; k < again; ++k) {
        std::map<S, std::shared_ptr<Source>> sources; S log = c.stem + " " + text(c.p) + " with";
        for (auto& p : c.sources) {
            Val v = p.second->v;
            if (k > 0 && numeric(v)) { int const kinds[] = {0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}; v = value(r, kinds[r.below(20)]); }
            sources[p.first] = std::make_shared<Source>(p.first, v); log += " " + p.first + "=" + show(v);
        }
        std::vector<std::shared_ptr<fl::DataSource>> in; std::vector<std::shared_ptr<fl::DataSync>> out; std::vector<std::shared_ptr<Sink>> sinks;
        for (auto& n : c.inputs) in.push_back(sources.at(n));
        for (auto& n : c.outputs) { sinks.push_back(std::make_shared<Sink>(n)); out.push_back(sinks.back()); }
        if (r.chance(30)) {   // Other numbers of sources than there are inputs.
            auto wrong = in; S want = "Not enough data sources";
            if (in.empty() || r.chance(40)) { wrong.push_back(std::make_shared<Source>("more", value(r, 0))); want = "Too many data sources"; } else wrong.resize(r.below(in.size()));
            mon().at(log + " | " + std::to_string(wrong.size()) + " sources for " + std::to_string(in.size()));
            effects.clear(); S message; int s = run(&wrong, &out, &message);
            if (s != 2 || message != want) mon().violation("sources-number", std::to_string(s) + " \"" + message + "\" instead of \"" + want + "\"");
            if (!effects.empty()) mon().violation("sources-effects", effects[0] + " although the number of sources is wrong");
            mon().count("failures provoked");
        }
        if (r.chance(25)) out.resize(r.below(out.size() + 1));
        else if (r.chance(20)) { sinks.push_back(std::make_shared<Sink>("more")); out.push_back(sinks.back()); }
        mon().at(log + " -> " + std::to_string(out.size()) + " of " + std::to_string(c.outputs.size()));
        World w = c.w; std::map<S, Item> results; S failure = model(c, w, sources, results);
        std::vector<S> want; for (auto& n : c.inputs) want.push_back("read " + n);
        if (failure.empty()) for (size_t i = 0; i < std::min(out.size(), c.outputs.size()); ++i) want.push_back("write " + c.outputs[i]);
        effects.clear(); S message; int s = run(&in, &out, &message);
        if (s != (failure.empty() ? 0 : 1) || message != failure) mon().violation("run-failure", std::to_string(s) + " \"" + message + "\" instead of \"" + failure + "\"");
        std::vector<S> a = effects, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) { S x, y; for (auto& e : a) x += e + ", "; for (auto& e : b) y += e + ", "; mon().violation("run-effects", "[" + x + "] instead of [" + y + "]"); }
        else if (failure.empty()) for (size_t i = 0; i < std::min(out.size(), c.outputs.size()); ++i) {
            Item const& x = results.at(c.outputs[i]); auto& q = sinks[i]->written;
            S d = q.size() != 1 ? "written " + std::to_string(q.size()) + " times" : !x.feature.empty() ? "" : !q[0] ? "not an attribute" : differs(q[0], x.v);
            if (!d.empty()) mon().violation("run-output", c.outputs[i] + ": " + d);
            mon().count("outputs judged");
        }
        S d = judge_files(w); if (!d.empty()) mon().violation("run-files", d);
        mon().count(failure.empty() ? "modules run" : "failures provoked"); mon().seen(log + std::to_string(out.size()), !c.p.empty());
    }
    if (c.id < 3) mon().sample(shorten(text(c.p)));
}

// The generated driver, as a program of its own.
static void run_driver(Rng& r, Case& c, Driver_f driver) {
    std::vector<S> words{"program"}; std::map<S, std::shared_ptr<Source>> sources; S log = c.stem + " " + text(c.p) + " given";
    for (auto& n : c.inputs) {
        Val v = c.sources.at(n)->v;
        if (auto i = std::get_if<int64_t>(&v)) words.push_back(std::to_string(*i));
        else if (auto d = std::get_if<double>(&v); d && std::isfinite(*d)) { char b[64]; snprintf(b, sizeof b, "%.17g", *d); words.push_back(b); if (S(b).find_first_of(".e") == S::npos) words.back() += ".0"; }
        else if (auto s = std::get_if<S>(&v)) { S t = "word " + *s; for (auto& x : t) if (x == ':' || x == '/') x = '_'; v = t; words.push_back(t); }
        else if (!field(v)) { S f = c.dir + "/in_" + n + ".gnr"; fl::open_dataset(f, fl::OpenMode::OVERWRITE, "Fern")->write_attribute(*attribute(v), "/a/b"); words.push_back(f + ":a/b"); }
        else { S s = "in_" + n, f = c.dir + "/" + s + ".tif"; fl::open_dataset(f, fl::OpenMode::OVERWRITE, "GTiff")->write_attribute(*attribute(v), "/" + s + "/" + s); words.push_back(f + ":" + s + "/" + s); }
        sources[n] = std::make_shared<Source>(n, v); log += " " + n + "=" + show(v);
    }
    World w = c.w; std::map<S, Item> results; S want = model(c, w, sources, results); bool runs = true;
    std::vector<std::pair<S, Item>> files;   // outputs that can be written to a Fern dataset
    if (want.empty() || r.chance(50)) for (auto& o : c.outputs) {
        auto x = results.find(o);
        if (x == results.end() || !x->second.feature.empty() || !numeric(x->second.v) || field(x->second.v) || r.chance(15)) break;
        S f = c.dir + "/out_" + o + ".gnr"; words.push_back(f + ":x/y_" + o); files.push_back({f, x->second});
    }
    if (!want.empty()) files.clear();
    if (!c.inputs.empty() && r.chance(15)) { words.resize(1 + r.below(c.inputs.size())); want = "Not enough data sources"; runs = false; }
    else if (files.size() == c.outputs.size() && words.size() == 1 + c.inputs.size() + c.outputs.size() && r.chance(25)) { words.push_back("7"); want = "Too many command line arguments provided"; runs = false; }
    if (!runs) { files.clear(); w = c.w; }
    log += " (" + std::to_string(words.size() - 1) + " arguments)"; mon().at(log);
    S const o = c.dir + "/stdout", e = c.dir + "/stderr";
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        int a = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666), b = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (a < 0 || b < 0 || dup2(a, 1) < 0 || dup2(b, 2) < 0) _exit(120);
        std::vector<char*> argv; for (auto& x : words) argv.push_back(x.data());
        argv.push_back(nullptr);
        int s = driver(int(words.size()), argv.data());
        std::cout.flush(); std::cerr.flush(); _exit(s);
    }
    int status = 0; bool over = false;
    for (int k = 0; k < 12000 && !over; ++k) { over = waitpid(p, &status, WNOHANG) == p; if (!over) usleep(k < 200 ? 500 : 5000); }
    if (!over) { kill(p, SIGKILL); waitpid(p, &status, 0); mon().violation("driver-hang", "the program does not end"); return; }
    S err = slurp(e);
    if (!WIFEXITED(status) || err.find("Sanitizer") != S::npos || err.find("runtime error:") != S::npos) { size_t f = err.find("ERROR: "); mon().violation("driver-crash", err.substr(f == S::npos ? 0 : f, 400)); return; }
    if ((WEXITSTATUS(status) == 0) != want.empty()) mon().violation("driver-status", std::to_string(WEXITSTATUS(status)) + " " + shorten(err));
    if (err != (want.empty() ? "" : want + "\n")) mon().violation("driver-message", "\"" + shorten(err) + "\" instead of \"" + want + "\"");
    if (!slurp(o).empty()) mon().violation("driver-output", shorten(slurp(o)));
    S d = judge_files(w); if (!d.empty()) mon().violation("driver-files", d);
    for (auto& f : files) try {
        S n = f.first.substr(f.first.rfind("out_") + 4); n.resize(n.size() - 4);
        S x = differs(fl::open_dataset(f.first, fl::OpenMode::READ, "Fern")->read_attribute("/x/y_" + n), f.second.v);
        if (!x.empty()) mon().violation("driver-result", n + ": " + x);
        mon().count("outputs judged");
    }
    catch (fern::Exception const& x) { mon().violation("driver-result", x.message()); }
    mon().count(want.empty() ? "drivers run" : "failures provoked"); mon().seen(log, !c.p.empty());
}

static bool batch(Rng& r, size_t b, size_t n) {
    std::vector<Case> cases(n);
    for (size_t i = 0; i < n; ++i) program(r, cases[i], b * n + i);
    // All of it in one translation unit, that is compiled and loaded.
    std::ostringstream t;
    t << "#include <cstdlib>\n#include <iostream>\n#include <tuple>\n#include \"fern/core/exception.h\"\n#include \"fern/language/io/io_client.h\"\n#include \"fern/language/compiler/parse_command_line.h\"\n";
    for (auto& c : cases) {
        S const k = std::to_string(c.id), f = c.dir + "/code/";
        t << "#include \"" << f << c.stem << ".cc\"\n#define main driver_" << k << "\nextern \"C\"\n#include \"" << f << "main.cc\"\n#undef main\n"
          << "extern \"C\" void describe_" << k << "(std::vector<fern::language::DataDescription>* a, std::vector<fern::language::DataDescription>* r) { " << c.stem << " m; for (auto& x : m.arguments()) a->push_back(x); for (auto& x : m.results()) r->push_back(x); }\n"
          << "extern \"C\" int run_" << k << "(std::vector<std::shared_ptr<fern::language::DataSource>> const* a, std::vector<std::shared_ptr<fern::language::DataSync>> const* r, std::string* e) {\n"
          << "    try { " << c.stem << " m; m.run(*a, *r); return 0; }\n    catch (fern::Exception const& x) { *e = x.message(); return 1; }\n    catch (std::invalid_argument const& x) { *e = x.what(); return 2; }\n    catch (std::exception const& x) { *e = x.what(); return 3; }\n}\n";
    }
    S const cc = base + "/batch" + std::to_string(b) + ".cc", so = base + "/batch" + std::to_string(b) + ".so", log = base + "/compiler.log";
    spit(cc, t.str());
    mon().at("compile the code of programs " + std::to_string(b * n) + " to " + std::to_string(b * n + n - 1));
    if (std::system(("timeout 120 " + compiler_command + " -shared -fPIC '" + cc + "' -o '" + so + "' 2> '" + log + "'").c_str()) != 0) {
        // One by one, to say which.
        S const all = slurp(log); size_t told = 0;
        for (auto& c : cases) {
            mon().at("code of " + c.stem + ": " + text(c.p));
            if (all.find(c.dir + "/") == S::npos) continue;
            size_t at = all.find("error:"); mon().violation("not-cpp", shorten(at == S::npos ? all : all.substr(at)));
            if (++told == 3) break;
        }
        if (!told) mon().violation("not-cpp", shorten(all));
        for (auto& c : cases) std::filesystem::remove_all(c.dir);
        return false;
    }
    void* lib = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!lib) { mon().violation("not-cpp", dlerror()); return false; }
    for (auto& c : cases) {
        S const k = std::to_string(c.id);
        auto describe = (Describe_f)dlsym(lib, ("describe_" + k).c_str()); auto run = (Run_f)dlsym(lib, ("run_" + k).c_str()); auto driver = (Driver_f)dlsym(lib, ("driver_" + k).c_str());
        if (!describe || !run || !driver) { mon().violation("harness", "symbols of " + c.stem); continue; }
        mon().at("describe " + c.stem + ": " + text(c.p));
        std::vector<fl::DataDescription> a, o; describe(&a, &o);
        S x, y; for (auto& i : a) x += i.name() + "(" + i.description() + ") "; x += "->"; for (auto& i : o) x += " " + i.name() + "(" + i.description() + ")";
        for (auto& i : c.inputs) y += i + "(" + i + ") "; y += "->"; for (auto& i : c.outputs) y += " " + i + "(" + i + ")";
        if (x != y) mon().violation("descriptions", x + " instead of " + y);
        else if (c.driver) run_driver(r, c, driver); else run_module(r, c, run);
        std::filesystem::remove_all(c.dir);
    }
    dlclose(lib);
    return true;
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    compiler_command = slurp(std::filesystem::read_symlink("/proc/self/exe").string() + ".cmd");
    if (compiler_command.empty()) { fprintf(stderr, "no compiler command\n"); return 2; }
    Scratch scratch; base = scratch.dir.string();
    fl::IOClient client;
    if (mon().want("programs")) { Rng r = mon().rng("programs"); for (size_t i = 0, n = mon().n(1, 60); i < n; ++i) if (!batch(r, i, 40)) break; }
    return mon().finish();
}

// C27: programs do what they say. Random programs are executed by the
// interpreter, one after the other, next to a model of what they have to do.
#include "programs.h"
static S const numbers = "Constant|StaticField/Uint8|Int8|Uint16|Int16|Uint32|Int32|Uint64|Int64|Float32|Float64";

struct World0 { World w; fl::Interpreter interpreter; };
static fl::ModuleVertexPtr parse(Rng& r, fl::Interpreter& i, S const& x, S const& source, S const& dir) {
    if (source == "<string>" || r.chance(50)) return i.parse_string(x);
    S f = dir + "/program.xml"; spit(f, x);
    return i.parse_file(f);
}
static void history(Rng& r, S const& base, size_t id) {
    S const dir = base + "/p" + std::to_string(id);
    std::filesystem::create_directory(dir);
    World w; w.dir = dir;
    fl::Interpreter in;
    size_t serial = 0; S log; size_t done = 0;
    size_t const files = open_files();
    for (size_t k = 1 + r.below(6); k; --k) {
        // Sources and sinks.
        std::map<S, std::shared_ptr<Source>> sources;
        if (r.chance(60)) for (size_t i = r.below(4); i; --i) { S n = r.chance(70) ? "s" + std::to_string(r.below(4)) : std::string(1, char('a' + r.below(5))); sources[n] = std::make_shared<Source>(n, value(r, int(r.below(21)))); }
        std::map<S, std::shared_ptr<Sink>> sinks;
        if (r.chance(60)) for (size_t i = r.below(4); i; --i) { S n(1, char('a' + r.below(8))); sinks[n] = std::make_shared<Sink>(n); }
        fl::Interpreter::DataSourceSymbolTable st; fl::Interpreter::DataSyncSymbolTable yt;
        if (!sources.empty() || r.chance(30)) { st.push_scope(); for (auto& p : sources) st.add_value(p.first, p.second); }
        if (!sinks.empty() || r.chance(30)) { yt.push_scope(); for (auto& p : sinks) yt.add_value(p.first, p.second); }
        S const source = r.chance(50) ? "<string>" : "some/file " + std::to_string(id) + ".ran";

        Gen g(r, w, sources, serial);
        std::vector<St> p = g.program();
        S wrong;   // the error of an invalid program
        bool any_error = false, may_fail = false;
        if (r.chance(30)) {   // One mistake.
            Ex e; S message;
            switch (r.below(6)) {
            case 0: e = g.name("nope" + std::to_string(r.below(3))); message = "Undefined identifier: " + e.text; break;
            case 1: e = g.call("do_" + std::to_string(r.below(3)), r.chance(50) ? std::vector<Ex>{g.number(1)} : std::vector<Ex>{}); message = "Undefined operation: " + e.text; break;
            case 2: {
                S const ops[] = {"abs", "read", "write", "add", "int32"}; size_t const need[] = {1, 1, 3, 2, 1}; size_t o = r.below(5), n = r.below(5); if (n == need[o]) n = need[o] + 1;
                std::vector<Ex> a; for (size_t i = 0; i < n; ++i) a.push_back(g.expr());
                e = g.call(ops[o], a); message = "Wrong number of arguments for operation: " + e.text + ": " + std::to_string(need[o]) + " required, but " + std::to_string(n) + " provided"; break;
            }
            case 3: { e = g.call(r.chance(50) ? "abs" : "int32", {g.lit(value(r, 2))}); message = "Wrong type of argument 1 provided for operation: " + e.text + ": " + numbers + " required, but Constant/String provided"; break; }
            case 4: { Val v = value(r, int(r.chance(50) ? 0 : 1)); e = g.call("read", {g.lit(v)}); message = "Wrong type of argument 1 provided for operation: read: Constant/String required, but " + type_of(v) + " provided"; break; }
            default: {
                auto n = g.such([](Val const& v) { return numeric(v); });
                Ex a = n.empty() ? g.lit(value(r, 0)) : g.name(r.pick(n)); Item x; { std::vector<Item> o; Gen h(r, w, sources, serial); h.w.names = g.w.names; h.run.eval(a, o); x = o[0]; }
                size_t which = r.below(3); Ex s = g.str(dir + "/never.gnr:a/b"), t = g.str("Fern");
                S need = which == 0 ? numbers : "Constant/String", got = which == 0 ? "Constant/String" : type_of(x.v);
                // The type of what is read is known to be a field with numbers only.
                e = g.call("write", {which == 0 ? g.str("text") : g.lit(value(r, 0)), which == 1 ? a : s, which == 2 ? a : t});
                message = "Wrong type of argument " + std::to_string(which + 1) + " provided for operation: write: " + need + " required, but " + got + " provided";
                if (which != 0 && a.kind == Ex::Name) any_error = true;   // or the type of a result read
            }
            }
            wrong = source + ":" + std::to_string(e.line) + ":" + std::to_string(e.col) + ": " + message;
            if (r.chance(30) && e.text != "write") e = g.call("abs", {e});
            St s; s.assign = r.chance(50); s.target = r.chance(50) ? "z" : g.fresh(); s.ex = e; s.line = g.line; s.col = int(r.below(5)); ++g.line;
            p.push_back(s);
            for (size_t i = r.below(3); i; --i) { St q; q.assign = r.chance(60); q.target = r.chance(50) ? "y" : g.fresh(); q.ex = g.lit(value(r, 0)); q.line = g.line++; p.push_back(q); }
        }
        else if (r.chance(20)) {   // Something that goes wrong along the way.
            St s; s.assign = r.chance(40); s.target = g.fresh(); s.line = g.line++;
            switch (r.below(4)) {
            case 0: s.ex = g.call("read", {g.str(dir + "/missing.gnr:a/b")}); break;
            case 1: { S f = w.gnr.empty() ? dir + "/missing.gnr" : w.gnr.begin()->first; s.ex = g.call("read", {g.str(f + ":f0/absent")}); break; }
            case 2: s.ex = g.call("write", {g.lit(value(r, 0)), g.str(dir + "/x.gnr:a/b"), g.str("NoSuchFormat")}); s.assign = false; break;
            default: s.ex = g.call("write", {g.lit(value(r, 0)), g.str(dir + "/nowhere/x.gnr:a/b"), g.str("Fern")}); s.assign = false;
            }
            if (s.ex.text == "read" && r.chance(30)) s.ex = g.call("abs", {s.ex});
            p.push_back(s); may_fail = true;
            for (size_t i = r.below(3); i; --i) { St q; q.assign = r.chance(60); q.target = "late" + std::to_string(r.below(2)); q.ex = g.lit(value(r, 0)); q.line = g.line++; p.push_back(q); }
        }
        S const x = xml(p, source);
        log += " | "; for (auto& s : sources) log += s.first + ":" + show(s.second->v) + " "; log += "-> "; for (auto& s : sinks) log += s.first + " "; log += text(p);
        mon().at(log);
        effects.clear();

        auto validate = [&] {
            try {
                if (sources.empty() && r.chance(50)) in.validate(parse(r, in, x, source, dir)); else in.validate(parse(r, in, x, source, dir), st);
                if (!wrong.empty()) mon().violation("validate-silent", "no error; expected " + wrong);
            }
            catch (fern::ValidateError const& e) { if (wrong.empty() || (!any_error && e.message() != wrong)) mon().violation("validate-message", "\"" + e.message() + "\" instead of \"" + wrong + "\""); }
            catch (std::exception const& e) { mon().violation("validate-foreign", e.what()); }
            if (!effects.empty()) mon().violation("validate-effects", effects[0] + " while validating");
            mon().count("programs validated");
        };
        if (r.chance(25)) { validate(); in.clear_stack(); w.stack.clear(); }

        if (!wrong.empty()) {
            try { in.execute(parse(r, in, x, source, dir), st, yt); mon().violation("execute-silent", "no error; expected " + wrong); }
            catch (fern::ValidateError const& e) { if (!any_error && e.message() != wrong) mon().violation("execute-message", "\"" + e.message() + "\" instead of \"" + wrong + "\""); }
            catch (std::exception const& e) { mon().violation("execute-foreign", e.what()); }
            if (!effects.empty()) mon().violation("invalid-effects", effects[0] + " although the program is not valid");
            if (std::filesystem::exists(dir + "/never.gnr")) mon().violation("invalid-effects", "dataset written although the program is not valid");
            mon().count("invalid programs");
        }
        else {
            // What has to happen.
            Run run{w, sources, {}, {}};
            for (auto& s : sources) w.names.erase(s.first);
            S failure; std::map<S, size_t> last; std::map<S, Item> sunk;
            for (size_t i = 0; i < p.size(); ++i) if (p[i].assign) last[p[i].target] = i;
            try {
                for (size_t i = 0; i < p.size(); ++i) {
                    std::vector<Item> out; run.eval(p[i].ex, out);
                    if (!p[i].assign) { w.stack.insert(w.stack.end(), out.begin(), out.end()); continue; }
                    if (last[p[i].target] == i && sinks.count(p[i].target)) { run.effects.push_back("write " + p[i].target); sunk[p[i].target] = out.at(0); }
                    w.names[p[i].target] = out.at(0);
                }
            }
            catch (Failure const& f) { failure = f.message; }
            if (failure.empty() == may_fail) { mon().violation("harness", "failure not planned: " + failure); return; }
            try {
                auto tree = parse(r, in, x, source, dir);
                if (sources.empty() && sinks.empty() && r.chance(50)) in.execute(tree); else in.execute(tree, st, yt);
                if (!failure.empty()) mon().violation("failure-silent", "no error; expected " + failure);
            }
            catch (fern::IOError const& e) { if (e.message() != failure) mon().violation("failure-message", "\"" + e.message() + "\" instead of \"" + failure + "\""); mon().count("failures provoked"); }
            catch (fern::Exception const& e) { mon().violation("execute-error", e.message()); break; }
            catch (std::exception const& e) { mon().violation("execute-foreign", e.what()); break; }
            if (effects != run.effects) { S a, b; for (auto& e : effects) a += e + ", "; for (auto& e : run.effects) b += e + ", "; mon().violation("effects", "[" + a + "] instead of [" + b + "]"); }
            for (auto& s : sunk) { auto& k = *sinks[s.first]; S d = k.written.size() != 1 ? std::to_string(k.written.size()) + " writes" : !s.second.feature.empty() ? "" : !k.written[0] ? "not an attribute" : differs(k.written[0], s.second.v); if (!d.empty()) mon().violation("output", s.first + ": " + d); mon().count("outputs judged"); }
            auto stack = in.stack();
            if (failure.empty()) {
                if (stack.size() != w.stack.size()) mon().violation("stack-size", std::to_string(stack.size()) + " values on the stack instead of " + std::to_string(w.stack.size()));
                else for (size_t i = w.stack.size(); i; --i) { S d = differs(stack.top(), w.stack[i - 1]); if (!d.empty()) mon().violation("stack-value", "value " + std::to_string(i - 1) + ": " + d); stack.pop(); }
            }
            mon().count("programs executed"); ++done;
        }
        if (!wrong.empty() || may_fail || r.chance(70)) { in.clear_stack(); w.stack.clear(); if (!in.stack().empty()) mon().violation("clear-stack", "values left"); }
        // Names that have no value are not known, whatever happened.
        for (S const& n : {S("z"), S("y"), S("late0"), S("late1"), S("s0"), S("s1")}) if (!w.names.count(n) && r.chance(30)) {
            mon().at(log + " | ask " + n);
            Ex e; e.kind = Ex::Name; e.text = n; St s; s.ex = e;
            try { in.execute(in.parse_string(xml({s}, "q"))); mon().violation("unknown-name", n + " has a value"); }
            catch (fern::ValidateError const& e2) { if (e2.message() != "q:1:0: Undefined identifier: " + n) mon().violation("unknown-name", e2.message()); }
            in.clear_stack(); w.stack.clear();
            mon().count("unknown names");
        }
    }
    // Everything that was given a name is still there, and in the files.
    for (auto& n : w.names) {
        mon().at(log + " | look at " + n.first);
        Ex e; e.kind = Ex::Name; e.text = n.first; St s; s.ex = e;
        in.clear_stack();
        in.execute(in.parse_string(xml({s}, "q")));
        auto stack = in.stack();
        if (stack.size() != 1) { mon().violation("name", n.first + " leaves no value"); continue; }
        S d = differs(stack.top(), n.second);
        if (!d.empty()) mon().violation("name", n.first + ": " + d);
    }
    for (auto& f : w.gnr) {
        mon().at(log + " | file " + f.first);
        auto d = fl::open_dataset(f.first, fl::OpenMode::READ, "Fern");
        for (auto& p : f.second) { S e = differs(d->read_attribute(p.first), p.second); if (!e.empty()) mon().violation("file", p.first + ": " + e); mon().count("attributes in files"); }
    }
    for (auto& f : w.tif) {
        mon().at(log + " | file " + f.first);
        S s = std::filesystem::path(f.first).stem().string();
        S e = differs(fl::open_dataset(f.first, fl::OpenMode::READ, "GTiff")->read_attribute("/" + s + "/" + s), f.second);
        if (!e.empty()) mon().violation("file", f.first + ": " + e);
        mon().count("attributes in files");
    }
    (void)files;
    mon().seen(log, done > 0);
    if (id < 3) mon().sample(log.substr(0, 300));
    std::filesystem::remove_all(dir);
}

// Real sources and sinks, as given on a command line.
static void command_line(Rng& r, S const& base, size_t id) {
    S const dir = base + "/c" + std::to_string(id);
    std::filesystem::create_directory(dir);
    std::vector<fl::DataDescription> inputs, outputs; std::vector<S> words{"program"}; std::vector<Val> want; std::vector<S> files;
    S log = "command line:";
    size_t const n = r.below(4), m = r.below(3);
    for (size_t i = 0; i < n; ++i) {
        inputs.emplace_back("i" + std::to_string(i));
        if (inputs.back().name() != "i" + std::to_string(i) || inputs.back().description() != inputs.back().name()) mon().violation("description", inputs.back().name());
        switch (r.below(4)) {
        case 0: { int64_t v = number<int64_t>(r); want.push_back(v); words.push_back(std::to_string(v)); break; }
        case 1: { double v = (r.unit() - 0.5) * 1e4; char b[64]; snprintf(b, sizeof b, "%.17g", v); want.push_back(v); words.push_back(b); if (S(b).find_first_of(".e") == S::npos) words.back() += ".0"; break; }
        case 2: { S v = "word " + name(r); for (auto& c : v) if (c == ':' || c == '/') c = '_'; want.push_back(v); words.push_back(v); break; }
        default: {
            if (r.chance(60)) {
                Val v = value(r, r.chance(50) ? 0 : 1); S f = dir + "/in" + std::to_string(i) + ".gnr";
                fl::open_dataset(f, fl::OpenMode::OVERWRITE, "Fern")->write_attribute(*attribute(v), "/a/b");
                want.push_back(v); words.push_back(f + ":a/b");
            }
            else {
                Val v = value(r, 15); S s = "in" + std::to_string(i), f = dir + "/" + s + ".tif";
                fl::open_dataset(f, fl::OpenMode::OVERWRITE, "GTiff")->write_attribute(*attribute(v), "/" + s + "/" + s);
                want.push_back(v); words.push_back(f + ":" + s + "/" + s);
            }
        }
        }
        log += " " + show(want.back());
    }
    for (size_t i = 0; i < m; ++i) { outputs.emplace_back("o" + std::to_string(i)); files.push_back(dir + "/out" + std::to_string(i) + ".gnr"); words.push_back(files.back() + ":x/y" + std::to_string(i)); }
    size_t given = words.size() - 1;
    if (r.chance(20)) { given = r.below(words.size()); words.resize(given + 1); }
    bool const extra = given == n + m && r.chance(15);
    if (extra) words.push_back("7");
    log += " given " + std::to_string(words.size() - 1) + " of " + std::to_string(n) + "+" + std::to_string(m); mon().at(log);
    std::vector<char*> argv; for (auto& s : words) argv.push_back(s.data());
    try {
        std::vector<Val> out;   // what is written to each of the outputs
        {
        auto [sources, sinks] = fl::parse_command_line(int(argv.size()), argv.data(), inputs, outputs);
        if (extra) mon().violation("command-line-silent", "too many arguments accepted");
        if (sources.size() != std::min(n, given) || sinks.size() != (given > n ? given - n : 0)) mon().violation("command-line-size", std::to_string(sources.size()) + " sources, " + std::to_string(sinks.size()) + " syncs");
        else {
            for (size_t i = 0; i < sources.size(); ++i) {
                Val const& v = want[i];
                fern::ExpressionType const t = Source("", v).type;
                if (!(sources[i]->expression_type() == t)) mon().violation("source-type", show(v));
                S d = differs(sources[i]->read(), Item{v, ""});
                if (!d.empty()) mon().violation("source-value", "\"" + words[i + 1] + "\": " + d);
                mon().count("sources judged");
            }
            for (size_t i = 0; i < sinks.size(); ++i) {
                Val v = value(r, r.chance(50) ? 0 : 1);
                fl::AttributeArgument a(attribute(v));
                sinks[i]->write(a); out.push_back(v);
            }
            for (size_t i = 0; i < sinks.size(); ++i) {
                auto s = std::dynamic_pointer_cast<fl::DatasetSync>(sinks[i]);
                if (!s || s->dataset()->name() != files[i] || !s->dataset()->contains_attribute("/x/y" + std::to_string(i))) mon().violation("sync", files[i]);
                mon().count("syncs judged");
            }
        }
        }
        for (size_t i = 0; i < out.size(); ++i) {
            auto d = fl::open_dataset(files[i], fl::OpenMode::READ, "Fern");
            if (d->nr_features() != 1) { mon().violation("sync-value", files[i] + " has other data"); continue; }
            S e = differs(d->read_attribute("/x/y" + std::to_string(i)), out[i]);
            if (!e.empty()) mon().violation("sync-value", files[i] + ": " + e);
            mon().count("attributes in files");
        }
    }
    catch (std::invalid_argument const& e) { if (!extra) mon().violation("command-line-error", e.what()); mon().count("failures provoked"); }
    catch (fern::Exception const& e) { mon().violation("command-line-error", e.message()); }
    catch (std::exception const& e) { mon().violation("command-line-error", e.what()); }
    mon().seen(log, n + m > 0);
    std::filesystem::remove_all(dir);
}

// Errors of the front end arrive with everything that is known about them.
static void errors(Rng& r, size_t id, S const& base) {
    fl::Interpreter in;
    front::Error e; e.kind = int(1 + r.below(4)); e.source = r.chance(50) ? "<string>" : name(r); e.line = long(r.below(1000)); e.col = long(r.below(200));
    e.statement = r.chance(50) ? "" : "a = " + name(r); e.message = name(r); e.number = r.chance(50) ? ENOENT : EACCES;
    S const at = e.source + ":" + std::to_string(e.line) + ":" + std::to_string(e.col) + ":";
    S want = e.kind == 1 ? "Error parsing " + at + " " + e.message : e.kind == 2 ? "Error parsing " + at + e.statement + ": " + e.message : e.kind == 3 ? "Error parsing " + at + " Unsupported language construct: " + e.message : "I/O error handling " + e.source + ": " + strerror(e.number);
    if (e.kind == 2 && e.statement.empty()) { e.kind = 1; want = "Error parsing " + at + " " + e.message; }
    bool const file = e.kind == 4 || r.chance(50);
    mon().at("error " + std::to_string(id) + " " + want);
    front::error = e;
    try {
        if (file) { S f = base + "/some.xml"; spit(f, "x"); in.parse_file(f); } else in.parse_string("x");
        mon().violation("front-silent", "no error");
    }
    catch (fern::ParseError const& x) { if (e.kind == 4 || x.message() != want) mon().violation("front-message", "\"" + x.message() + "\" instead of \"" + want + "\""); }
    catch (fern::IOError const& x) { if (e.kind != 4 || x.message() != want) mon().violation("front-message", "\"" + x.message() + "\" instead of \"" + want + "\""); }
    catch (std::exception const& x) { mon().violation("front-foreign", x.what()); }
    front::error = front::Error();
    mon().count("failures provoked"); mon().seen(want);
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    S const dir = scratch.dir.string();
    fl::IOClient client;
    if (mon().want("programs")) { Rng r = mon().rng("programs"); for (size_t i = 0, n = mon().n(250, 8000); i < n; ++i) history(r, dir, i); }
    if (mon().want("command-line")) { Rng r = mon().rng("command-line"); for (size_t i = 0, n = mon().n(60, 2000); i < n; ++i) command_line(r, dir, i); }
    if (mon().want("errors")) { Rng r = mon().rng("errors"); for (size_t i = 0, n = mon().n(100, 2000); i < n; ++i) errors(r, i, dir); }
    return mon().finish();
}

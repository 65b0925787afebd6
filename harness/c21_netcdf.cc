// C21: NetCDF datasets.
#include "io.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <memory>
#include <netcdf.h>
#include "fern/core/data_customization_point/scalar.h"
#include "fern/algorithm/policy/skip_no_data.h"
#include "fern/io/netcdf/coards/dataset.h"
#include "fern/io/netcdf/coards/read.h"
#include "fern/io/netcdf/core/attribute.h"
#include "fern/io/netcdf/core/dataset.h"
#include "fern/io/netcdf/core/variable.h"
using namespace vh;
namespace fin = fern::io::netcdf;

static size_t none() { return 0; }
static void ok(int s, char const* what) { if (s != NC_NOERR) { fprintf(stderr, "harness: %s: %s\n", what, nc_strerror(s)); _exit(2); } }

struct Var { std::string name; nc_type type; bool scalar; double value; int id; };
struct File {
    std::string path; bool nc4 = false;
    bool has_conventions = false; std::string conventions; bool text = true; // the attribute is text
    std::map<std::string, std::string> attributes; std::vector<Var> vars;
};

static std::string trim(std::string s) { size_t b = 0, e = s.size(); while (b < e && isspace((unsigned char)s[b])) ++b; while (e > b && isspace((unsigned char)s[e - 1])) --e; return s.substr(b, e - b); }
static std::vector<std::string> parse(File const& f) {
    std::vector<std::string> w; if (!f.has_conventions || !f.text) return w;
    bool comma = f.conventions.find(',') != std::string::npos; std::string cur;
    auto flush = [&] { if (!cur.empty()) w.push_back(comma ? trim(cur) : cur); cur.clear(); };
    for (char c : f.conventions) if (comma ? c == ',' : isspace((unsigned char)c)) flush(); else cur += c;
    flush(); return w;
}
static std::vector<nc_type> const types{NC_CHAR, NC_BYTE, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_UBYTE, NC_USHORT, NC_UINT, NC_INT64, NC_UINT64};
static fern::ValueType kind(nc_type t) {
    switch (t) {
    case NC_CHAR: return fern::VT_CHAR; case NC_BYTE: return fern::VT_INT8; case NC_SHORT: return fern::VT_INT16; case NC_INT: return fern::VT_INT32;
    case NC_FLOAT: return fern::VT_FLOAT32; case NC_DOUBLE: return fern::VT_FLOAT64; case NC_UBYTE: return fern::VT_UINT8; case NC_USHORT: return fern::VT_UINT16;
    case NC_UINT: return fern::VT_UINT32; case NC_INT64: return fern::VT_INT64; default: return fern::VT_UINT64;
    }
}
static std::string ident(Rng& r) { std::string s(1, char('a' + r.below(26))); for (size_t n = r.below(12); n--; ) s += "abcXYZ0189_"[r.below(11)]; return s; }

static File make(Rng& r, int n, bool coards) {
    File f; f.path = "f" + std::to_string(n) + "-" + name(r) + ".nc"; int format = int(r.below(3)); f.nc4 = format == 2;
    int id; ok(nc_create(f.path.c_str(), NC_CLOBBER | (format == 1 ? NC_64BIT_OFFSET : format == 2 ? NC_NETCDF4 : 0), &id), "create");
    if (coards || r.chance(85)) {
        f.has_conventions = true; std::vector<std::string> names{"CF-1.4", "Unidata Observation Dataset v1.0", "COARDS2", "coards", "ACDD-1.3", "xCOARDS", "ab"}; std::vector<std::string> w;
        for (size_t k = r.below(4); k--; ) w.push_back(r.pick(names));
        if (coards || r.chance(40)) w.insert(w.begin() + long(r.below(w.size() + 1)), "COARDS");
        std::string sep = r.chance(50) ? std::string(r.below(2), ' ') + "," + std::string(r.below(3), ' ') : std::string(1 + r.below(2), r.chance(30) ? '\n' : r.chance(30) ? '\t' : ' ');
        std::string s(r.chance(20) ? " " : ""); for (size_t i = 0; i < w.size(); ++i) s += (i ? sep : "") + w[i];
        if (r.chance(20)) s += sep; if (coards && parse([&] { File g; g.has_conventions = true; g.conventions = s; return g; }()).size() && s.find(',') == std::string::npos && s.find("COARDS") == std::string::npos) s = "COARDS";
        f.conventions = s;
        // Also names within names and text ended by a null character, as written by C programs.
        bool nul = r.chance(15); f.text = coards || !r.chance(8);
        if (f.text) ok(nc_put_att_text(id, NC_GLOBAL, "Conventions", s.size() + (nul ? 1 : 0), s.c_str()), "att");
        else { double v[2] = {1.5, 2}; ok(nc_put_att_double(id, NC_GLOBAL, "Conventions", NC_DOUBLE, 1 + r.below(2), v), "att"); }
    }
    for (size_t k = r.below(4); k--; ) {
        std::string a = "att_" + ident(r), v; for (size_t n2 = r.below(r.chance(5) ? 5000 : 30); n2--; ) v += char(32 + r.below(95));
        f.attributes[a] = v; ok(nc_put_att_text(id, NC_GLOBAL, a.c_str(), v.size(), v.c_str()), "att");
    }
    int dim; ok(nc_def_dim(id, "d", 1 + r.below(3), &dim), "dim");
    std::vector<std::string> used{"d"};
    for (size_t k = 1 + r.below(6); k--; ) {
        Var v; do v.name = ident(r); while (std::count(used.begin(), used.end(), v.name)); used.push_back(v.name);
        v.type = r.chance(45) ? NC_DOUBLE : types[r.below(f.nc4 ? 11 : 6)]; v.scalar = r.chance(75);
        uint64_t b = r.next(); std::memcpy(&v.value, &b, 8); if (r.chance(50)) v.value = double(r.range(-100, 100)) / 4;
        if (v.type != NC_DOUBLE) v.value = double(r.below(100));
        ok(nc_def_var(id, v.name.c_str(), v.type, v.scalar ? 0 : 1, v.scalar ? nullptr : &dim, &v.id), "var"); f.vars.push_back(v);
    }
    ok(nc_enddef(id), "enddef");
    for (auto& v : f.vars) if (v.scalar) { if (v.type == NC_CHAR) { char c = char(int(v.value)); ok(nc_put_var_text(id, v.id, &c), "put"); } else ok(nc_put_var_double(id, v.id, &v.value), "put"); }
    ok(nc_close(id), "close");
    return f;
}

static bool coards_of(File const& f) { auto w = parse(f); return std::count(w.begin(), w.end(), "COARDS") != 0; }
static std::string join(std::vector<std::string> const& w) { std::string s; for (auto& x : w) s += "<" + x + ">"; return s; }

static double read(std::string const& file, std::string const& variable) { double v = -77; fern::algorithm::SkipNoData p; fin::read_coards(p, fern::DataName(file + ":" + variable), v); return v; }
static bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); }

static void inspect(Rng& r, File const& f) {
    mon().at("netcdf " + f.path + (f.nc4 ? " nc4 " : " nc3 ") + "conventions " + (f.has_conventions ? f.conventions : "none") + (f.text ? "" : " (numeric)"));
    size_t before = open_files();
    try {
        auto h = fin::open_dataset(f.path);
        auto w = fin::conventions(h), e = parse(f);
        if (w != e) mon().violation("conventions", join(w) + " expected " + join(e));
        if (fin::conforms_to_coards(h) != coards_of(f)) mon().violation("conforms", join(e));
        if (fin::has_attribute(h, "Conventions") != f.has_conventions) mon().violation("has-attribute", "Conventions");
        for (auto& a : f.attributes) {
            if (!fin::has_attribute(h, a.first) || fin::has_attribute(h, a.first + "x")) mon().violation("has-attribute", a.first);
            else if (fin::attribute<std::string>(h, a.first) != a.second) mon().violation("attribute", a.first + " is " + fin::attribute<std::string>(h, a.first) + " not " + a.second);
        }
        for (auto& v : f.vars) {
            if (!fin::contains_variable(h, v.name) || fin::contains_variable(h, v.name + "-no")) { mon().violation("contains", v.name); continue; }
            int id = fin::variable_id(h, v.name);
            if (id != v.id) mon().violation("variable-id", v.name);
            if (fin::variable_is_scalar(h, id) != v.scalar) mon().violation("is-scalar", v.name);
            if (fin::value_type_id(h, id) != kind(v.type)) mon().violation("value-type", v.name + " type " + std::to_string(v.type));
            if (v.scalar && v.type == NC_DOUBLE) { double x; fern::algorithm::SkipNoData p; fin::read_variable(p, h, id, x); if (!same_bits(x, v.value)) mon().violation("read-variable", v.name); }
        }
    } catch (fern::Exception const& e) { mon().violation("netcdf-error", e.message()); }
    if (open_files() != before) mon().violation("netcdf-leak", "");
    mon().seen(mon().where()); mon().count("netcdf datasets inspected");
    for (auto& v : f.vars) {
        std::string what = mon().where(); bool good = coards_of(f) && v.scalar && v.type == NC_DOUBLE;
        mon().at("read " + v.name + " type " + std::to_string(v.type) + (v.scalar ? " scalar" : " array") + " from " + f.path + " conventions " + f.conventions);
        if (good) { try { double x = read(f.path, v.name); if (!same_bits(x, v.value)) mon().violation("scalar-value", std::to_string(x) + " not " + std::to_string(v.value)); mon().count("scalars read"); } catch (fern::Exception const& e) { mon().violation("scalar-error", e.message()); } }
        else must_fail<fern::IOError>(!coards_of(f) ? "no-coards" : !v.scalar ? "no-scalar" : "scalar-type", f.path, [&] { read(f.path, v.name); }, none);
        if (open_files() != before) mon().violation("scalar-leak", "");
        mon().seen(mon().where());
        mon().at(what);
    }
    if (coards_of(f)) {
        for (std::string v : {std::string("nosuch"), std::string(""), std::string("a/b"), f.vars[0].name + "/" + f.vars[0].name, std::string("/")}) {
            mon().at("read variable <" + v + "> from " + f.path); must_fail<fern::IOError>("no-variable", f.path, [&] { read(f.path, v); }, none); mon().seen(mon().where());
        }
        mon().at("read without variable from " + f.path); must_fail<fern::IOError>("no-variable", f.path, [&] { double x; fern::algorithm::SkipNoData p; fin::read_coards(p, fern::DataName(f.path), x); }, none);
    }
}

static void damaged(Rng& r, File const& f) {
    std::string bytes = slurp(f.path), cut = "cut-" + f.path; size_t k = r.below(bytes.size()); spit(cut, bytes.substr(0, k));
    size_t before = open_files();
    for (auto& v : f.vars) {
        if (!v.scalar || v.type != NC_DOUBLE) continue;
        mon().at("netcdf cut at " + std::to_string(k) + " of " + std::to_string(bytes.size()) + " read " + v.name);
        // What the NetCDF library makes of it.
        int id; double x = 0; bool good = false;
        if (nc_open(cut.c_str(), NC_NOWRITE, &id) == NC_NOERR) { int vid; good = nc_inq_varid(id, v.name.c_str(), &vid) == NC_NOERR && nc_get_var_double(id, vid, &x) == NC_NOERR; nc_close(id); }
        if (!good) { must_fail<fern::IOError>("netcdf-damaged", cut, [&] { read(cut, v.name); }, none); }
        else { mon().count("cut datasets still readable"); try { if (!same_bits(read(cut, v.name), x)) mon().violation("netcdf-damaged-value", ""); } catch (fern::IOError const& e) { /* damaged conventions */ } }
        if (open_files() != before) mon().violation("netcdf-damaged-leak", "");
        mon().seen(mon().where() + f.path);
    }
}

static void errors(Rng& r) {
    std::string id = std::to_string(r.next() % 1000000);
    auto both = [&](std::string const& key, std::string const& path) {
        mon().at(key + " " + path.substr(0, 200)); mon().seen(key + path);
        must_fail<fern::IOError>(key, path, [&] { read(path, "a"); }, none);
        must_fail<fern::IOError>(key + "-open", path, [&] { fin::open_dataset(path); }, none);
    };
    both("missing", "no " + name(r)); both("missing-directory", "nodir" + id + "/x");
    std::filesystem::create_directory("dir" + id); both("directory", "dir" + id);
    spit("empty" + id, ""); both("empty", "empty" + id); both("below-file", "empty" + id + "/x");
    std::string g = r.chance(50) ? "CDF\1" : r.chance(50) ? "\x89HDF\r\n\x1a\n" : ""; for (size_t i = r.below(2000); i--; ) g += char(r.next()); spit("garbage" + id, g); 
    { int nid; if (nc_open(("garbage" + id).c_str(), NC_NOWRITE, &nid) != NC_NOERR) both("garbage", "garbage" + id); else nc_close(nid); }
    both("long-name", std::string(300, 'x'));
    std::error_code e; std::filesystem::create_symlink("loop" + id, "loop" + id, e); both("link-loop", "loop" + id);
    File f = make(r, 0, true); std::filesystem::permissions(f.path, std::filesystem::perms::none);
    if (unprivileged([&] { both("unreadable", f.path); })) mon().count("unreadable file");
}

static void handles(Rng& r) {
    std::vector<std::string> files; std::string log = "netcdf handles";
    for (int i = 0; i < 4; ++i) { std::string p = "h" + std::to_string(i) + ".nc"; if (!std::filesystem::exists(p)) { int id, d; ok(nc_create(p.c_str(), NC_CLOBBER, &id), "create"); ok(nc_def_dim(id, "d", size_t(i + 1), &d), "dim"); ok(nc_close(id), "close"); } files.push_back(p); }
    size_t fds = open_files();
    {
        std::vector<std::pair<std::unique_ptr<fin::DatasetHandle>, int>> live;
        for (int step = int(3 + r.below(20)); step--; ) {
            unsigned op = unsigned(r.below(5)); log += " " + std::to_string(op); mon().at(log);
            if (op <= 1 || live.empty()) { int f = int(r.below(4)); live.emplace_back(std::make_unique<fin::DatasetHandle>(fin::open_dataset(files[size_t(f)])), f + 1); }
            else if (op == 2) { size_t i = r.below(live.size()); int f = live[i].second; live[i].second = 0; auto p = std::make_unique<fin::DatasetHandle>(std::move(*live[i].first)); if (r.chance(50)) live.erase(live.begin() + long(i)); live.emplace_back(std::move(p), f); }
            else if (op == 3 && live.size() > 1) { size_t i = r.below(live.size()), j = r.below(live.size()); if (i != j) { *live[i].first = std::move(*live[j].first); live[i].second = live[j].second; live[j].second = 0; if (r.chance(50)) live.erase(live.begin() + long(j)); } }
            else live.erase(live.begin() + long(r.below(live.size())));
            size_t n = 0;
            for (auto& h : live) if (h.second) { ++n; size_t len = 0; if (nc_inq_dimlen(h.first->ncid(), 0, &len) != NC_NOERR || int(len) != h.second) mon().violation("netcdf-handle", log); }
            if (open_files() != fds + n) { mon().violation("netcdf-handle-count", log + ": " + std::to_string(open_files() - fds) + " open, " + std::to_string(n) + " handles"); break; }
        }
    }
    if (open_files() != fds) mon().violation("netcdf-handle-leak", log);
    mon().seen(log); mon().count("netcdf handle histories");
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    if (mon().want("errors")) { Rng r = mon().rng("nerrors"); for (size_t i = mon().n(10, 200); i--; ) errors(r); }
    if (mon().want("handles")) { Rng r = mon().rng("nhandles"); for (size_t i = mon().n(500, 10000); i--; ) handles(r); }
    if (mon().want("inspect")) { Rng r = mon().rng("ninspect"); for (size_t i = mon().n(500, 8000); i--; ) { File f = make(r, int(i % 20), r.chance(50)); inspect(r, f); damaged(r, f); std::error_code e; std::filesystem::remove(f.path, e); std::filesystem::remove("cut-" + f.path, e); } }
    return mon().finish();
}

// C21: GPX documents.
#include <cassert>
#include "io.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/io/gpx/parse.h"
using namespace vh;
#define STR_(x) #x
#define STR(x) STR_(x)

struct Point { std::string lat, lon, ele, name; bool time = false; int t[6]; };
struct Track { std::string name; int number = -1; std::vector<std::vector<Point>> segments; };
struct Doc { std::string creator, name; std::vector<Point> wpt; std::vector<std::vector<Point>> rte; std::vector<Track> trk; };

static std::string word(Rng& r) { static std::vector<std::string> const c{"a", "b", "Z", "0", " x", "&", "<", ">", "\"", "'", "\xc3\xa9", "\xe2\x82\xac", "-", ".", "%"}; std::string s; for (size_t n = r.below(r.chance(5) ? 400 : 9); n--; ) s += r.pick(c); return s; }
static std::string escape(Rng& r, std::string const& s, bool attribute) {
    if (!attribute && r.chance(20) && s.find("]]>") == std::string::npos && !s.empty()) return "<![CDATA[" + s + "]]>";
    std::string o; for (char c : s) { if (c == '&') o += r.chance(50) ? "&amp;" : "&#38;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; } return o;
}
static std::string decimal(Rng& r, double most) { char b[64]; snprintf(b, sizeof b, "%.*f", int(r.below(9)), (r.unit() * 2 - 1) * most * (r.chance(10) ? 0 : 0.999999)); return b; }
static Point point(Rng& r) {
    Point p; p.lat = decimal(r, 90); p.lon = decimal(r, 179.4); if (r.chance(5)) { p.lat = "-90"; p.lon = "-180.0"; }
    if (r.chance(60)) p.ele = decimal(r, 9000); if (r.chance(60)) p.name = word(r) + "n";
    if (r.chance(40)) { p.time = true; int t[6] = {int(r.range(1970, 2030)), int(r.range(1, 12)), int(r.range(1, 28)), int(r.below(24)), int(r.below(60)), int(r.below(60))}; std::copy(t, t + 6, p.t); }
    return p;
}
static std::string xml(Rng& r, Point const& p, std::string const& tag) {
    std::string s = "<" + tag + (r.chance(50) ? " lat=\"" + p.lat + "\" lon=\"" + p.lon + "\"" : " lon='" + p.lon + "'\n lat='" + p.lat + "'") + ">";
    if (r.chance(10)) s += "<!-- c -->";
    if (!p.ele.empty()) s += "<ele>" + p.ele + "</ele>";
    if (p.time) { char b[64]; snprintf(b, sizeof b, "<time>%04d-%02d-%02dT%02d:%02d:%02dZ</time>", p.t[0], p.t[1], p.t[2], p.t[3], p.t[4], p.t[5]); s += b; }
    if (!p.name.empty()) s += "<name>" + escape(r, p.name, false) + "</name>";
    return s + "</" + tag + ">" + (r.chance(50) ? "\n  " : "");
}
template<class P> void same_point(P const& g, Point const& p, std::string const& where) {
    auto bad = [&](char const* k, std::string const& s) { mon().violation(std::string("gpx-") + k, where + " " + s); };
    if (double(g.lat()) != strtod(p.lat.c_str(), nullptr)) bad("lat", p.lat); if (double(g.lon()) != strtod(p.lon.c_str(), nullptr)) bad("lon", p.lon);
    if (g.ele().present() != !p.ele.empty() || (g.ele().present() && double(g.ele().get()) != strtod(p.ele.c_str(), nullptr))) bad("ele", p.ele);
    if (g.name().present() != !p.name.empty() || (g.name().present() && std::string(g.name().get()) != p.name)) bad("name", p.name);
    if (g.time().present() != p.time) bad("time", ""); else if (p.time) { auto& t = g.time().get(); if (t.year() != p.t[0] || t.month() != p.t[1] || t.day() != p.t[2] || t.hours() != p.t[3] || t.minutes() != p.t[4] || t.seconds() != p.t[5]) bad("time-value", ""); }
    mon().count("gpx points compared");
}
struct V10 { static char const* v() { return "1.0"; } static char const* ns() { return "http://www.topografix.com/GPX/1/0"; } static char const* xsd() { return "gpx-1.0.xsd"; } static auto parse(std::string const& f) { return fern::io::gpx_1_0::parse(f); } };
struct V11 { static char const* v() { return "1.1"; } static char const* ns() { return "http://www.topografix.com/GPX/1/1"; } static char const* xsd() { return "gpx-1.1.xsd"; } static auto parse(std::string const& f) { return fern::io::gpx_1_1::parse(f); } };
template<class V> std::string head(std::string const& creator, bool schema = true) {
    return std::string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<gpx version=\"") + V::v() + "\" creator=\"" + creator + "\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xmlns=\"" + V::ns() + "\""
        + (schema ? std::string(" xsi:schemaLocation=\"") + V::ns() + " file://" STR(SRC) "/fern/io/gpx/" + V::xsd() + "\"" : "") + ">\n";
}
template<class V> std::string xml(Rng& r, Doc const& d) {
    std::string s = head<V>(escape(r, d.creator, true));
    if (std::is_same<V, V10>::value && !d.name.empty()) s += "<name>" + escape(r, d.name, false) + "</name>";
    if (std::is_same<V, V11>::value && !d.name.empty()) s += "<metadata><name>" + escape(r, d.name, false) + "</name></metadata>";
    for (auto& p : d.wpt) s += xml(r, p, "wpt");
    for (auto& t : d.rte) { s += "<rte>"; for (auto& p : t) s += xml(r, p, "rtept"); s += "</rte>"; }
    for (auto& t : d.trk) { s += "<trk>"; if (!t.name.empty()) s += "<name>" + escape(r, t.name, false) + "</name>"; if (t.number >= 0) s += "<number>" + std::to_string(t.number) + "</number>"; for (auto& g : t.segments) { s += "<trkseg>"; for (auto& p : g) s += xml(r, p, "trkpt"); s += "</trkseg>"; } s += "</trk>"; }
    return s + "</gpx>\n";
}
static Doc doc(Rng& r) {
    Doc d; d.creator = word(r); if (r.chance(60)) d.name = word(r) + "n";
    for (size_t n = r.below(4); n--; ) d.wpt.push_back(point(r));
    for (size_t n = r.below(3); n--; ) { d.rte.emplace_back(); for (size_t k = r.below(4); k--; ) d.rte.back().push_back(point(r)); }
    for (size_t n = r.below(3); n--; ) { Track t; if (r.chance(50)) t.name = word(r) + "n"; if (r.chance(50)) t.number = int(r.below(99)); for (size_t k = r.below(3); k--; ) { t.segments.emplace_back(); for (size_t j = r.below(5); j--; ) t.segments.back().push_back(point(r)); } d.trk.push_back(t); }
    return d;
}
static std::string name_of(gpx_1_0::gpx const& g) { return g.name().present() ? std::string(g.name().get()) : ""; }
static std::string name_of(gpx_1_1::gpxType const& g) { return g.metadata().present() && g.metadata().get().name().present() ? std::string(g.metadata().get().name().get()) : ""; }

template<class V> void good(Rng& r) {
    Doc d = doc(r); std::string t = xml<V>(r, d), f = name(r) + ".gpx"; spit(f, t); mon().at(std::string("gpx ") + V::v() + " " + t);
    size_t before = open_files();
    try {
        auto g = V::parse(f);
        if (!g) { mon().violation("gpx-null", ""); return; }
        if (std::string(g->creator()) != d.creator || std::string(g->version()) != V::v() || name_of(*g) != d.name) mon().violation("gpx-header", std::string(g->creator()));
        if (g->wpt().size() != d.wpt.size() || g->rte().size() != d.rte.size() || g->trk().size() != d.trk.size()) { mon().violation("gpx-count", ""); return; }
        for (size_t i = 0; i < d.wpt.size(); ++i) same_point(g->wpt()[i], d.wpt[i], "wpt " + std::to_string(i));
        for (size_t i = 0; i < d.rte.size(); ++i) { auto& q = g->rte()[i].rtept(); if (q.size() != d.rte[i].size()) { mon().violation("gpx-route", ""); continue; } for (size_t j = 0; j < q.size(); ++j) same_point(q[j], d.rte[i][j], "rtept"); }
        for (size_t i = 0; i < d.trk.size(); ++i) {
            auto& q = g->trk()[i]; auto& w = d.trk[i];
            if ((q.name().present() ? std::string(q.name().get()) : "") != w.name || (q.number().present() ? int(q.number().get()) : -1) != w.number || q.trkseg().size() != w.segments.size()) { mon().violation("gpx-track", ""); continue; }
            for (size_t j = 0; j < w.segments.size(); ++j) { auto& s = q.trkseg()[j].trkpt(); if (s.size() != w.segments[j].size()) { mon().violation("gpx-segment", ""); continue; } for (size_t k = 0; k < s.size(); ++k) same_point(s[k], w.segments[j][k], "trkpt"); }
        }
    } catch (fern::Exception const& e) { mon().violation("gpx-error", e.message()); }
    if (open_files() != before) mon().violation("gpx-leak", "");
    mon().seen(t); mon().count("gpx documents read");
    // Damage.
    std::string cut = "cut-" + f;
    { size_t k = r.below(t.size() - 2); spit(cut, t.substr(0, k)); mon().at("gpx cut at " + std::to_string(k) + ": " + t); mon().seen(mon().where()); must_fail<fern::ParseError>("gpx-cut", cut, [&] { V::parse(cut); }, [] { return size_t(0); }); }
    for (int m = 0; m < 3; ++m) {
        std::string u = t; size_t from = u.find(".xsd\">"); for (size_t n = 1 + r.below(3); n--; ) { size_t i = r.chance(80) && from + 8 < u.size() ? from + 6 + r.below(u.size() - from - 6) : r.below(u.size()); switch (r.below(3)) { case 0: u[i] = char(r.next()); break; case 1: u.erase(i, 1 + r.below(8)); break; default: u.insert(i, 1, "<>&\"'/ax\n"[r.below(9)]); } if (u.empty()) u = " "; }
        if (u.find("http:") != t.find("http:") ) continue;
        spit(cut, u); mon().at("gpx changed: " + u); mon().seen(u); size_t fds = open_files();
        try { auto g = V::parse(cut); mon().count("changed documents accepted"); }
        catch (fern::ParseError const& e) { mon().count("changed documents rejected"); if (e.message().find(cut) == std::string::npos) mon().violation("gpx-changed-name", e.message()); }
        catch (std::exception const& e) { mon().violation("gpx-changed-foreign", e.what()); }
        catch (...) { mon().violation("gpx-changed-foreign", "unknown exception"); }
        if (open_files() != fds) mon().violation("gpx-changed-leak", "");
    }
    std::error_code e; std::filesystem::remove(f, e); std::filesystem::remove(cut, e);
}

template<class V> void bad(Rng& r) {
    auto no = [] { return size_t(0); };
    std::string f = "bad-" + name(r) + ".gpx";
    auto reject = [&](std::string const& key, std::string const& text) { spit(f, text); mon().at(key + ": " + text); mon().seen(mon().where()); must_fail<fern::ParseError>("gpx-" + key, f, [&] { V::parse(f); }, no); };
    auto body = [&](std::string const& key, std::string const& b) { reject(key, head<V>("me") + b + "</gpx>"); };
    body("latitude", "<wpt lat=\"91\" lon=\"3\"/>"); body("latitude-text", "<wpt lat=\"north\" lon=\"3\"/>"); body("missing-attribute", "<wpt lat=\"9\"/>");
    body("unknown-element", "<trk><blah/></trk>"); body("order", "<trk></trk><wpt lat=\"1\" lon=\"1\"/>"); body("number", "<wpt lat=\"1\" lon=\"1\"><ele>high</ele></wpt>");
    body("time", "<wpt lat=\"1\" lon=\"1\"><time>yesterday</time></wpt>"); body("entity", "<wpt lat=\"1\" lon=\"1\"><name>&nosuch;</name></wpt>");
    body("nesting", "<wpt lat=\"1\" lon=\"1\"></gpx></wpt>");
    reject("empty", ""); reject("text", "hello"); reject("no-schema", head<V>("me", false) + "</gpx>"); reject("not-ended", head<V>("me"));
    reject("encoding", "<?xml version=\"1.0\" encoding=\"no-such-encoding\"?>\n<gpx/>"); reject("nul", std::string("<gpx\0/>", 7));
    // A valid document of the other version.
    { Doc d = doc(r); if (std::is_same<V, V10>::value) reject("other-version", xml<V11>(r, d)); else reject("other-version", xml<V10>(r, d)); }
    must_fail<fern::IOError>("gpx-missing", "none-" + f, [&] { V::parse("none-" + f); }, no);
    must_fail<fern::IOError>("gpx-long-name", std::string(300, 'x'), [&] { V::parse(std::string(300, 'x')); }, no);
    std::filesystem::permissions(f, std::filesystem::perms::none);
    if (unprivileged([&] { must_fail<fern::IOError>("gpx-unreadable", f, [&] { V::parse(f); }, no); })) mon().count("unreadable file");
    std::error_code e; std::filesystem::remove(f, e);
    std::filesystem::create_directory(f); must_fail<fern::Exception>("gpx-directory", f, [&] { V::parse(f); }, no);
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    Rng r = mon().rng("gpx");
    for (size_t i = mon().n(5, 60); i--; ) { bad<V10>(r); bad<V11>(r); }
    for (size_t i = mon().n(120, 3000); i--; ) { good<V10>(r); good<V11>(r); }
    return mon().finish();
}

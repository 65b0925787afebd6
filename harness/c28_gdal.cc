// C28: raster datasets written and read through GDAL.
#include "io.h"
#include <cassert>
#include <memory>
#include <gdal_priv.h>
#include "fern/core/io_error.h"
#include "fern/core/type_traits.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/core/feature.h"
#include "fern/language/io/drivers.h"
#include "fern/language/io/io_client.h"
#include "fern/language/io/gdal/gdal_dataset.h"
#include "fern/language/io/gdal/gdal_driver.h"
using namespace vh;
namespace fl = fern::language;
using fl::OpenMode;

static std::string open_sets() { ::GDALDataset** l; int n; l = ::GDALDataset::GetOpenDatasets(&n); std::string s; for (int i = 0; i < n; ++i) s += std::string(" ") + l[i]->GetDescription();
    for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { std::error_code c; auto t = std::filesystem::read_symlink(e.path(), c); if (!c && t.string().find("/vh-io") != std::string::npos) s += " " + t.string(); }
    return s; }
// The files of data sets that are open; libraries open others when they please.
static size_t set_files() {
    size_t n = 0;
    for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { std::error_code c; auto t = std::filesystem::read_symlink(e.path(), c); n += !c && t.string().find("/vh-io") != std::string::npos; }
    return n;
}
static size_t datasets() { ::GDALDataset** l; int n; l = ::GDALDataset::GetOpenDatasets(&n); (void)l; return size_t(n); }
template<class T> struct G;
template<> struct G<uint8_t> { static GDALDataType const type = GDT_Byte; };
template<> struct G<uint16_t> { static GDALDataType const type = GDT_UInt16; };
template<> struct G<int16_t> { static GDALDataType const type = GDT_Int16; };
template<> struct G<uint32_t> { static GDALDataType const type = GDT_UInt32; };
template<> struct G<int32_t> { static GDALDataType const type = GDT_Int32; };
template<> struct G<float> { static GDALDataType const type = GDT_Float32; };
template<> struct G<double> { static GDALDataType const type = GDT_Float64; };

template<class T> T any(Rng& r) {
    using L = std::numeric_limits<T>;
    if (r.chance(8)) return L::max();
    if (r.chance(8)) return L::lowest();
    if (std::is_floating_point<T>::value) {
        if (r.chance(8)) return L::quiet_NaN();
        if (r.chance(5)) return r.chance(50) ? L::infinity() : -L::infinity();
        return T((r.unit() - 0.5) * 1e6);
    }
    return r.chance(30) ? T(r.below(4)) : T(r.next());
}
template<class T> struct Raster {
    size_t rows, cols; std::vector<T> v; std::vector<char> mask; double west, south, east, north;
    bool masked() const { for (char m : mask) if (m) return true; return false; }
};
template<class T> void contents(Rng& r, Raster<T>& x) {
    size_t n = x.rows * x.cols; x.v.resize(n); x.mask.assign(n, 0);
    for (auto& c : x.v) c = any<T>(r);
    unsigned share = unsigned(r.pick(std::vector<int>{0, 0, 3, 30, 100}));
    for (auto& m : x.mask) m = r.chance(share);
}
template<class T> Raster<T> raster(Rng& r) {
    Raster<T> x; size_t most = r.chance(10) ? 150 : 14;
    x.rows = 1 + r.below(most); x.cols = 1 + r.below(most);
    contents(r, x);
    double w = r.chance(50) ? double(1 + r.below(100)) : 0.01 + r.unit() * 50, h = r.chance(60) ? w : 0.01 + r.unit() * 50;
    x.west = r.chance(20) ? 0 : r.chance(50) ? double(r.range(-1000, 1000)) : (r.unit() - 0.5) * 1e6;
    x.south = r.chance(20) ? 0 : r.chance(50) ? double(r.range(-1000, 1000)) : (r.unit() - 0.5) * 1e6;
    x.east = x.west + w * double(x.cols); x.north = x.south + h * double(x.rows);
    return x;
}
template<class T> std::string text(Raster<T> const& x) {
    std::ostringstream s; s << tn<T>() << " " << x.rows << "x" << x.cols << (x.masked() ? " masked" : "") << " [" << x.west << "," << x.south << " " << x.east << "," << x.north << "]";
    return s.str();
}
template<class T> std::shared_ptr<fl::FieldAttribute<T>> attribute(Raster<T> const& x) {
    auto a = std::make_shared<fl::FieldAttribute<T>>();
    auto value = std::make_shared<fl::FieldValue<T>>(fern::extents[long(x.rows)][long(x.cols)]);
    for (size_t i = 0; i < x.v.size(); ++i) { value->data()[i] = x.v[i]; value->mask().data()[i] = x.mask[i]; }
    fl::d2::Point sw, ne;
    fern::set<0>(sw, x.west); fern::set<1>(sw, x.south); fern::set<0>(ne, x.east); fern::set<1>(ne, x.north);
    a->add(fl::d2::Box(sw, ne), value);
    return a;
}
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-9 * std::max(1.0, std::abs(scale)); }

// What a data set read by fern has to look like.
template<class T> void judge(std::string const& key, std::shared_ptr<fl::Attribute> const& read, Raster<T> const& x, bool box = true) {
    auto a = std::dynamic_pointer_cast<fl::FieldAttribute<T>>(read);
    if (!a) { mon().violation(key + "-type", "not a field of " + tn<T>()); return; }
    if (a->size() != 1) { mon().violation(key + "-size", std::to_string(a->size()) + " geometries"); return; }
    auto const& b = a->domain().cbegin()->second;
    double const w = fern::get<0>(b.min_corner()), s = fern::get<1>(b.min_corner()), e = fern::get<0>(b.max_corner()), n = fern::get<1>(b.max_corner());
    double const scale = std::abs(x.west) + std::abs(x.east) + std::abs(x.south) + std::abs(x.north);
    if (box && (!near(w, x.west, scale) || !near(s, x.south, scale) || !near(e, x.east, scale) || !near(n, x.north, scale))) {
        std::ostringstream o; o.precision(17); o << "[" << w << "," << s << " " << e << "," << n << "] instead of [" << x.west << "," << x.south << " " << x.east << "," << x.north << "]";
        mon().violation(key + "-box", o.str());
    }
    auto const& v = *a->values().cbegin()->second;
    if (v.num_dimensions() != 2 || v.shape()[0] != x.rows || v.shape()[1] != x.cols) { mon().violation(key + "-extents", std::to_string(v.shape()[0]) + "x" + std::to_string(v.shape()[1])); return; }
    for (size_t i = 0; i < x.v.size(); ++i) {
        std::string where = "cell " + std::to_string(i / x.cols) + "," + std::to_string(i % x.cols);
        if (bool(v.mask().data()[i]) != bool(x.mask[i])) { mon().violation(key + "-mask", where + (x.mask[i] ? " is not masked" : " is masked")); return; }
        if (!x.mask[i] && !same(v.data()[i], x.v[i])) { mon().violation(key + "-value", where + " is " + str(v.data()[i]) + " instead of " + str(x.v[i])); return; }
    }
    mon().count("cells compared", x.v.size());
}
template<class T> void judge_dataset(Rng& r, fl::Dataset const& d, std::string const& stem, Raster<T> const& x, bool box = true) {
    std::string const feature = "/" + stem, attr = feature + "/" + stem;
    if (d.nr_features() != 1 || d.feature_names() != std::vector<std::string>{stem}) mon().violation("features", "feature names");
    if (!d.contains_feature(feature) || !d.contains_attribute(attr) || d.contains_feature(attr) || d.contains_attribute(feature) ||
            d.contains_feature(feature + "x") || d.contains_attribute(attr + "/" + stem) || d.contains_feature("/") || d.contains_attribute(feature + "/y"))
        mon().violation("contains", "wrong for " + stem);
    if (!(d.expression_type(attr) == fern::ExpressionType(fern::DataTypes::STATIC_FIELD, fern::TypeTraits<T>::value_types))) mon().violation("expression-type", tn<T>());
    auto o = std::dynamic_pointer_cast<fl::FieldAttribute<T>>(d.open_attribute(attr));
    if (!o || !o->empty()) mon().violation("open-attribute", "not an empty field of " + tn<T>());
    judge("read-attribute", d.read_attribute(attr), x, box);
    if (r.chance(50)) {
        auto f = d.read_feature(feature);
        if (!f || f->nr_attributes() != 1 || !f->contains_attribute(stem)) mon().violation("read-feature", "attribute missing");
        else judge("read-feature", f->attribute(stem), x, box);
    }
    mon().count("datasets read");
}
template<class F> void fails(std::string const& key, std::string const& want, F f) {
    size_t sets = datasets(), files = set_files();
    try { f(); mon().violation(key + "-silent", "no error; expected " + want); }
    catch (fern::IOError const& e) {
        mon().count("failures provoked");
        if (e.message().compare(0, want.size(), want) != 0) mon().violation(key + "-message", "\"" + e.message() + "\" instead of \"" + want + "\"");
    }
    catch (std::exception const& e) { mon().violation(key + "-foreign", std::string("other exception: ") + e.what()); }
    if (datasets() != sets || set_files() != files) mon().violation(key + "-leak", "dataset left open:" + open_sets());
}
// What GDAL says is in the file.
template<class T> void judge_file(std::string const& file, Raster<T> const& x) {
    auto d = static_cast<::GDALDataset*>(GDALOpen(file.c_str(), GA_ReadOnly));
    if (!d) { mon().violation("file", "GDAL cannot read the file written"); return; }
    double g[6] = {0, 0, 0, 0, 0, 0};
    double const scale = std::abs(x.west) + std::abs(x.east) + std::abs(x.south) + std::abs(x.north);
    bool ok = d->GetGeoTransform(g) == CE_None;
    if (!ok || !near(g[0], x.west, scale) || !near(g[3], x.north, scale) || g[2] != 0 || g[4] != 0 ||
            !near(g[0] + g[1] * double(x.cols), x.east, scale) || !near(g[3] + g[5] * double(x.rows), x.south, scale)) {
        std::ostringstream o; o.precision(17); o << "geo transform " << g[0] << " " << g[1] << " " << g[2] << " " << g[3] << " " << g[4] << " " << g[5] << " for [" << x.west << "," << x.south << " " << x.east << "," << x.north << "] of " << x.rows << "x" << x.cols;
        mon().violation("file-location", o.str());
    }
    if (d->GetRasterCount() != 1 || size_t(d->GetRasterXSize()) != x.cols || size_t(d->GetRasterYSize()) != x.rows || d->GetRasterBand(1)->GetRasterDataType() != G<T>::type) mon().violation("file-layout", "bands, extents or type differ");
    else {
        std::vector<T> v(x.v.size()); std::vector<uint8_t> m(x.v.size(), 255);
        auto b = d->GetRasterBand(1);
        if (b->RasterIO(GF_Read, 0, 0, int(x.cols), int(x.rows), v.data(), int(x.cols), int(x.rows), G<T>::type, 0, 0) != CE_None) mon().violation("file", "GDAL cannot read the values");
        if (b->GetMaskBand()->RasterIO(GF_Read, 0, 0, int(x.cols), int(x.rows), m.data(), int(x.cols), int(x.rows), GDT_Byte, 0, 0) != CE_None) mon().violation("file", "GDAL cannot read the mask");
        for (size_t i = 0; i < v.size(); ++i) {
            if ((m[i] == 0) != bool(x.mask[i])) { mon().violation("file-mask", "cell " + std::to_string(i) + (x.mask[i] ? " is valid" : " is not valid")); break; }
            if (!x.mask[i] && !same(v[i], x.v[i])) { mon().violation("file-value", "cell " + std::to_string(i) + " is " + str(v[i]) + " instead of " + str(x.v[i])); break; }
        }
    }
    GDALClose(d);
    mon().count("files checked");
}

static std::string some_name(Rng& r) {
    std::string s = r.chance(40) ? "raster-" + std::to_string(r.below(9)) : name(r);
    for (auto& c : s) if (c == ':' || c == '%' || c == ',' || c == '+') c = '_';
    if (s.size() > 40) s.resize(40);
    while (!s.empty() && (s.back() == '.' || s.back() == ' ' || (s.back() & 0x80))) s.pop_back();
    return s.empty() ? "x" : s;
}
struct Format { char const* name; char const* ext; };
static Format const formats[] = {{"GTiff", ".tif"}, {"HFA", ".img"}, {"ENVI", ".bin"}, {"GTiff", ".tiff"}};

template<class T> void write_step(Rng& r, fl::Dataset& d, std::string const& stem, Raster<T> const& x) {
    auto a = attribute(x);
    d.write_attribute(static_cast<fl::Attribute const&>(*a), "/" + stem + "/" + stem);
    mon().count("rasters written");
}
static size_t case_id = 0;
template<class T> void writes(Rng& r, std::string const& dir) {
    Format const f = formats[r.below(4)];
    std::string const stem = some_name(r), where = dir + "/w" + std::to_string(case_id++);
    std::filesystem::create_directory(where);
    std::string const file = where + "/" + stem + f.ext;
    size_t const sets = datasets(), fds = set_files();
    Raster<T> x = raster<T>(r);
    std::string log = std::string("write ") + f.name + " " + stem + f.ext + ":";
    auto driver = fl::drivers.at(f.name);
    bool exists = false;
    size_t const steps = 1 + r.below(3);
    for (size_t k = 0; k < steps; ++k) {
        bool const update = exists && r.chance(50);
        if (update) contents(r, x); else x = raster<T>(r);
        log += std::string(update ? " update " : " overwrite ") + text(x); mon().at(log);
        if (r.chance(50)) {
            std::string before = exists ? slurp(file) : "";
            for (auto m : {OpenMode::READ, OpenMode::UPDATE, OpenMode::OVERWRITE}) {
                bool want = exists || m == OpenMode::OVERWRITE;
                bool can = r.chance(50) ? driver->can_open(file, m) : fl::dataset_exists(file, m, f.name);
                if (can != want) mon().violation("can-open", "mode " + std::to_string(int(m)) + " = " + str(can));
            }
            if (std::filesystem::exists(file) != exists || (exists && slurp(file) != before)) mon().violation("can-open-changes-file", "asking changed the file");
            mon().count("datasets asked for");
        }
        if (!exists && r.chance(30)) {
            fails("open-missing", "I/O error handling " + file + ": Does not exist", [&] { driver->open(file, r.chance(50) ? OpenMode::READ : OpenMode::UPDATE); });
            fails("open-missing", "I/O error handling " + file + ": Cannot be read", [&] { fl::open_dataset(file, OpenMode::READ, f.name); });
            fails("open-missing", "I/O error handling " + file + ": Cannot be written", [&] { fl::open_dataset(file, OpenMode::UPDATE, f.name); });
        }
        auto d = r.chance(50) ? driver->open(file, update ? OpenMode::UPDATE : OpenMode::OVERWRITE) : fl::open_dataset(file, update ? OpenMode::UPDATE : OpenMode::OVERWRITE, f.name);
        write_step(r, *d, stem, x);
        exists = true;
        if (r.chance(30)) judge_dataset(r, *d, stem, x);
        d.reset();
        if (datasets() != sets || set_files() != fds) mon().violation("close-leak", "dataset left open:" + open_sets());
        judge_file(file, x);
        bool const any_driver = r.chance(5);
        mon().at(log + (any_driver ? " read by any driver" : " read"));
        auto s = any_driver ? fl::open_dataset(file, OpenMode::READ) : r.chance(50) ? driver->open(file, OpenMode::READ) : fl::open_dataset(file, OpenMode::READ, f.name);
        judge_dataset(r, *s, stem, x);
        fails("read-missing", "I/O error handling " + file + ": Does not contain attribute: /" + stem + "/no such", [&] { s->read_attribute("/" + stem + "/no such"); });
        fails("read-missing", "I/O error handling " + file + ": Does not contain feature: /no such", [&] { s->read_feature("/no such"); });
        s.reset();
        if (datasets() != sets || set_files() != fds) mon().violation("close-leak", "dataset left open:" + open_sets());
    }
    mon().seen(log);
    if (case_id < 4) mon().sample(log.substr(0, 300));
    std::filesystem::remove_all(where);
}

template<class T> void reads(Rng& r, std::string const& dir) {
    Format const f = formats[r.below(4)];
    std::string const stem = some_name(r), where = dir + "/r" + std::to_string(case_id++);
    std::filesystem::create_directory(where);
    std::string const file = where + "/" + stem + f.ext;
    Raster<T> x = raster<T>(r);
    size_t const sets = datasets();
    std::string log = std::string("read ") + f.name + " " + text(x);
    bool const located = r.chance(85), no_data = r.chance(50);
    std::fill(x.mask.begin(), x.mask.end(), 0);
    {
        auto d = GetGDALDriverManager()->GetDriverByName(f.name)->Create(file.c_str(), int(x.cols), int(x.rows), 1, G<T>::type, nullptr);
        double g[6] = {x.west, (x.east - x.west) / double(x.cols), 0, x.north, 0, -(x.north - x.south) / double(x.rows)};
        if (located) d->SetGeoTransform(g);
        if (no_data) {
            T nd = std::is_floating_point<T>::value && r.chance(30) ? std::numeric_limits<T>::quiet_NaN() : r.chance(70) ? r.pick(x.v) : T(77);
            if (std::is_floating_point<T>::value && std::isinf(double(nd))) nd = T(7);
            if (nd != nd && std::string(f.name) == "ENVI") nd = T(7);
            if (std::is_floating_point<T>::value && nd == nd && std::abs(double(nd)) > 1e30) nd = T(7);
            // A value that survives the textual headers of some formats.
            if (std::is_floating_point<T>::value && nd == nd) {
                nd = T(std::floor(double(nd))); x.v[r.below(x.v.size())] = nd;
                // GDAL takes values close to the no-data value for no-data.
                for (auto& c : x.v) if (c != nd && std::abs(double(c) - double(nd)) < 1e-3 * std::max(1.0, std::abs(double(nd)))) c = T(double(nd) * 2 + 9);
            }
            d->GetRasterBand(1)->SetNoDataValue(double(nd));
            for (size_t i = 0; i < x.v.size(); ++i) x.mask[i] = x.v[i] == nd || (nd != nd && x.v[i] != x.v[i]);
            log += " no-data " + str(nd);
        }
        if (d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, int(x.cols), int(x.rows), x.v.data(), int(x.cols), int(x.rows), G<T>::type, 0, 0) != CE_None) abort();
        GDALClose(d);
    }
    mon().at(log);
    auto driver = fl::drivers.at(f.name);
    {
        std::shared_ptr<fl::Dataset> s = driver->open(file, r.chance(70) ? OpenMode::READ : OpenMode::UPDATE);
        judge_dataset(r, *s, stem, x, located);
    }
    if (r.chance(40)) {   // The same, as text.
        std::string const ascii = where + "/ascii.asc";
        std::ofstream o(ascii);
        double cell = (x.east - x.west) / double(x.cols);
        o.precision(17);
        o << "ncols " << x.cols << "\nnrows " << x.rows << "\nxllcorner " << x.west << "\nyllcorner " << x.south << "\ncellsize " << cell << "\nNODATA_value -9999\n";
        Raster<int32_t> y; y.rows = x.rows; y.cols = x.cols; y.west = x.west; y.south = x.south; y.east = x.west + cell * double(x.cols); y.north = x.south + cell * double(x.rows);
        for (size_t i = 0; i < x.v.size(); ++i) { y.v.push_back(int32_t(r.range(-100000, 100000))); y.mask.push_back(r.chance(20)); if (y.mask[i]) y.v[i] = -9999; else if (y.v[i] == -9999) y.v[i] = 1; o << y.v[i] << (i % x.cols + 1 == x.cols ? "\n" : " "); }
        o.close();
        auto s = fl::open_dataset(ascii, OpenMode::READ, r.chance(80) ? "AAIGrid" : "");
        judge_dataset(r, *s, "ascii", y);
        mon().count("text files read");
    }
    if (datasets() != sets) mon().violation("close-leak", "dataset left open:" + open_sets());
    mon().seen(log);
    std::filesystem::remove_all(where);
}

static void hostile(Rng& r, std::string const& dir) {
    std::string const where = dir + "/h" + std::to_string(case_id++);
    std::filesystem::create_directory(where);
    std::string const file = where + "/x.tif";
    auto driver = fl::drivers.at("GTiff");
    size_t const sets = datasets(), fds = set_files();
    Raster<int32_t> x = raster<int32_t>(r);
    std::string log = "hostile ";
    unsigned const kind = unsigned(r.below(4));
    if (kind == 0) {   // Value types fern does not have.
        GDALDataType const types[] = {GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64, GDT_Int64, GDT_UInt64, GDT_Int8};
        auto const t = types[r.below(7)];
        log += std::string("type ") + GDALGetDataTypeName(t); mon().at(log);
        auto d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(file.c_str(), int(x.cols), int(x.rows), 1, t, nullptr);
        if (d) {
            GDALClose(d);
            auto s = driver->open(file, OpenMode::READ);
            std::string const want = "I/O error handling " + file + ": Value type of /x/x is not supported";
            fails("unsupported-type", "I/O error handling " + file + ": ", [&] { s->read_attribute("/x/x"); });
            fails("unsupported-type", "I/O error handling " + file + ": ", [&] { s->open_attribute("/x/x"); });
            fails("unsupported-type", "I/O error handling " + file + ": ", [&] { s->read_feature("/x"); });
            fails("unsupported-type", "I/O error handling " + file + ": ", [&] { s->expression_type("/x/x"); });
        }
    }
    else if (kind == 1) {   // Damaged files.
        { auto d = driver->open(file, OpenMode::OVERWRITE); write_step(r, *d, "x", x); }
        std::string t = slurp(file);
        if (r.chance(50)) t.resize(r.below(t.size()));
        else for (size_t i = 1 + r.below(8); i; --i) t[r.below(std::min<size_t>(t.size(), r.chance(50) ? 400 : t.size()))] = char(r.below(256));
        spit(file, t); log += "damage " + std::to_string(fnv(t)); mon().at(log);
        try { auto s = driver->open(file, OpenMode::READ); auto g = static_cast<::GDALDataset*>(GDALOpen(file.c_str(), GA_ReadOnly)); bool single = g && g->GetRasterCount() == 1 && double(g->GetRasterXSize()) * g->GetRasterYSize() < 1e7; if (g) GDALClose(g); if (single) s->read_attribute("/x/x"); }
        catch (fern::IOError const& e) { if (e.message().find(file) == std::string::npos) mon().violation("damaged-message", e.message()); mon().count("failures provoked"); }
        catch (std::exception const& e) { mon().violation("damaged-foreign", e.what()); }
    }
    else if (kind == 2) {   // Not a raster, or nothing.
        std::string t; for (size_t i = r.below(600); i; --i) t += char(r.below(256));
        if (r.chance(40)) t = std::string("II*\0", 4) + t;
        spit(file, t); log += "junk " + std::to_string(fnv(t)); mon().at(log);
        auto g = static_cast<::GDALDataset*>(GDALOpen(file.c_str(), GA_ReadOnly));
        if (g) GDALClose(g);
        else {
            if (driver->can_open(file, OpenMode::READ)) mon().violation("can-open-junk", "junk");
            fails("open-junk", "I/O error handling " + file + ": Cannot be read", [&] { driver->open(file, OpenMode::READ); });
            // Opening for update is up to GDAL, which changes some of these files.
            if (slurp(file) != t) mon().violation("junk-changed", "a file that could not be opened was changed");
            fails("open-junk", "I/O error handling " + file + ": Cannot be written", [&] { driver->open(file, OpenMode::UPDATE); });
            if (r.chance(10)) fails("open-junk", "I/O error handling " + file + ": Cannot be read", [&] { fl::open_dataset(file, OpenMode::READ); });
        }
    }
    else {   // No directory to write in.
        std::string const nowhere = where + "/none/x.tif"; log += "nowhere"; mon().at(log);
        if (driver->can_open(nowhere, OpenMode::OVERWRITE)) mon().violation("can-open-nowhere", nowhere);
        fails("open-nowhere", "I/O error handling " + nowhere + ": Cannot be written", [&] { fl::open_dataset(nowhere, OpenMode::OVERWRITE, "GTiff"); });
        fails("create-nowhere", "I/O error handling " + nowhere + ": Cannot be created", [&] { auto d = driver->open(nowhere, OpenMode::OVERWRITE); write_step(r, *d, "x", x); });
        fails("no-such-driver", "I/O error handling " + nowhere + ": No such driver: nope", [&] { fl::open_dataset(nowhere, OpenMode::OVERWRITE, "nope"); });
    }
    if (datasets() != sets || set_files() != fds) mon().violation("close-leak", "dataset left open:" + open_sets());
    mon().seen(log);
    std::filesystem::remove_all(where);
}

template<class F> void typed(Rng& r, F f) {
    switch (r.below(7)) {
    case 0: f(uint8_t()); break; case 1: f(uint16_t()); break; case 2: f(int16_t()); break; case 3: f(uint32_t()); break;
    case 4: f(int32_t()); break; case 5: f(float()); break; default: f(double());
    }
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    std::string const dir = scratch.dir.string();
    fl::IOClient client;
    if (mon().want("write")) { Rng r = mon().rng("write"); for (size_t i = 0, n = mon().n(150, 4000); i < n; ++i) typed(r, [&](auto t) { writes<decltype(t)>(r, dir); }); }
    if (mon().want("read")) { Rng r = mon().rng("read"); for (size_t i = 0, n = mon().n(120, 4000); i < n; ++i) typed(r, [&](auto t) { reads<decltype(t)>(r, dir); }); }
    if (mon().want("hostile")) { Rng r = mon().rng("hostile"); for (size_t i = 0, n = mon().n(120, 4000); i < n; ++i) hostile(r, dir); }
    if (mon().want("drivers")) {   // Every driver reports what is not there.
        std::string const none = dir + "/does_not_exist.h5";
        for (auto& p : fl::drivers) {
            mon().at("driver " + p.first);
            for (auto m : {OpenMode::READ, OpenMode::UPDATE}) {
                if (p.second->can_open(none, m)) mon().violation("driver-can-open", p.first + " can open a dataset that does not exist");
                fails("driver-open-missing", "I/O error handling " + none + ": Does not exist", [&] { p.second->open(none, m); });
            }
            if (p.second->name() != p.first) mon().violation("driver-name", p.first);
            mon().count("drivers"); mon().seen("driver " + p.first);
        }
        fails("open-missing-any", "I/O error handling " + none + ": Cannot be read", [&] { fl::open_dataset(none, OpenMode::READ); });
        fails("open-missing-any", "I/O error handling " + none + ": Cannot be written", [&] { fl::open_dataset(none, OpenMode::UPDATE); });
        if (fl::dataset_exists(none, OpenMode::READ) || fl::dataset_exists(none, OpenMode::UPDATE)) mon().violation("dataset-exists", "a dataset that does not exist");
    }
    return mon().finish();
}

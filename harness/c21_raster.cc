// C21: rasters read through GDAL.
#include "io.h"
#include <cassert>
#include <cstring>
#include <memory>
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
#include "fern/algorithm/policy/mark_no_data.h"
#include "fern/io/core/file.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/read.h"
using namespace vh;
namespace fa = fern::algorithm;
namespace fig = fern::io::gdal;

static size_t datasets() { GDALDataset** l; int n; l = GDALDataset::GetOpenDatasets(&n); (void)l; return size_t(n); }

template<class T> struct G { static GDALDataType const type = fig::ValueTypeTraits<T>::gdal_value_type; };
template<class T> T any(Rng& r) {
    if (std::is_floating_point<T>::value) {
        switch (r.below(8)) {
        case 0: return std::numeric_limits<T>::quiet_NaN();
        case 1: return r.chance(50) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
        case 2: return r.chance(50) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
        case 3: return std::numeric_limits<T>::denorm_min();
        case 4: return T(r.chance(50) ? 0.0 : -0.0);
        case 5: return T(r.range(-3, 3));
        default: return T((r.unit() - 0.5) * 1e6);
        }
    }
    switch (r.below(4)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return T(r.range(0, 3));
    default: return T(r.next());
    }
}
template<class T> std::string text(T v) { std::ostringstream s; s.precision(20); s << +v; return s.str(); }

// The no-data value of a file.
struct NoData { bool has = false; double value = 0; };
template<class T> NoData no_data_of(Rng& r, std::vector<T> const& cells) {
    NoData n;
    if (r.chance(15)) return n;
    n.has = true;
    if (std::is_floating_point<T>::value && r.chance(25)) n.value = std::numeric_limits<double>::quiet_NaN();
    else if (r.chance(25)) {   // not representable
        double const odd[] = {0.5, -0.25, 1e30, -1e30, 1e300, -1e300, 3000000000.0, -3000000000.0, 70000.0, -1.0, 256.0, 4294967296.0, 1.5, HUGE_VAL, -HUGE_VAL, std::numeric_limits<double>::quiet_NaN(), 0.1};
        n.value = odd[r.below(17)];
    }
    else n.value = cells.empty() ? 0 : double(cells[r.below(cells.size())]);
    return n;
}
template<class T> bool is_no_data(T v, double nd) {
    if (nd != nd) return v != v;
    if (std::is_floating_point<T>::value) {
        if (std::isinf(nd)) return double(v) == nd;
        if (nd > double(std::numeric_limits<T>::max()) || nd < double(std::numeric_limits<T>::lowest())) return false;
        return v == T(nd);
    }
    return (long double)v == (long double)nd;
}

struct File { std::string path; size_t rows, cols; };
template<class T> bool write(Rng& r, std::string const& path, std::string const& driver, size_t rows, size_t cols, std::vector<T> const& v, NoData& nd, double const* gt, std::string& how) {
    auto d = GetGDALDriverManager()->GetDriverByName(driver.c_str());
    if (!d) return false;
    char** o = nullptr; int bands = 1;
    if (driver == "GTiff") {
        if (r.chance(40)) { o = CSLSetNameValue(o, "TILED", "YES"); std::string b = std::to_string(16 * (1 + r.below(3))); o = CSLSetNameValue(o, "BLOCKXSIZE", b.c_str()); o = CSLSetNameValue(o, "BLOCKYSIZE", b.c_str()); how += " tiled"; }
        if (r.chance(50)) { char const* c[] = {"LZW", "DEFLATE", "PACKBITS"}; o = CSLSetNameValue(o, "COMPRESS", c[r.below(3)]); how += " compressed"; }
        if (r.chance(20)) { o = CSLSetNameValue(o, "ENDIANNESS", "BIG"); how += " big-endian"; }
        if (r.chance(25)) { bands = 2 + int(r.below(2)); o = CSLSetNameValue(o, "INTERLEAVE", r.chance(50) ? "PIXEL" : "BAND"); how += " bands"; }
    }
    auto ds = d->Create(path.c_str(), int(cols), int(rows), bands, G<T>::type, o);
    CSLDestroy(o);
    if (!ds) return false;
    if (gt) ds->SetGeoTransform(const_cast<double*>(gt));
    if (nd.has && ds->GetRasterBand(1)->SetNoDataValue(nd.value) != CE_None) nd.has = false;
    bool ok = true;
    for (int b = bands; b >= 1; --b) {
        std::vector<T> w(v);
        if (b > 1) for (auto& x : w) x = any<T>(r);
        ok &= ds->GetRasterBand(b)->RasterIO(GF_Write, 0, 0, int(cols), int(rows), w.data(), int(cols), int(rows), G<T>::type, 0, 0) == CE_None;
    }
    GDALClose(ds);
    if (!ok) return false;
    // What the file says about no-data, asked independently of fern.
    ds = static_cast<GDALDataset*>(GDALOpen(path.c_str(), GA_ReadOnly));
    if (!ds) return false;
    int has; double value = ds->GetRasterBand(1)->GetNoDataValue(&has);
    std::vector<T> back(v.size());
    ok = ds->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, int(cols), int(rows), back.data(), int(cols), int(rows), G<T>::type, 0, 0) == CE_None && ds->GetRasterBand(1)->GetRasterDataType() == G<T>::type;
    for (size_t i = 0; ok && i < v.size(); ++i) ok = same(back[i], v[i]);
    nd.has = has; nd.value = value;
    GDALClose(ds);
    return ok;
}

template<class T> using Raster = fern::MaskedRaster<T, 2>;
template<class T> void compare(std::string const& key, Raster<T>& raster, std::vector<T> const& v, NoData const& nd, std::vector<char> const& marked, bool by_mask) {
    for (size_t i = 0; i < v.size(); ++i) {
        bool no = nd.has && is_no_data(v[i], nd.value);
        bool want = by_mask ? (marked[i] || no) : bool(marked[i]);
        if (raster.mask().data()[i] != want) { mon().violation(key + "-mark", "cell " + std::to_string(i) + " = " + text(v[i]) + " no-data " + (nd.has ? text(nd.value) : "none") + " marked " + std::to_string(raster.mask().data()[i])); return; }
        T e = v[i]; if (!by_mask && no) fern::set_no_data(e);
        if (!same(raster.data()[i], e)) { mon().violation(key + "-value", "cell " + std::to_string(i) + " is " + text(raster.data()[i]) + " not " + text(e)); return; }
        if (no) mon().count("no-data cells");
    }
}

template<class T> void read_case(Rng& r) {
    size_t rows = 1 + r.below(r.chance(10) ? 90 : 12), cols = 1 + r.below(r.chance(10) ? 90 : 12);
    std::vector<T> v(rows * cols); int kind = int(r.below(3)); T base = any<T>(r), other = any<T>(r);
    for (auto& x : v) x = kind == 0 ? any<T>(r) : kind == 1 ? (r.chance(50) ? base : other) : T(r.below(5));
    NoData nd = no_data_of<T>(r, v); std::string how;
    std::string driver = r.chance(70) ? "GTiff" : r.chance(50) ? "ENVI" : "HFA";
    std::string path = name(r) + (driver == "GTiff" ? ".tif" : driver == "HFA" ? ".img" : ".bil");
    double gt[6] = {double(r.range(-100, 100)), 2.5, 0, double(r.range(-100, 100)), 0, -2.5};
    mon().at("raster " + driver + " " + typeid(T).name() + " " + std::to_string(rows) + "x" + std::to_string(cols) + " no-data " + (nd.has ? text(nd.value) : "none"));
    if (!write(r, path, driver, rows, cols, v, nd, r.chance(70) ? gt : nullptr, how)) { mon().count("not storable"); return; }
    typename Raster<T>::Transformation tf{{1.5, 2.0, 3.5, 4.0}};
    bool by_mask = r.chance(75);
    Raster<T> raster(fern::extents[rows][cols], tf);
    for (size_t i = 0; i < v.size(); ++i) raster.data()[i] = any<T>(r);
    std::vector<char> marked(v.size(), 0);
    if (r.chance(40)) for (size_t i = 0; i < v.size(); ++i) raster.mask().data()[i] = marked[i] = r.chance(20);
    size_t before = open_files(), sets = datasets();
    std::string full = r.chance(50) ? path : (std::filesystem::current_path() / path).string();
    try {
        fern::DataName dn(full + (r.chance(50) ? ":/x" : ""));
        if (by_mask) { fa::MarkNoDataByValue<typename Raster<T>::Mask> p(raster.mask()); fig::read(p, dn, raster); }
        else { fa::MarkNoData<Raster<T>> p(raster); fig::read(p, dn, raster); }
        if (fig::gdal_value_type(dn) != G<T>::type) mon().violation("raster-type", "");
        compare("raster", raster, v, nd, marked, by_mask);
        if (raster.transformation() != tf) mon().violation("raster-transformation", "");
    } catch (fern::Exception const& e) { mon().violation("raster-error", e.message()); }
    if (open_files() != before || datasets() != sets) mon().violation("raster-leak", "dataset left open");
    mon().seen(mon().where() + how + driver + std::to_string(r.s)); mon().count("rasters read"); mon().count("cells compared", v.size());
    if (nd.has) mon().count(nd.value != nd.value ? "files with NaN no-data" : "files with no-data");
    // Damaged copies.
    if (r.chance(50)) {
        std::string bytes = slurp(path), cut = "cut-" + path; size_t k = r.below(bytes.size() + 1);
        if (k < bytes.size()) {
            spit(cut, bytes.substr(0, k));
            if (driver == "ENVI" ) { std::string h = path.substr(0, path.size() - 4) + ".hdr"; std::error_code e; std::filesystem::copy_file(h, "cut-" + h, e); }
            mon().at(mon().where() + how + " cut at " + std::to_string(k) + " of " + std::to_string(bytes.size()));
            Raster<T> d(fern::extents[rows][cols], tf);
            fa::MarkNoDataByValue<typename Raster<T>::Mask> p(d.mask());
            before = open_files(); sets = datasets();
            // What GDAL itself makes of the file.
            bool good = false, fits = true; std::vector<T> w(v.size());
            if (auto ds = static_cast<GDALDataset*>(GDALOpen(cut.c_str(), GA_ReadOnly))) {
                fits = size_t(ds->GetRasterXSize()) == cols && size_t(ds->GetRasterYSize()) == rows;   // a destination that does not fit is out of contract
                good = ds->GetRasterCount() >= 1 && size_t(ds->GetRasterXSize()) == cols && size_t(ds->GetRasterYSize()) == rows
                    && ds->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, int(cols), int(rows), w.data(), int(cols), int(rows), G<T>::type, 0, 0) == CE_None;
                if (good) { int h; nd.value = ds->GetRasterBand(1)->GetNoDataValue(&h); nd.has = h; }
                GDALClose(ds);
            }
            if (!fits) mon().count("cut files of another size");
            else if (!good) must_fail<fern::IOError>("damaged", cut, [&] { fig::read(p, fern::DataName(cut), d); }, datasets);
            else { try { fig::read(p, fern::DataName(cut), d); compare("damaged", d, w, nd, std::vector<char>(v.size(), 0), true); } catch (fern::Exception const& e) { mon().violation("damaged-error", e.message()); } mon().count("cut files still readable"); }
            if (open_files() != before || datasets() != sets) mon().violation("damaged-leak", "");
            mon().seen(mon().where() + std::to_string(r.s));
        }
    }
}

// Text grid: any value type the driver comes up with.
static void ascii_case(Rng& r) {
    size_t rows = 1 + r.below(6), cols = 1 + r.below(6); bool real = r.chance(50);
    int ndk = int(r.below(4)); double ndv[] = {-9999, 0, 3, -1}; double nd = ndv[ndk];
    std::ostringstream s; s << "ncols " << cols << "\nnrows " << rows << "\nxllcorner 1\nyllcorner 2\ncellsize 5\nNODATA_value " << nd << "\n";
    std::vector<float> f(rows * cols); std::vector<int32_t> n(rows * cols);
    for (size_t i = 0; i < f.size(); ++i) { int x = int(r.chance(30) ? nd : double(r.range(-4, 4))); n[i] = x; f[i] = float(x) + (real && x != nd ? 0.5f : 0.f); s << (real ? text(f[i]) + (f[i] == float(x) ? ".0" : "") : std::to_string(x)) << ((i + 1) % cols ? " " : "\n"); }
    std::string path = name(r) + ".asc"; spit(path, s.str());
    mon().at("grid " + s.str());
    NoData w; w.has = true; w.value = nd;
    auto go = [&](auto const& v, auto t) {
        using T = decltype(t);
        Raster<T> raster(fern::extents[rows][cols], typename Raster<T>::Transformation{{0, 1, 0, 1}});
        fa::MarkNoDataByValue<typename Raster<T>::Mask> p(raster.mask());
        try { fig::read(p, fern::DataName(path + ":a"), raster); compare("grid", raster, v, w, std::vector<char>(v.size(), 0), true); }
        catch (fern::Exception const& e) { mon().violation("grid-error", e.message()); }
    };
    auto ds = static_cast<GDALDataset*>(GDALOpen(path.c_str(), GA_ReadOnly)); if (!ds) return;
    auto type = ds->GetRasterBand(1)->GetRasterDataType(); GDALClose(ds);
    if (type == GDT_Float32) go(f, float()); else if (type == GDT_Int32) go(n, int32_t()); else mon().count("grid of another type");
    mon().seen(s.str());
}

template<class T> void failing(Rng& r, std::string const& key, std::string const& path, size_t rows = 2, size_t cols = 2) {
    mon().at(key + " " + path.substr(0, 300)); mon().seen(key + path + typeid(T).name());
    Raster<T> raster(fern::extents[rows][cols], typename Raster<T>::Transformation{{0, 1, 0, 1}});
    fa::MarkNoDataByValue<typename Raster<T>::Mask> p(raster.mask());
    must_fail<fern::IOError>(key, path, [&] { fig::read(p, fern::DataName(path + ":x"), raster); }, datasets);
    for (size_t i = 0; i < rows * cols; ++i) if (raster.mask().data()[i]) { mon().violation(key + "-mark", "marks after a failed read"); break; }
}

static void errors(Rng& r) {
    std::string id = std::to_string(r.next() % 1000000);
    failing<float>(r, "missing", "no such " + name(r));
    failing<int32_t>(r, "missing-directory", "nodir" + id + "/" + name(r));
    std::filesystem::create_directory("dir" + id); failing<float>(r, "directory", "dir" + id);
    spit("empty" + id, ""); failing<uint8_t>(r, "empty", "empty" + id);
    failing<uint8_t>(r, "below-file", "empty" + id + "/x");
    std::string g; for (size_t i = r.below(3000); i--; ) g += char(r.next()); spit("garbage" + id, g); failing<double>(r, "garbage", "garbage" + id);
    failing<float>(r, "long-name", std::string(300 + r.below(200), 'x'));
    failing<float>(r, "long-path", [] { std::string s; for (int i = 0; i < 2500; ++i) s += "a/"; return s + "x"; }());
    std::error_code e; std::filesystem::create_symlink("loop" + id, "loop" + id, e); failing<float>(r, "link-loop", "loop" + id);
    std::filesystem::create_symlink("nowhere", "dangling" + id, e); failing<float>(r, "dangling-link", "dangling" + id);
    spit("bands" + id + ".vrt", "<VRTDataset rasterXSize=\"2\" rasterYSize=\"2\"></VRTDataset>"); failing<float>(r, "no-bands", "bands" + id + ".vrt");
    spit("gone" + id + ".vrt", "<VRTDataset rasterXSize=\"2\" rasterYSize=\"2\"><VRTRasterBand dataType=\"Float32\" band=\"1\"><SimpleSource><SourceFilename>nosuch.tif</SourceFilename><SourceBand>1</SourceBand></SimpleSource></VRTRasterBand></VRTDataset>");
    failing<float>(r, "source-gone", "gone" + id + ".vrt");
    // another value type
    { NoData nd; std::string how; std::vector<int16_t> v(4, 7); std::string p = "int16-" + id + ".tif"; if (write(r, p, "GTiff", 2, 2, v, nd, nullptr, how)) { failing<float>(r, "other-type", p); failing<uint16_t>(r, "other-type", p); failing<int32_t>(r, "other-type", p); failing<uint8_t>(r, "other-type", p); } }
    { NoData nd; std::string how; std::vector<double> v(4, 7); std::string p = "double-" + id + ".tif"; if (write(r, p, "GTiff", 2, 2, v, nd, nullptr, how)) {
        failing<float>(r, "other-type", p); failing<int32_t>(r, "other-type", p);
        std::filesystem::permissions(p, std::filesystem::perms::none);
        if (unprivileged([&] { failing<double>(r, "unreadable", p); })) mon().count("unreadable file");
        std::filesystem::permissions(p, std::filesystem::perms(0444));
        if (unprivileged([&] { must_fail<fern::IOError>("unwritable", p, [&] { fig::open_dataset(p, GA_Update); }, datasets); })) mon().count("unwritable file");
    } }
    if (unprivileged([&] { must_fail<fern::IOError>("no-access", "secret" + id + "/x", [&] { fig::open_dataset("secret" + id + "/x", GA_ReadOnly); }, datasets); })) {}
    std::filesystem::create_directory("closed" + id); spit("closed" + id + "/x", "1"); std::filesystem::permissions("closed" + id, std::filesystem::perms::none);
    unprivileged([&] { failing<float>(r, "closed-directory", "closed" + id + "/x"); });
    std::filesystem::permissions("closed" + id, std::filesystem::perms(0700));
    must_fail<fern::IOError>("update-missing", "nonesuch" + id, [&] { fig::open_dataset("nonesuch" + id, GA_Update); }, datasets);
    must_fail<fern::IOError>("update-garbage", "garbage" + id, [&] { fig::open_dataset("garbage" + id, GA_Update); }, datasets);
    must_fail<fern::IOError>("type-missing", "nonesuch" + id, [&] { fig::gdal_value_type(fern::DataName("nonesuch" + id)); }, datasets);
    must_fail<fern::IOError>("type-no-bands", "bands" + id + ".vrt", [&] { fig::gdal_value_type(fern::DataName("bands" + id + ".vrt")); }, datasets);
}

// Moved handles: every dataset is open while a handle to it lives, and closed once.
static void handles(Rng& r) {
    std::vector<std::string> files; std::string log = "handles";
    for (int i = 0; i < 4; ++i) { NoData nd; std::string how, p = "h" + std::to_string(i) + ".tif"; std::vector<uint8_t> v(size_t(i + 1), 1); write(r, p, "GTiff", 1, size_t(i + 1), v, nd, nullptr, how); files.push_back(p); }
    size_t base = datasets(), fds = open_files();
    {
        std::vector<std::pair<std::unique_ptr<fig::DatasetHandle>, int>> live;   // columns of the dataset; 0: moved from
        for (int step = int(3 + r.below(20)); step--; ) {
            unsigned op = unsigned(r.below(5)); log += " " + std::to_string(op);
            mon().at(log);
            if (op <= 1 || live.empty()) { int f = int(r.below(4)); live.emplace_back(std::make_unique<fig::DatasetHandle>(fig::open_dataset(files[size_t(f)], GA_ReadOnly)), f + 1); }
            else if (op == 2) { size_t i = r.below(live.size()); int f = live[i].second; live[i].second = 0; auto p = std::make_unique<fig::DatasetHandle>(std::move(*live[i].first)); if (r.chance(50)) live.erase(live.begin() + long(i)); live.emplace_back(std::move(p), f); }
            else if (op == 3 && live.size() > 1) { size_t i = r.below(live.size()), j = r.below(live.size()); if (i != j) { *live[i].first = std::move(*live[j].first); live[i].second = live[j].second; live[j].second = 0; if (r.chance(50)) live.erase(live.begin() + long(j)); } }
            else live.erase(live.begin() + long(r.below(live.size())));
            size_t n = 0; for (auto& h : live) if (h.second) { ++n; if ((*h.first)->GetRasterXSize() != h.second) mon().violation("handle-dataset", log); }
            if (datasets() != base + n) { mon().violation("handle-count", log + ": " + std::to_string(datasets() - base) + " open, " + std::to_string(n) + " handles"); break; }
        }
    }
    if (datasets() != base || open_files() != fds) mon().violation("handle-leak", log);
    mon().seen(log); mon().count("handle histories");
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    // Clients nest; drivers are there exactly while a client lives.
    { Rng r = mon().rng("client");
      for (int k = 0; k < 3; ++k) {
        std::vector<std::unique_ptr<fig::GDALClient>> c;
        for (int i = 0; i < 8; ++i) {
            if (c.empty() || r.chance(60)) c.push_back(std::make_unique<fig::GDALClient>()); else c.erase(c.begin() + long(r.below(c.size())));
            mon().at("client " + std::to_string(c.size()));
            if ((GetGDALDriverManager()->GetDriverCount() > 0) != !c.empty()) mon().violation("client-drivers", "");
        }
        while (!c.empty()) c.pop_back();
        if (GetGDALDriverManager()->GetDriverCount() != 0) mon().violation("client-unload", "");
        mon().seen("client" + std::to_string(k));
      }
    }
    fig::GDALClient client;
    CPLSetConfigOption("GDAL_PAM_ENABLED", "NO");
    if (mon().want("errors")) { Rng r = mon().rng("errors"); for (size_t i = mon().n(6, 100); i--; ) errors(r); }
    if (mon().want("handles")) { Rng r = mon().rng("handles"); for (size_t i = mon().n(300, 6000); i--; ) handles(r); }
    if (mon().want("read")) { Rng r = mon().rng("read"); for (size_t i = mon().n(400, 8000); i--; ) { read_case<uint8_t>(r); read_case<uint16_t>(r); read_case<int16_t>(r); read_case<uint32_t>(r); read_case<int32_t>(r); read_case<float>(r); read_case<double>(r); } }
    if (mon().want("grid")) { Rng r = mon().rng("grid"); for (size_t i = mon().n(300, 5000); i--; ) ascii_case(r); }
    return mon().finish();
}

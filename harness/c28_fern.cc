// C28: datasets in the Fern format (HDF5) keep what is written to them.
#include "io.h"
#include <cassert>
#include <memory>
#include <dlfcn.h>
#include <hdf5.h>
#include "fern/core/io_error.h"
#include "fern/core/type_traits.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/io/core/file.h"
#include "fern/language/io/drivers.h"
#include "fern/language/io/fern/fern_dataset.h"
#include "fern/language/io/fern/fern_driver.h"
#include "fern/language/io/io_client.h"
using namespace vh;
namespace fl = fern::language;
using fl::OpenMode;

// Data types and spaces handed out by the library and not given back. The
// calls pass through here on their way to the library.
static long loose = 0;
template<class F> F* next_of(char const* name) { return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name)); }
extern "C" {
hid_t H5Dget_type(hid_t d) { static auto f = next_of<hid_t(hid_t)>("H5Dget_type"); hid_t r = f(d); if (r >= 0) ++loose; return r; }
hid_t H5Dget_space(hid_t d) { static auto f = next_of<hid_t(hid_t)>("H5Dget_space"); hid_t r = f(d); if (r >= 0) ++loose; return r; }
hid_t H5Screate(H5S_class_t c) { static auto f = next_of<hid_t(H5S_class_t)>("H5Screate"); hid_t r = f(c); if (r >= 0) ++loose; return r; }
hid_t H5Tcopy(hid_t t) { static auto f = next_of<hid_t(hid_t)>("H5Tcopy"); hid_t r = f(t); if (r >= 0) ++loose; return r; }
herr_t H5Tclose(hid_t t) { static auto f = next_of<herr_t(hid_t)>("H5Tclose"); herr_t r = f(t); if (r >= 0) --loose; return r; }
herr_t H5Sclose(hid_t t) { static auto f = next_of<herr_t(hid_t)>("H5Sclose"); herr_t r = f(t); if (r >= 0) --loose; return r; }
}
static size_t handles() { return size_t(H5Fget_obj_count(hid_t(H5F_OBJ_ALL), H5F_OBJ_ALL) + loose); }
static char const* mode_name(OpenMode m) { return m == OpenMode::READ ? "read" : m == OpenMode::UPDATE ? "update" : "overwrite"; }

// A value with its type: how it is written, and how it is compared.
struct Stored {
    std::string type;
    std::function<void(fl::FernDataset&, fern::Path const&)> write_typed;
    std::function<void(fl::FernDataset&, fern::Path const&)> write_generic;
    std::function<std::string(std::shared_ptr<fl::Attribute> const&)> compare;   // empty: equal
    fern::ExpressionType expression;
};
template<class T> T any(Rng& r) {
    using L = std::numeric_limits<T>;
    if (r.chance(15)) return L::max();
    if (r.chance(15)) return L::lowest();
    if (std::is_floating_point<T>::value) {
        if (r.chance(10)) return L::quiet_NaN();
        if (r.chance(10)) return r.chance(50) ? L::infinity() : -L::infinity();
        if (r.chance(10)) return L::denorm_min();
        if (r.chance(10)) return T(-0.0);
        return T((r.unit() - 0.5) * 1e9);
    }
    return r.chance(30) ? T(r.below(4)) : T(r.next());
}
template<class T> Stored stored(Rng& r) {
    T v = any<T>(r);
    Stored s; s.type = tn<T>();
    s.write_typed = [v](fl::FernDataset& d, fern::Path const& p) { fl::ConstantAttribute<T> a(v); d.write_attribute(a, p); };
    s.write_generic = [v](fl::FernDataset& d, fern::Path const& p) { fl::ConstantAttribute<T> a(v); static_cast<fl::Dataset&>(d).write_attribute(static_cast<fl::Attribute const&>(a), p); };
    s.compare = [v](std::shared_ptr<fl::Attribute> const& a) -> std::string {
        auto c = std::dynamic_pointer_cast<fl::ConstantAttribute<T>>(a);
        if (!c) return "not a constant of type " + tn<T>();
        T got = c->values().value();
        if (memcmp(&got, &v, sizeof v) == 0 || same(got, v)) return "";
        return "read " + str(got) + " instead of " + str(v) + " (" + tn<T>() + ")";
    };
    s.expression = fern::ExpressionType(fern::DataTypes::CONSTANT, fern::TypeTraits<T>::value_types);
    return s;
}
static Stored stored_of(Rng& r, size_t t) {
    switch (t) {
    case 0: return stored<uint8_t>(r); case 1: return stored<int8_t>(r); case 2: return stored<uint16_t>(r); case 3: return stored<int16_t>(r);
    case 4: return stored<uint32_t>(r); case 5: return stored<int32_t>(r); case 6: return stored<uint64_t>(r); case 7: return stored<int64_t>(r);
    case 8: return stored<float>(r); default: return stored<double>(r);
    }
}

struct Model {
    std::map<std::string, std::pair<size_t, Stored>> attributes;  // absolute pathname
    std::set<std::string> features;                                  // absolute pathnames, without the root
    bool group(std::string const& p) const { return p == "/" || features.count(p); }
    size_t groups_in(std::string const& p) const { size_t n = 0; for (auto& f : features) if (parent(f) == p) ++n; return n; }
    size_t attributes_in(std::string const& p) const { size_t n = 0; for (auto& f : attributes) if (parent(f.first) == p) ++n; return n; }
    static std::string parent(std::string const& p) { auto i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
};
static std::vector<std::string> const& names() {
    static std::vector<std::string> n{"a", "b", "planets", "gravity", "with space", "\xc3\xa9t\xc3\xa9", "a.b", "x1", "-", "A"};
    return n;
}
static std::string some_path(Rng& r, size_t most) {
    std::string p; size_t n = 1 + r.below(most);
    for (size_t i = 0; i < n; ++i) p += "/" + r.pick(names());
    return p;
}
// A path that is likely to touch what is there.
static std::string near_path(Rng& r, Model const& m) {
    std::vector<std::string> all(m.features.begin(), m.features.end());
    for (auto& a : m.attributes) all.push_back(a.first);
    if (all.empty() || r.chance(25)) return some_path(r, 4);
    std::string p = r.pick(all);
    switch (r.below(4)) {
    case 0: return p;
    case 1: return Model::parent(p) == "/" ? p : Model::parent(p);
    case 2: return p + some_path(r, 2);
    default: return p;
    }
}
template<class F> void fails(std::string const& key, std::string const& want, F f) {
    size_t before = handles();
    try { f(); mon().violation(key + "-silent", "no error; expected " + want); }
    catch (fern::IOError const& e) {
        mon().count("failures provoked");
        if (e.message() != want) mon().violation(key + "-message", "\"" + e.message() + "\" instead of \"" + want + "\"");
    }
    catch (std::exception const& e) { mon().violation(key + "-foreign", std::string("other exception: ") + e.what()); }
    if (handles() != before) mon().violation(key + "-leak", "handles left open: " + std::to_string(handles()) + " instead of " + std::to_string(before));
}

static void judge(Rng& r, fl::FernDataset const& d, Model const& m, std::string const& p, bool relative) {
    std::string given = relative && p.size() > 1 ? p.substr(1) : p;
    fern::Path path(given);
    size_t before = handles();
    bool f = d.contains_feature(path), a = d.contains_attribute(path);
    if (f != m.group(p)) mon().violation("contains-feature", "contains_feature(" + given + ") = " + str(f));
    if (a != (m.attributes.count(p) > 0)) mon().violation("contains-attribute", "contains_attribute(" + given + ") = " + str(a));
    mon().count("paths looked up");
    if (m.group(p)) {
        if (d.nr_features(path) != m.groups_in(p)) mon().violation("nr-features", given + ": " + std::to_string(d.nr_features(path)) + " features instead of " + std::to_string(m.groups_in(p)));
        if (d.nr_attributes(path) != m.attributes_in(p)) mon().violation("nr-attributes", given + ": " + std::to_string(d.nr_attributes(path)) + " attributes instead of " + std::to_string(m.attributes_in(p)));
    }
    else if (r.chance(50))
        fails("read-feature", "I/O error handling " + d.name() + ": Does not contain feature: " + given, [&] { d.read_feature(path); });
    auto it = m.attributes.find(p);
    if (it != m.attributes.end()) {
        Stored const& s = it->second.second;
        std::string e = s.compare(d.read_attribute(path));
        if (!e.empty()) mon().violation("read-attribute", given + ": " + e);
        e = s.compare(d.open_attribute(path));
        if (!e.empty()) mon().violation("open-attribute", given + ": " + e);
        if (!(d.expression_type(path) == s.expression)) mon().violation("expression-type", given + ": wrong type for " + s.type);
        mon().count("values read back");
    }
    else {
        std::string const want = "I/O error handling " + d.name() + ": Does not contain attribute: " + given;
        switch (r.below(3)) {
        case 0: fails("read-missing-attribute", want, [&] { d.read_attribute(path); }); break;
        case 1: fails("open-missing-attribute", want, [&] { d.open_attribute(path); }); break;
        default: fails("type-of-missing-attribute", want, [&] { d.expression_type(path); });
        }
    }
    if (handles() != before) mon().violation("handles", "looking at " + given + " left " + std::to_string(handles() - before) + " handles open");
}
static void judge_names(fl::FernDataset const& d, Model const& m) {
    std::set<std::string> want;
    for (auto& f : m.features) if (Model::parent(f) == "/") want.insert(f.substr(1));
    auto got = d.feature_names();
    if (std::set<std::string>(got.begin(), got.end()) != want || got.size() != want.size()) {
        std::string s; for (auto& g : got) s += " " + g;
        mon().violation("feature-names", "feature_names() =" + s + ", expected " + std::to_string(want.size()));
    }
    if (d.nr_features() != want.size()) mon().violation("nr-features", "nr_features() = " + std::to_string(d.nr_features()));
}

static void history(Rng& r, size_t id, std::string const& dir) {
    auto driver = std::make_shared<fl::FernDriver>();
    std::string file = dir + "/" + (r.chance(50) ? name(r) : "data" + std::to_string(id)) + (r.chance(70) ? ".gnr" : ".h5");
    for (auto& c : file) if (c == ':') c = '_';
    Model m; bool exists = false;
    size_t idle = handles();
    std::string log = "history " + std::to_string(id) + " " + file + ":";
    size_t const sessions = 1 + r.below(5);
    for (size_t s = 0; s < sessions; ++s) {
        OpenMode mode = r.chance(30) ? OpenMode::OVERWRITE : r.chance(60) ? OpenMode::UPDATE : OpenMode::READ;
        log += std::string(" ") + mode_name(mode); mon().at(log);
        if (r.chance(50)) {   // Asking does not change anything.
            OpenMode q = r.chance(34) ? OpenMode::OVERWRITE : r.chance(50) ? OpenMode::UPDATE : OpenMode::READ;
            std::string before = exists ? slurp(file) : "";
            bool can = r.chance(50) ? driver->can_open(file, q) : fl::dataset_exists(file, q, "Fern");
            bool want = exists || q == OpenMode::OVERWRITE;
            if (can != want) mon().violation("can-open", std::string("can open for ") + mode_name(q) + " = " + str(can));
            if (std::filesystem::exists(file) != exists || (exists && slurp(file) != before))
                mon().violation("can-open-changes-file", std::string("asking whether the dataset can be opened for ") + mode_name(q) + " changed it");
            if (handles() != idle) mon().violation("can-open-leak", "handles left open");
            mon().count("datasets asked for");
        }
        if (!exists && mode != OpenMode::OVERWRITE) {
            fails(std::string("open-missing-") + mode_name(mode), "I/O error handling " + file + ": Does not exist", [&] { driver->open(file, mode); });
            if (r.chance(30)) fails("open-dataset-missing", "I/O error handling " + file + (mode == OpenMode::READ ? ": Cannot be read" : ": Cannot be written"), [&] { fl::open_dataset(file, mode, "Fern"); });
            continue;
        }
        std::shared_ptr<fl::Dataset> dataset = r.chance(50) ? driver->open(file, mode) : r.chance(50) ? fl::open_dataset(file, mode, "Fern") : fl::open_dataset(file, mode);
        auto d = std::dynamic_pointer_cast<fl::FernDataset>(dataset);
        dataset.reset();
        if (!d) { mon().violation("driver", "not opened by the driver of the format"); return; }
        if (mode == OpenMode::OVERWRITE) m = Model();
        exists = true;
        if (d->name() != file || d->open_mode() != mode) mon().violation("dataset", "name or open mode differ");
        judge_names(*d, m);
        size_t const steps = 3 + r.below(14);
        for (size_t k = 0; k < steps; ++k) {
            if (mode != OpenMode::READ && r.chance(45)) {
                std::string p; size_t type; bool old = !m.attributes.empty() && r.chance(40);
                if (old) { auto it = m.attributes.begin(); std::advance(it, long(r.below(m.attributes.size()))); p = it->first; type = it->second.first; }
                else {
                    p = near_path(r, m) ; if (r.chance(40)) p = some_path(r, 4);
                    if (Model::parent(p) == "/" && r.chance(80)) p += some_path(r, 1);
                    bool fine = !m.group(p) && !m.attributes.count(p);
                    for (std::string q = Model::parent(p); fine && q != "/"; q = Model::parent(q)) fine = !m.attributes.count(q);
                    if (!fine) continue;
                    type = r.below(10);
                }
                Stored v = stored_of(r, type);
                bool relative = r.chance(50) && Model::parent(p) != "/";
                fern::Path path(relative ? p.substr(1) : p);
                log += (old ? " rewrite " : " write ") + v.type + " " + path.generic_string(); mon().at(log);
                size_t before = handles();
                (r.chance(50) ? v.write_typed : v.write_generic)(*d, path);
                if (handles() != before) mon().violation("write-leak", "writing left " + std::to_string(handles() - before) + " handles open");
                for (std::string q = Model::parent(p); q != "/"; q = Model::parent(q)) m.features.insert(q);
                m.attributes.erase(p); m.attributes.emplace(p, std::make_pair(type, v));
                mon().count("values written");
                if (r.chance(50)) judge(r, *d, m, p, relative);
            }
            else {
                std::string p = r.chance(8) ? "/" : near_path(r, m);
                bool relative = r.chance(40) && Model::parent(p) != "/";
                mon().at(log + " look at " + p);
                judge(r, *d, m, p, relative);
            }
        }
        mon().at(log + " look at all");
        for (auto& a : m.attributes) judge(r, *d, m, a.first, false);
        for (auto& f : m.features) judge(r, *d, m, f, false);
        judge_names(*d, m);
        d.reset();
        if (handles() != idle) mon().violation("close-leak", "closing the dataset left " + std::to_string(handles() - idle) + " handles open");
        mon().count("sessions");
    }
    if (exists) {   // Independent look through the HDF5 library.
        hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) mon().violation("file", "the file cannot be opened by the HDF5 library");
        else {
            for (auto& a : m.attributes) {
                hid_t ds = H5Dopen(f, a.first.c_str(), H5P_DEFAULT);
                if (ds < 0) { mon().violation("file", a.first + " not in the file"); continue; }
                hid_t t = H5Dget_type(ds);
                static size_t const size[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
                if (H5Tget_size(t) != size[a.second.first] || H5Tget_class(t) != (a.second.first < 8 ? H5T_INTEGER : H5T_FLOAT) ||
                    (a.second.first < 8 && (H5Tget_sign(t) == H5T_SGN_NONE) != (a.second.first % 2 == 0))) mon().violation("file-type", a.first + " has another type in the file");
                H5Tclose(t); H5Dclose(ds);
                mon().count("values found by HDF5");
            }
            H5Fclose(f);
        }
        std::filesystem::remove(file);
    }
    mon().seen(log, !m.attributes.empty());
    if (id < 5) mon().sample(log.substr(0, 300));
}

static void files(Rng& r, size_t id, std::string const& dir) {
    // Files that are not datasets, missing directories, links.
    std::string base = dir + "/f" + std::to_string(id);
    auto driver = std::make_shared<fl::FernDriver>();
    namespace fs = std::filesystem;
    fs::create_directory(base);
    std::string const junk = base + "/junk.gnr", none = base + "/none/x.gnr", link = base + "/link.gnr", dangling = base + "/dangling.gnr", sub = base + "/sub.gnr";
    // HDF5 takes an empty file that may be written for a new data set.
    std::string text; for (size_t i = 1 + r.below(2000); i; --i) text += char(r.below(256));
    if (r.chance(30)) text = std::string("\x89HDF\r\n\x1a\n", 8) + text;
    spit(junk, text); fs::create_symlink(junk, link); fs::create_symlink(base + "/nothing", dangling); fs::create_directory(sub);
    mon().at("files " + std::to_string(id) + " of " + std::to_string(text.size()) + " bytes");
    struct { std::string path; bool is_file; } const cases[] = {{junk, true}, {link, true}, {dangling, false}, {sub, false}, {none, false}, {base + "/nothing", false}, {junk + "/below", false}};
    for (auto& c : cases) {
        if (fl::file_exists(c.path) != c.is_file) mon().violation("file-exists", "file_exists(" + c.path + ")");
        for (auto m : {OpenMode::READ, OpenMode::UPDATE}) {
            if (driver->can_open(c.path, m)) mon().violation("can-open-junk", c.path);
            fails("open-junk", "I/O error handling " + c.path + (!c.is_file ? ": Does not exist" : m == OpenMode::READ ? ": Cannot be read" : ": Cannot be written"), [&] { driver->open(c.path, m); });
        }
    }
    if (slurp(junk) != text) mon().violation("junk-changed", "a file that is not a dataset was changed");
    for (auto& p : {none, sub, junk + "/below"}) {
        if (p != sub && driver->can_open(p, OpenMode::OVERWRITE)) mon().violation("can-open-overwrite", p);
        fails("overwrite-impossible", "I/O error handling " + p + ": Cannot be created", [&] { driver->open(p, OpenMode::OVERWRITE); });
    }
    // Permissions as told by the mode bits.
    for (unsigned bits : {0600u, 0400u, 0200u, 0000u, 0644u, 0444u, 0722u}) {
        std::string f = base + "/mode"; spit(f, "x");
        fs::permissions(f, fs::perms(bits));
        bool writable = bits & 0200;
        if (fl::file_is_writable(f) != writable) mon().violation("file-is-writable", "mode " + std::to_string(bits));
        if (fl::directory_is_writable(f)) mon().violation("directory-is-writable", "a file is a writable directory");
        fs::permissions(f, fs::perms(0600)); fs::remove(f);
        fs::create_directory(f); fs::permissions(f, fs::perms(bits));
        if (fl::directory_is_writable(f) != writable) mon().violation("directory-is-writable", "mode " + std::to_string(bits));
        if (fl::file_is_writable(f)) mon().violation("file-is-writable", "a directory is a writable file");
        if (fl::file_exists(f)) mon().violation("file-exists", "a directory is a file");
        fs::permissions(f, fs::perms(0700)); fs::remove(f);
    }
    if (!fl::file_is_writable(link) || fl::file_is_writable(dangling) || fl::file_is_writable(none) || !fl::directory_is_writable("") || fl::directory_is_writable(none))
        mon().violation("writable", "links or missing files");
    std::string text2 = r.chance(20) ? "" : text;
    fl::write_file(text2, base + "/written"); fl::write_file(text2, link);
    if (slurp(base + "/written") != text2 || slurp(junk) != text2) mon().violation("write-file", "other contents");
    fails("no-such-driver", "I/O error handling " + junk + ": No such driver: nope", [&] { fl::open_dataset(junk, OpenMode::READ, "nope"); });
    fails("no-such-driver", "I/O error handling " + junk + ": No such driver: nope", [&] { fl::dataset_exists(junk, OpenMode::READ, "nope"); });
    mon().seen("files " + std::to_string(fnv(text)));
    fs::remove_all(base);
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Scratch scratch;
    std::string const dir = scratch.dir.string();
    {
        fl::IOClient client;
        if (mon().want("history")) { Rng r = mon().rng("history"); for (size_t i = 0, n = mon().n(150, 3000); i < n; ++i) history(r, i, r.chance(50) ? dir : "."); }
        if (mon().want("files")) { Rng r = mon().rng("files"); for (size_t i = 0, n = mon().n(30, 400); i < n; ++i) files(r, i, dir); }
    }
    if (mon().want("clients")) {   // Clients come and go; datasets work whenever there is one.
        Rng r = mon().rng("clients");
        for (size_t i = 0, n = mon().n(4, 40); i < n; ++i) {
            mon().at("client " + std::to_string(i));
            if (!fl::drivers.empty()) mon().violation("client-gone", "drivers are left after the last client is gone");
            std::vector<std::unique_ptr<fl::IOClient>> clients;
            for (size_t k = 1 + r.below(4); k; --k) clients.emplace_back(new fl::IOClient);
            auto all = fl::drivers.size();
            if (!fl::drivers.count("Fern") || !fl::drivers.count("GTiff")) mon().violation("client-drivers", "drivers missing");
            while (!clients.empty()) {
                if (fl::drivers.size() != all) mon().violation("client-drivers", "drivers come or go with a client that is not the last");
                history(r, 100000 + i * 10 + clients.size(), dir);
                clients.erase(clients.begin() + long(r.below(clients.size())));
            }
            mon().count("clients");
        }
    }
    return mon().finish();
}

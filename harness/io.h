// Scratch directory and resource accounting of the io monitors.
#pragma once
#include "vh.h"
#include <dirent.h>
#include <filesystem>
#include <fstream>
namespace vh {
struct Scratch {
    std::filesystem::path dir;
    Scratch() { char t[] = "/tmp/vh-io-XXXXXX"; char* d = mkdtemp(t); if (!d) { perror("mkdtemp"); _exit(2); } chmod_(d); dir = d; std::filesystem::current_path(dir); }
    ~Scratch() { std::error_code e; std::filesystem::current_path("/", e); if (dir.string().rfind("/tmp/vh-io-", 0) == 0) std::filesystem::remove_all(dir, e); }
    static void chmod_(char const* d) { std::filesystem::permissions(d, std::filesystem::perms(0777)); }
};
inline size_t open_files() {
    size_t n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0;
    while (readdir(d)) ++n;
    closedir(d); return n;
}
inline std::string slurp(std::string const& f) { std::ifstream s(f, std::ios::binary); return {std::istreambuf_iterator<char>(s), {}}; }
inline void spit(std::string const& f, std::string const& t) { std::ofstream s(f, std::ios::binary | std::ios::trunc); s.write(t.data(), std::streamsize(t.size())); }
// Run f without the rights of root. False when that is not possible.
template<class F> bool unprivileged(F f) {
    if (geteuid() != 0 || seteuid(65534) != 0) return false;
    f();
    if (seteuid(0) != 0) _exit(2);
    return true;
}
inline std::string name(Rng& r) {
    static std::string const alpha = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-+ .,%\xc3\xa9";
    std::string s; size_t n = 1 + r.below(r.chance(5) ? 120 : 14);
    for (size_t i = 0; i < n; ++i) s += alpha[r.below(alpha.size() - 2)];
    if (r.chance(20)) s += "\xc3\xa9";
    return "n" + s;
}
// What a failing read has to do: throw E, naming the file, and leave nothing open.
template<class E, class F, class Leak> void must_fail(std::string const& key, std::string const& file, F f, Leak open_now) {
    size_t before = open_files(), sets = open_now();
    bool thrown = false; std::string what;
    try { f(); }
    catch (E const& e) { thrown = true; what = e.message(); }
    catch (std::exception const& e) { mon().violation(key + "-foreign", std::string("other exception: ") + e.what()); return; }
    mon().count("failures provoked");
    if (!thrown) mon().violation(key + "-silent", "no error for " + file);
    else if (what.find(file) == std::string::npos) mon().violation(key + "-name", "error does not name the file: " + what);
    if (open_files() != before || open_now() != sets) mon().violation(key + "-leak", "dataset left open");
}
}

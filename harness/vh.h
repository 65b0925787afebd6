// Shared monitor runtime of the check programs: deterministic random numbers,
// coverage accounting, violation collection, a crash-safe "current case" record.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(std::string const& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string esc(std::string const& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

class Monitor {
public:
    uint64_t seed = 1;
    bool thorough = false;
    std::string out, filter;
    double scale = 1.0;

    void init(int argc, char** argv) {
        std::string cur;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
            if (a == "--seed") seed = std::stoull(val());
            else if (a == "--thorough") thorough = true;
            else if (a == "--out") out = val();
            else if (a == "--current") cur = val();
            else if (a == "--filter") filter = val();
            else if (a == "--scale") scale = std::stod(val());
        }
        if (!cur.empty()) {
            int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) current_ = static_cast<char*>(p);
            }
            if (fd >= 0) close(fd);
        }
    }
    // number of cases: quick and thorough figure, scaled
    size_t n(size_t quick, size_t deep) const {
        double v = double(thorough ? deep : quick) * scale;
        return v < 1 ? 1 : size_t(v);
    }
    Rng rng(std::string const& stream) const { return Rng(seed * 1000003ull + fnv(stream)); }
    bool want(std::string const& group) const {
        return filter.empty() || group.find(filter) != std::string::npos;
    }
    // Name the case about to run. Survives a crash of the process.
    void at(std::string const& what) {
        if (current_) {
            size_t k = std::min<size_t>(what.size(), 4000);
            memcpy(current_, what.data(), k);
            current_[k] = 0;
        }
        case_ = what;
    }
    std::string const& where() const { return case_; }
    // One evaluation of the oracle. sig identifies the case for the distinct
    // count; trivial cases are not counted as distinct.
    void seen(std::string const& sig, bool nontrivial = true) {
        std::lock_guard<std::mutex> l(m_);
        ++evaluations_;
        if (nontrivial) distinct_.insert(fnv(sig));
    }
    void seen(uint64_t sig, bool nontrivial = true) {
        std::lock_guard<std::mutex> l(m_);
        ++evaluations_;
        if (nontrivial) distinct_.insert(sig);
    }
    void count(std::string const& name, uint64_t k = 1) {
        std::lock_guard<std::mutex> l(m_);
        counters_[name] += k;
    }
    void sample(std::string const& s) {
        std::lock_guard<std::mutex> l(m_);
        if (samples_.size() < 12) samples_.push_back(s);
    }
    // key: stable name of what fails (call site/input class); msg: witness.
    void violation(std::string const& key, std::string const& msg) {
        std::lock_guard<std::mutex> l(m_);
        ++nviol_;
        auto& v = violations_[key];
        if (v.size() < 3) v.push_back("[" + case_ + "] " + msg);
        if (nviol_ <= 20) fprintf(stderr, "violation %s: [%s] %s\n", key.c_str(), case_.c_str(), msg.c_str());
    }
    bool check(bool ok, std::string const& key, std::function<std::string()> const& msg) {
        if (!ok) violation(key, msg());
        return ok;
    }
    int finish() {
        std::ostringstream o;
        o << "{\"evaluations\":" << evaluations_ << ",\"distinct\":" << distinct_.size() << ",\"counters\":{";
        bool first = true;
        for (auto& c : counters_) { o << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
        o << "},\"samples\":[";
        first = true;
        for (auto& s : samples_) { o << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
        o << "],\"violations\":{";
        first = true;
        for (auto& v : violations_) {
            o << (first ? "" : ",") << "\"" << esc(v.first) << "\":[";
            for (size_t i = 0; i < v.second.size(); ++i) o << (i ? "," : "") << "\"" << esc(v.second[i]) << "\"";
            o << "]";
            first = false;
        }
        o << "},\"done\":true}\n";
        if (!out.empty()) {
            std::string tmp = out + ".tmp";
            if (FILE* f = fopen(tmp.c_str(), "w")) {
                fwrite(o.str().data(), 1, o.str().size(), f);
                fclose(f);
                rename(tmp.c_str(), out.c_str());
            }
        } else fputs(o.str().c_str(), stdout);
        return 0;
    }
private:
    std::mutex m_;
    uint64_t evaluations_ = 0, nviol_ = 0;
    std::unordered_set<uint64_t> distinct_;
    std::map<std::string, uint64_t> counters_;
    std::vector<std::string> samples_;
    std::map<std::string, std::vector<std::string>> violations_;
    std::string case_;
    char* current_ = nullptr;
};

inline Monitor& mon() { static Monitor m; return m; }

template<class T> std::string tn() {
    if (std::is_same<T, bool>::value) return "bool";
    std::string s = std::is_floating_point<T>::value ? "f" : std::is_signed<T>::value ? "i" : "u";
    return s + std::to_string(sizeof(T) * 8);
}

template<class T> std::string str(T const& v) {
    std::ostringstream o;
    if constexpr (std::is_same<T, bool>::value) o << (v ? "true" : "false");
    else if constexpr (std::is_integral<T>::value) o << +v;
    else if constexpr (std::is_floating_point<T>::value) { o.precision(std::numeric_limits<T>::max_digits10); o << v; }
    else o << v;
    return o.str();
}

// bitwise/NaN aware equality
template<class T> bool same(T a, T b) {
    if constexpr (std::is_floating_point<T>::value) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return a == b;
    } else return a == b;
}

template<class C> std::string list(C const& c, size_t max = 24) {
    std::ostringstream o;
    o << "{";
    size_t i = 0;
    for (auto const& v : c) {
        if (i) o << ",";
        if (i == max) { o << "..."; break; }
        using V = typename std::decay<decltype(v)>::type;
        o << str<V>(v);
        ++i;
    }
    o << "}";
    return o.str();
}

// boundary-biased random value of an arithmetic type
template<class T> T value(Rng& r, int mode = -1) {
    using L = std::numeric_limits<T>;
    if constexpr (std::is_same<T, bool>::value) return r.chance(50);
    else if constexpr (std::is_integral<T>::value) {
        switch (mode < 0 ? r.below(6) : mode) {
            case 0: return T(r.next());
            case 1: return T(L::max() - T(r.below(4)));
            case 2: return T(L::min() + T(r.below(4)));
            case 3: return T(int64_t(r.below(9)) - (std::is_signed<T>::value ? 4 : 0));
            case 4: { unsigned b = unsigned(r.below(L::digits)); T v = T(T(1) << b); v = T(v + T(int(r.below(3)) - 1)); return (std::is_signed<T>::value && r.chance(50)) ? T(-v) : v; }
            default: return T(r.below(100));
        }
    } else {
        switch (mode < 0 ? r.below(8) : mode) {
            case 0: { // random bits, finite
                for (;;) {
                    T v;
                    if (sizeof(T) == 4) { uint32_t b = uint32_t(r.next()); memcpy(&v, &b, 4); }
                    else { uint64_t b = r.next(); memcpy(&v, &b, sizeof(T)); }
                    if (std::isfinite(v)) return v;
                }
            }
            case 1: return L::max();
            case 2: return L::lowest();
            case 3: return T(int64_t(r.below(9)) - 4);
            case 4: return T(r.chance(50) ? 0.0 : -0.0);
            case 5: return T((r.unit() - 0.5) * 200);
            case 6: return r.chance(50) ? L::min() : L::denorm_min();
            default: return T((int64_t(r.below(2001)) - 1000) * 0.5);
        }
    }
}
template<class T> T small(Rng& r) { // harmless values
    if constexpr (std::is_same<T, bool>::value) return r.chance(50);
    else if constexpr (std::is_integral<T>::value)
        return std::is_signed<T>::value ? T(int(r.below(21)) - 10) : T(r.below(11));
    else return T((int64_t(r.below(4001)) - 2000) / 8.0);
}

} // namespace vh

// C22: strings, paths, data names, messages.
#include "vh.h"
#include <algorithm>
#include <cerrno>
#include <filesystem>
#include "fern/core/data_name.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/path.h"
#include "fern/core/string.h"
#include "fern/core/validate_error.h"
using namespace vh;
using S = std::string;

static S text(Rng& r, S const& alphabet, size_t most) {
    S s; size_t n = r.chance(10) ? 0 : r.chance(50) ? r.below(6) : r.below(most + 1);
    if (r.chance(1)) n = 1000 + r.below(3000);
    for (size_t i = 0; i < n; ++i) {
        char c = alphabet[r.below(alphabet.size())];
        s += c;
        if (r.chance(20)) s.append(r.below(4), c);
    }
    return s;
}
static S cut(S const& s) { return esc(s.size() > 80 ? s.substr(0, 77) + "..." : s); }
static S show(std::vector<S> const& v) { S r; for (auto& s : v) r += "[" + cut(s) + "]"; return r; }
static bool in(S const& set, char c) { return set.find(c) != S::npos; }
static S const space = " \t\n\v\f\r";
static std::vector<S> cut_by(S const& s, S const& seps) {
    std::vector<S> r; S w;
    for (char c : s) if (in(seps, c)) { if (!w.empty()) r.push_back(w); w.clear(); } else w += c;
    if (!w.empty()) r.push_back(w);
    return r;
}

static void strings(Rng& r) {
    // Separators that mean themselves in a bracket expression.
    static S const safe = "/,;:|.*+?(){}$x_ \t\n\"'#%<>=&";
    S const alphabet = r.chance(50) ? S("ab/, x.") : S("abc/,;:|.*+?(){}$x_ \t\n\"'#%<>=&[]\\^-\r\v\f\xc3\xb8Z09");
    {
        S s = text(r, alphabet, 40), seps;
        if (!r.chance(25)) for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) { char c = safe[r.below(safe.size())]; if (!in(seps, c)) seps += c; }
        mon().at("split " + cut(s) + " by " + cut(seps)); mon().seen("split " + s + "|" + seps, !s.empty());
        auto got = fern::split(s, seps), want = cut_by(s, seps.empty() ? space : seps);
        if (got != want) mon().violation("split", show(got) + " instead of " + show(want));
        if (seps.empty() && fern::split(s) != want) mon().violation("split-default", show(want));
        // Joining and splitting are inverse.
        if (!seps.empty()) {
            S j = fern::join(want, seps.substr(0, 1)), e;
            for (size_t i = 0; i < want.size(); ++i) e += (i ? seps.substr(0, 1) : "") + want[i];
            if (j != e) mon().violation("join", cut(j));
            if (fern::split(j, seps) != want) mon().violation("join-split", cut(j));
        }
        std::vector<S> w(r.below(5)); for (auto& x : w) x = text(r, alphabet, 6);
        S sep = text(r, alphabet, 4), e;
        for (size_t i = 0; i < w.size(); ++i) e += (i ? sep : "") + w[i];
        if (fern::join(w, sep) != e) mon().violation("join", show(w) + " by " + cut(sep));
    }
    {
        S s = text(r, alphabet, 30), c = r.chance(20) ? S() : text(r, alphabet, 4);
        mon().at("strip " + cut(s) + " of " + cut(c)); mon().seen("strip " + s + "|" + c, !s.empty());
        S set = c.empty() ? space : c;
        auto left = [](S x, S const& k) { size_t i = 0; while (i < x.size() && in(k, x[i])) ++i; return x.substr(i); };
        auto right = [](S x, S const& k) { size_t i = x.size(); while (i && in(k, x[i - 1])) --i; return x.substr(0, i); };
        S x = s; S& y = fern::strip(x, c);
        if (&y != &x || x != right(left(s, set), set)) mon().violation("strip", cut(x));
        if (c.empty()) { S z = s; fern::strip(z); if (z != x) mon().violation("strip-default", cut(z)); }
        S b = s; if (&fern::strip_begin(b, c) != &b || b != left(s, c)) mon().violation("strip-begin", cut(b));
        S e = s; if (&fern::strip_end(e, c) != &e || e != right(s, c)) mon().violation("strip-end", cut(e));
    }
    {
        S s = text(r, "ab/", 20), a = r.chance(10) ? S() : text(r, "ab/", 3), b = text(r, "ab/%", 4);
        if (r.chance(50)) { size_t i = r.below(s.size() + 1); a = s.substr(i, r.below(5)); }
        mon().at("replace in " + cut(s) + " " + cut(a) + " by " + cut(b)); mon().seen("replace " + s + "|" + a + "|" + b, !s.empty() && !a.empty());
        S want;
        if (a.empty()) want = s;
        else for (size_t i = 0; i < s.size();) if (s.compare(i, a.size(), a) == 0) { want += b; i += a.size(); } else want += s[i++];
        S x = s; S& y = fern::replace(x, a, b);
        if (&y != &x || x != want) mon().violation("replace", cut(x) + " instead of " + cut(want));
        bool c = false; for (size_t i = 0; i + a.size() <= s.size(); ++i) c |= s.compare(i, a.size(), a) == 0;
        if (fern::contains(s, a) != c) mon().violation("contains", "");
        bool st = a.size() <= s.size() && std::equal(a.begin(), a.end(), s.begin());
        bool en = a.size() <= s.size() && std::equal(a.rbegin(), a.rend(), s.rbegin());
        if (fern::starts_with(s, a) != st) mon().violation("starts-with", "");
        if (fern::ends_with(s, a) != en) mon().violation("ends-with", "");
    }
    {
        // Numbers.
        S s; bool integer = r.chance(50);
        if (integer) {
            if (r.chance(30)) s += r.chance(50) ? '-' : '+';
            static char const* edge[] = {"9223372036854775807", "9223372036854775808", "9223372036854775809", "0", "00", "18446744073709551616"};
            if (r.chance(20)) s += edge[r.below(6)];
            else for (size_t i = 0, n = 1 + r.below(18); i < n; ++i) s += char('0' + r.below(10));
        } else {
            if (r.chance(30)) s += r.chance(50) ? '-' : '+';
            for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) s += char('0' + r.below(10));
            if (r.chance(60)) { s += '.'; for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) s += char('0' + r.below(10)); }
            if (r.chance(30)) { s += r.chance(50) ? 'e' : 'E'; if (r.chance(60)) s += r.chance(50) ? '-' : '+'; s += std::to_string(r.below(250)); }
        }
        bool broken = r.chance(40);
        if (broken) {
            static S const junk = "abz_ \t/:,#%*()";
            char c = junk[r.below(junk.size())];
            switch (r.below(4)) { case 0: s += c; break; case 1: s = c + s; break; case 2: s.insert(r.below(s.size() + 1), 1, c); break; case 3: s = r.chance(50) ? S() : S(1, c); break; }
        }
        mon().at("number " + cut(s)); mon().seen("number " + s);
        size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
        bool digits = i < s.size(); for (size_t k = i; k < s.size(); ++k) digits &= s[k] >= '0' && s[k] <= '9';
        errno = 0; long long v = 0; bool ok = digits;
        if (digits) { v = strtoll(s.c_str(), nullptr, 10); if (errno) ok = false; }
        if (fern::is_convertable_to<int64_t>(s) != ok) mon().violation("is-integer", cut(s));
        if (fern::as<int64_t>(s) != (ok ? v : 0)) mon().violation("as-integer", cut(s));
        char* end; double d = strtod(s.c_str(), &end);
        bool dok = !s.empty() && *end == 0 && !in(space, s[0]);
        if (fern::is_convertable_to<double>(s) != dok) mon().violation("is-number", cut(s));
        if (dok && fern::as<double>(s) != d && std::fabs(fern::as<double>(s) - d) > 1e-14 * std::fabs(d)) mon().violation("as-number", cut(s));
        if (!dok && fern::as<double>(s) != 0) mon().violation("as-number-default", cut(s));
    }
}

static void data_names(Rng& r) {
    S alphabet = r.chance(40) ? S("ab//") : S("abc/:. _-%[]()*\\\xc3\xb8\n\t1");
    S db; do db = text(r, alphabet, 20); while (db.empty());
    db.erase(std::remove(db.begin(), db.end(), ':'), db.end()); if (db.empty()) db = "d";
    S data; bool colon = r.chance(80);
    if (colon) data = text(r, alphabet, 30);
    if (r.chance(1) && r.chance(20)) { (r.chance(50) ? db : data).append(150000, 'q'); }
    if (!colon) data.clear();
    S s = db + (colon ? ":" + data : "");
    mon().at("data name " + cut(s)); mon().seen("name " + s, colon);
    S want; for (auto const& c : cut_by(data, "/")) want += "/" + c;
    if (want.empty()) want = "/";
    fern::DataName n(s);
    auto check = [&](fern::DataName const& d, char const* how) {
        if (d.database_pathname().generic_string() != fern::Path(db).generic_string() || d.database_pathname().native_string() != db)
            mon().violation(S("data-name-database-") + how, cut(d.database_pathname().native_string()) + " instead of " + cut(db));
        if (d.data_pathname().generic_string() != want) mon().violation(S("data-name-path-") + how, cut(d.data_pathname().generic_string()) + " instead of " + cut(want));
        if (!d.data_pathname().is_absolute()) mon().violation(S("data-name-absolute-") + how, cut(s));
        if (d.data_pathname().names() != cut_by(data, "/")) mon().violation(S("data-name-names-") + how, cut(s));
    };
    check(n, "made");
    check(fern::DataName(s.c_str()), "literal");
    fern::DataName c(n), a("other:thing"); a = n; check(c, "copied"); check(a, "assigned"); check(n, "original");
    fern::DataName m(std::move(c)); check(m, "moved");
    // Composing again gives the same name.
    fern::DataName again(n.database_pathname().native_string() + ":" + n.data_pathname().generic_string());
    check(again, "again");
}

static void paths(Rng& r) {
    S alphabet = r.chance(50) ? S("ab//.") : S("abc/. _-%:\xc3\xb8");
    S s = text(r, alphabet, 30), t = text(r, alphabet, 12);
    mon().at("path " + cut(s) + " and " + cut(t)); mon().seen("path " + s + "|" + t, !s.empty());
    fern::Path p(s), q(t.c_str());
    std::filesystem::path sp(s), sq(t);
    auto bad = [&](char const* k, S const& g) { mon().violation(S("path-") + k, cut(g)); };
    if (p.native_string() != s) bad("text", p.native_string());
    if (p.generic_string() != sp.generic_string()) bad("generic", p.generic_string());
    if (p.is_empty() != s.empty()) bad("empty", s);
    if (p.is_absolute() != (!s.empty() && s[0] == '/')) bad("absolute", s);
    if (p.names() != cut_by(s, "/")) bad("names", show(p.names()));
    if (p.filename().native_string() != s.substr(s.rfind('/') + 1)) bad("filename", p.filename().native_string());
    // The parent and the last name together are the path.
    if (!p.parent_path().is_empty() && !p.filename().is_empty()) {
        fern::Path again = p.parent_path() / p.filename();
        if (!(again == p)) bad("recompose", again.native_string());
        auto a = p.names(), b = p.parent_path().names(); b.push_back(p.filename().native_string());
        if (a != b) bad("recompose-names", show(b));
    }
    { S f = p.filename().native_string(); size_t d = f.rfind('.');
      S stem = f == "." || f == ".." || d == S::npos || d == 0 ? f : f.substr(0, d);
      if (p.stem().native_string() != stem) bad("stem", p.stem().native_string());
      if (!f.empty()) {
          fern::Path x(p); fern::Path& y = x.replace_extension(".ext");
          if (&y != &x || x.filename().native_string() != stem + ".ext" || !(x.parent_path() == p.parent_path())) bad("extension", x.native_string());
      } }
    { fern::Path x = p / q; S want = q.is_absolute() || s.empty() ? t : s + (s.back() == '/' ? "" : "/") + t;
      if (x.native_string() != want) bad("append", x.native_string());
      fern::Path y(p); if (&(y /= q) != &y || !(y == x)) bad("append-into", y.native_string());
      if (p.native_string() != s) bad("append-changed", p.native_string()); }
    if ((p == q) != (sp == sq) || !(p == p)) bad("equal", s);
    std::ostringstream o; o << p; if (o.str() != sp.generic_string()) bad("stream", o.str());
    fern::Path c(p), d; d = p; fern::Path e(std::move(c)); if (!(d == p) || !(e == p)) bad("copy", s);
}

static void in_order(S const& msg, std::vector<S> const& facts, char const* what) {
    mon().seen(S(what) + msg);
    size_t at = 0;
    for (auto const& f : facts) {
        size_t k = msg.find(f, at);
        if (k == S::npos) { mon().violation(S("message-") + what, "\"" + cut(msg) + "\" lacks \"" + cut(f) + "\" in its place"); return; }
        at = k + f.size();
    }
    for (char c = '1'; c <= '5'; ++c) {
        S hole = S("%") + c + "%"; bool fact = false; for (auto const& f : facts) fact |= f.find(hole) != S::npos;
        if (!fact && msg.find(hole) != S::npos) mon().violation(S("message-hole-") + what, cut(msg));
    }
}
template<class E> static S via(E const& e) {
    // As a user sees it: thrown, caught by base, copied.
    try { throw E(e); } catch (fern::Exception const& x) { E c(e), d(e); d = c; if (c.message() != x.message() || d.message() != x.message()) mon().violation("message-copy", x.message()); return x.message(); }
}
static void messages(Rng& r) {
    using fern::MessageId;
    auto fact = [&](size_t i) { return S("<") + char('A' + i) + text(r, "ab%1$ :/\n\xc3\xb8", 10) + ">"; };
    S a = fact(0), b = fact(1), c = fact(2), d = fact(3);
    auto const& m = fern::Exception::messages();
    mon().at("messages " + cut(a));
    static std::vector<MessageId> const one{MessageId::DOES_NOT_CONFORM_TO_CONVENTION, MessageId::DOES_NOT_CONTAIN_VARIABLE, MessageId::VARIABLE_IS_NOT_A_SCALAR,
        MessageId::DOES_NOT_CONTAIN_FEATURE, MessageId::DOES_NOT_CONTAIN_ATTRIBUTE, MessageId::DOES_NOT_CONTAIN_DATA, MessageId::NO_SUCH_DRIVER,
        MessageId::UNSUPPORTED_LANGUAGE_CONSTRUCT, MessageId::UNDEFINED_IDENTIFIER, MessageId::UNDEFINED_OPERATION};
    std::set<S> plain;
    for (auto id : one) { in_order(m.format_message(id, a), {a}, "one"); plain.insert(m[id]); }
    for (auto id : {MessageId::UNKNOWN_ERROR, MessageId::DOES_NOT_EXIST, MessageId::CANNOT_BE_READ, MessageId::CANNOT_BE_WRITTEN, MessageId::CANNOT_BE_CREATED}) {
        if (m[id].empty()) mon().violation("message-empty", std::to_string(int(id)));
        plain.insert(m[id]);
    }
    if (plain.size() != one.size() + 5) mon().violation("message-distinct", "");
    in_order(m.format_message(MessageId::IO_ERROR, a, b), {a, b}, "io");
    in_order(m.format_message(MessageId::UNSUPPORTED_VALUE_TYPE, a, b), {a, b}, "value-type");
    size_t x = 10 + r.below(90), y = 100 + r.below(900);
    in_order(m.format_message(MessageId::WRONG_NUMBER_OF_ARGUMENTS, a, x, y), {a, std::to_string(x) + " required", std::to_string(y) + " provided"}, "number-of-arguments");
    in_order(m.format_message(MessageId::WRONG_TYPE_OF_ARGUMENT, x, b, c, d), {std::to_string(x), b, c + " required", d + " provided"}, "type-of-argument");
    in_order(m.format_message(MessageId::ERROR_PARSING, a, x, y, d), {a, std::to_string(x), std::to_string(y), d}, "parsing");
    in_order(m.format_message(MessageId::ERROR_VALIDATING, a, x, y, d), {a, std::to_string(x), std::to_string(y), d}, "validating");
    long line = r.chance(5) ? 0 : 10 + r.below(90000), col = 200000 + r.below(900);
    in_order(via(fern::IOError(a, b)), {a, b}, "IOError");
    int no = r.pick(std::vector<int>{ENOENT, EACCES, EIO, ENOSPC, EISDIR});
    in_order(via(fern::IOError(a, no)), {a, std::strerror(no)}, "IOError-errno");
    in_order(via(fern::ParseError(a, line, col, d)), {a, std::to_string(line), std::to_string(col), d}, "ParseError");
    in_order(via(fern::ParseError(a, line, col, c, d)), {a, std::to_string(line), std::to_string(col), c, d}, "ParseError-statement");
    in_order(via(fern::ValidateError(a, line, col, d)), {a, std::to_string(line), std::to_string(col), d}, "ValidateError");
}

int main(int c, char** v) {
    mon().init(c, v);
    Rng r = mon().rng("text");
    for (size_t i = 0, n = mon().n(6000, 200000); i < n; ++i) { strings(r); data_names(r); paths(r); if (i % 4 == 0) messages(r); }
    // Long ones.
    for (size_t n : {size_t(20000), mon().n(300000, 3000000)}) {
        S word(n, 'a'), blank(n, ' ');
        mon().at("long string of words"); mon().seen("long words" + std::to_string(n));
        S many; for (size_t i = 0; i < n / 4; ++i) many += "ab, ";
        auto w = fern::split(many, ", "); if (w.size() != n / 4) mon().violation("split-long", std::to_string(w.size()));
        mon().at("long run of separators"); mon().seen("long separators" + std::to_string(n));
        auto k = fern::split("a" + blank + "b"); if (k != std::vector<S>{"a", "b"}) mon().violation("split-run", show(k));
        mon().at("long word"); mon().seen("long word" + std::to_string(n));
        auto l = fern::split(word + "," + word, ","); if (l != std::vector<S>{word, word}) mon().violation("split-word", std::to_string(l.size()));
        S t = blank + word + blank; if (fern::strip(t) != word) mon().violation("strip-long", "");
        mon().at("long data name"); mon().seen("long data name" + std::to_string(n));
        fern::DataName d(word + ":" + word + "//" + word);
        if (d.database_pathname().native_string() != word || d.data_pathname().generic_string() != "/" + word + "/" + word) mon().violation("data-name-long", "");
    }
    return mon().finish();
}

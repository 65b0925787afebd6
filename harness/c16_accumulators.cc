// C16: accumulators, judged over the multiset of added values, for random ways of splitting and merging.
#include "vh.h"
#include <algorithm>
#include <numeric>
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/variance.h"
#include "fern/algorithm/accumulator/standard_deviation.h"
using namespace vh;
namespace acc = fern::algorithm::accumulator;
using i128 = __int128;
template<class... T> struct Types {};
template<class F, class... T> void each(Types<T...>, F&& f) { (f(static_cast<T*>(nullptr)), ...); }

// Build one accumulator holding all values, by some history of creating, adding and merging.
template<class A, class V> A history(Rng& r, std::vector<V> const& values, std::string& how)
{
    std::vector<A> parts; size_t i = 0;
    size_t n_parts = 1 + r.below(std::min<size_t>(values.size() + 2, 7));
    for(size_t p = 0; p < n_parts; ++p) {
        size_t k = p + 1 == n_parts ? values.size() - i : r.below(values.size() - i + 1);
        how += std::to_string(k);
        if(k == 0) { parts.emplace_back(); how += "e"; continue; }
        A a;
        switch(r.below(3)) {
        case 0: a(values[i]); how += "a"; break; // added to an empty one
        case 1: a = A(values[i]); how += "c"; break;
        default: a(V(3)); a(V(1)); a = values[i]; how += "="; break; // reused
        }
        ++i;
        for(size_t j = 1; j < k; ++j) {
            a(values[i++]);
            if(r.chance(5)) { A copy(a); a = copy; how += "k"; }
        }
        parts.push_back(a);
    }
    // merge neighbours or any two, with either operator
    while(parts.size() > 1) {
        size_t x = r.below(parts.size()), y = r.below(parts.size() - 1); if(y >= x) ++y;
        if(r.chance(50)) { parts[x] |= parts[y]; how += "|="; } else { parts[x] = parts[x] | parts[y]; how += "|"; }
        parts.erase(parts.begin() + y);
    }
    return parts[0];
}
template<class V> V draw(Rng& r, int kind, V base)
{
    switch(kind) {
    case 0: return small<V>(r);
    case 1: return value<V>(r);
    case 2: return base;
    case 3: return std::numeric_limits<V>::lowest();
    case 4: return std::numeric_limits<V>::max();
    case 5: if constexpr(std::is_floating_point<V>::value) return r.chance(80) ? (r.chance(50) ? 1 : -1) * std::numeric_limits<V>::infinity() : small<V>(r); else return V(r.below(5));
    case 6: return V(r.below(3));
    case 7: return r.chance(50) ? std::numeric_limits<V>::max() : V(std::numeric_limits<V>::max() - V(r.below(5)));
    default: return V(-V(r.below(40)));
    }
}
template<class A, class R> void judge(char const* name, std::string const& type, A const& a, R want, double tol, std::string const& how, std::string const& vals)
{
    R got = a();
    bool ok = tol < 0 ? same(got, want) : std::fabs((long double)got - (long double)want) <= tol;
    if(!ok) mon().violation(std::string(name) + ":" + type, "history " + how + " of " + vals + ": " + str(got) + ", want " + str(want));
    // asking must not change the answer
    R again = a();
    if(!same(got, again)) mon().violation(std::string(name) + ":" + type + ":again", "second answer differs: " + str(got) + ", then " + str(again));
    mon().count(name);
}
template<class V> void one(Rng& r)
{
    constexpr bool real = std::is_floating_point<V>::value; using L = std::numeric_limits<V>;
    using W = std::conditional_t<real, long double, i128>;
    size_t n = r.chance(4) ? 200 + r.below(400) : 1 + r.below(24);
    if(r.below(20000) == 0) n = 65530 + r.below(300);
    int kind = int(r.below(9)); V base = value<V>(r);
    std::vector<V> v(n); for(auto& x : v) x = draw<V>(r, kind, base);
    std::string type = tn<V>(), vals = list(v);
    mon().at(type + " kind " + std::to_string(kind) + " n " + std::to_string(n) + " " + vals);
    std::vector<V> s(v); std::sort(s.begin(), s.end());
    W total = 0, pos = 0, neg = 0; for(V x : v) { total += W(x); (x > 0 ? pos : neg) += W(x); }
    bool finite = true; if constexpr(real) for(V x : v) finite = finite && std::isfinite(x);
    bool fits = real ? finite && pos < W(L::max()) / 4 && -neg < W(L::max()) / 4 : pos <= W(L::max()) && neg >= W(L::min());
    std::string how;
    auto h = [&](auto* a) { how.clear(); return history<std::decay_t<decltype(*a)>, V>(r, v, how); };
    double const eps = real ? double(L::epsilon()) : 0;
    { auto a = h((acc::Count<V, size_t>*)0); judge("count", type, a, n, -1, how, vals); }
    { auto a = h((acc::Count<V, int32_t>*)0); judge("count", type, a, int32_t(n), -1, how, vals); }
    { auto a = h((acc::Min<V>*)0); judge("min", type, a, s.front(), -1, how, vals); }
    { auto a = h((acc::Max<V>*)0); judge("max", type, a, s.back(), -1, how, vals); }
    bool range_fits = true; if constexpr(real) range_fits = finite && (long double)s.back() - s.front() <= L::max(); else range_fits = i128(s.back()) - i128(s.front()) <= i128(L::max());
    if(range_fits) { auto a = h((acc::Range<V>*)0); judge("range", type, a, V(s.back() - s.front()), -1, how, vals); }
    if(fits) {
        { auto a = h((acc::Sum<V>*)0); judge("sum", type, a, V(total), real ? double(pos - neg) * eps * double(n + 2) : -1, how, vals); }
        { auto a = h((acc::Mean<V>*)0); judge("mean", type, a, V(total / W(n)), real ? double(pos - neg) * eps * 4 : -1, how, vals); }
        if constexpr(!real) { auto a = h((acc::Mean<V, double>*)0); judge("mean double", type, a, double((long double)total / n), double(pos - neg) * 1e-14, how, vals); }
    }
    if constexpr(!real && sizeof(V) < 8) { auto a = h((acc::Sum<V, int64_t>*)0); judge("sum wide", type, a, int64_t(total), -1, how, vals); }
    { // median
        size_t c = n / 2;
        if(n % 2) { auto a = h((acc::Median<V>*)0); judge("median", type, a, s[c], -1, how, vals); }
        else if(!real || (finite && std::fabs((long double)s[c]) < L::max() / 4 && std::fabs((long double)s[c - 1]) < L::max() / 4)) {
            W m = (W(s[c - 1]) + W(s[c])) / 2;
            auto a = h((acc::Median<V>*)0); judge("median", type, a, V(m), real ? std::fabs((double)m) * eps * 2 : -1, how, vals);
        }
        if constexpr(!real) {
            long double m = n % 2 ? (long double)s[c] : ((long double)s[c - 1] + (long double)s[c]) / 2;
            auto a = h((acc::Median<V, double>*)0); judge("median double", type, a, double(m), std::max(std::fabs((double)s[c - 1 + n % 2]), std::fabs((double)s[c])) * 4e-16, how, vals);
        }
    }
    { // mode: any value that occurs most often
        std::map<V, size_t> f; size_t best = 0; for(V x : v) best = std::max(best, ++f[x]);
        auto a = h((acc::Mode<V>*)0); V got = a();
        if(f.count(got) == 0 || f[got] != best) mon().violation("mode:" + type, "history " + how + " of " + vals + ": " + str(got) + " does not occur most often");
        mon().count("mode");
    }
    if(finite && (std::fabs((double)pos) < 1e30) && std::fabs((double)neg) < 1e30) { // spread
        long double m = (long double)total / n, q = 0, big = 0; for(V x : v) { q += ((long double)x - m) * ((long double)x - m); big = std::max(big, std::fabs((long double)x)); }
        double var = double(q / n), tol = double(big * big) * 1e-13 * (double(n) + 8) + std::fabs(var) * 1e-12;
        { auto a = h((acc::Variance<V, double>*)0); judge("variance", type, a, var, tol, how, vals); }
        { auto a = h((acc::StandardDeviation<V, double>*)0); double sd = std::sqrt(var); judge("standard deviation", type, a, sd, std::sqrt(tol) + sd * 1e-12, how, vals); }
    }
    mon().seen(type + vals + std::to_string(n) + how + std::to_string(r.next()), true);
}
// Adding and merging with range checks: every step must report whether the exact result fits.
template<class V> void checked(Rng& r)
{
    using L = std::numeric_limits<V>; namespace fa = fern::algorithm;
    acc::Sum<V> s[2]; acc::Count<V, V> c[2]; acc::Mean<V> m[2]; i128 sum[2] = {0, 0}, cnt[2] = {0, 0};
    std::string type = tn<V>();
    mon().seen("checked" + type + std::to_string(r.next()));
    for(int step = 0; step < 60; ++step) {
        int w = int(r.below(2)); bool merge = r.chance(20);
        V v = r.chance(50) ? small<V>(r) : value<V>(r);
        i128 ns = merge ? sum[w] + sum[!w] : sum[w] + v, nc = merge ? cnt[w] + cnt[!w] : cnt[w] + 1;
        bool fs = ns >= i128(L::min()) && ns <= i128(L::max()), fc = nc <= i128(L::max());
        mon().at("checked " + type + (merge ? " merge" : " add " + str(v)));
        bool gs = merge ? s[w].template operator|=<fa::add::OutOfRangePolicy>(s[!w]) : s[w].template operator()<fa::add::OutOfRangePolicy>(v);
        bool gm = merge ? m[w].template operator|=<fa::add::OutOfRangePolicy>(m[!w]) : m[w].template operator()<fa::add::OutOfRangePolicy>(v);
        if(gs != fs) mon().violation("sum checked:" + type, "reports " + str(gs) + " for " + str((long double)ns));
        if(gm != fs) mon().violation("mean checked:" + type, "reports " + str(gm) + " for a sum of " + str((long double)ns));
        {
            bool gc = merge ? c[w].template operator|=<fa::add::OutOfRangePolicy>(c[!w]) : c[w].template operator()<fa::add::OutOfRangePolicy>(v);
            if(gc != fc) mon().violation("count checked:" + type, "reports " + str(gc) + " for " + str((long double)nc));
            if(fc && i128(c[w]()) != nc) mon().violation("count checked:" + type, "is " + str(c[w]()) + ", want " + str((long double)nc));
            if(!fc) return;
        }
        if(!fs) { mon().count("steps out of range"); return; }
        if(i128(s[w]()) != ns) mon().violation("sum checked:" + type, "is " + str(s[w]()) + ", want " + str((long double)ns));
        if(nc > 0 && i128(m[w]()) != ns / nc) mon().violation("mean checked:" + type, "is " + str(m[w]()) + ", want " + str((long double)(ns / nc)));
        sum[w] = ns; cnt[w] = nc; mon().count("steps in range");
    }
}
#ifndef PART
#define PART 0
#endif
#if PART == 0
using Mine = Types<uint8_t, int16_t, double>;
#elif PART == 1
using Mine = Types<int8_t, uint32_t, float>;
#elif PART == 2
using Mine = Types<uint16_t, int64_t>;
#else
using Mine = Types<int32_t, uint64_t>;
#endif
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("accumulators");
    for(size_t k = 0; k < mon().n(2500, 40000); ++k) {
        each(Mine{}, [&](auto* t) {
            using T = std::decay_t<decltype(*t)>;
            one<T>(r);
            if constexpr(std::is_integral<T>::value) checked<T>(r);
        });
    }
    mon().sample("multisets of 1 to 600 values, split over 1 to 7 accumulators (some empty, some reused) and merged in random order");
    return mon().finish();
}

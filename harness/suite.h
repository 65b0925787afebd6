// One catalogue of calls of every algorithm, shared by the monitors of parallel
// equivalence (C01), races (C02) and memory safety (C03). A job owns its inputs;
// every Out made from it has its own result and can be run under any policy.
#pragma once
#include "fa.h"
#include <chrono>
#include <memory>
#include <thread>
namespace vh {
struct Pol {
    std::string name; size_t workers = 0; // 0: sequential
    std::shared_ptr<fa::ExecutionPolicy> variant; bool concrete = true;
    bool parallel() const { return workers > 0; }
    fern::ThreadPool& pool() const { return boost::get<fa::ParallelExecutionPolicy>(*variant).thread_pool(); }
};
inline Pol sequential(bool concrete = true) { return Pol{concrete ? "seq" : "seq (variant)", 0, std::make_shared<fa::ExecutionPolicy>(fa::SequentialExecutionPolicy{}), concrete}; }
inline Pol parallel(size_t n, bool concrete = true) { return Pol{"par" + std::to_string(n) + (concrete ? "" : " (variant)"), n, std::make_shared<fa::ExecutionPolicy>(fa::ParallelExecutionPolicy{n}), concrete}; }

// An input no-data policy that also watches the schedule: which worker asks, and
// how often the asking worker changes. It uses relaxed atomics only, so it adds no
// ordering a race could hide behind. Now and then it delays the asking worker.
// In a meeting the first worker to ask waits a while for a second one, so that two
// workers really are inside the algorithm at the same time.
struct Watch { std::atomic<uint64_t> asked{0}, switches{0}, sig{0}, met{0}; std::atomic<unsigned> last{0}, ids{0}, delay{0}, meeting{0}, present{0}; };
inline Watch& watch() { static Watch w; return w; }
inline void tick()
{
    static thread_local unsigned const id = watch().ids.fetch_add(1, std::memory_order_relaxed) + 1;
    static thread_local uint64_t mine = id * 0x9E3779B97F4A7C15ull;
    Watch& w = watch();
    uint64_t at = w.asked.fetch_add(1, std::memory_order_relaxed);
    if(w.last.exchange(id, std::memory_order_relaxed) != id) {
        w.switches.fetch_add(1, std::memory_order_relaxed);
        w.sig.fetch_add((at * 31 + id) * 0xBF58476D1CE4E5B9ull, std::memory_order_relaxed);
    }
    static thread_local unsigned attended = 0;
    unsigned m = w.meeting.load(std::memory_order_relaxed);
    if(m != attended) {
        attended = m;
        if(m) { w.present.fetch_add(1, std::memory_order_relaxed); for(unsigned k = 0; k < 100 && w.present.load(std::memory_order_relaxed) < 2; ++k) usleep(2); if(w.present.load(std::memory_order_relaxed) > 1) w.met.fetch_add(1, std::memory_order_relaxed); }
    }
    unsigned d = w.delay.load(std::memory_order_relaxed);
    if(d) { mine = mine * 6364136223846793005ull + 1442695040888963407ull; unsigned k = unsigned(mine >> 33); if(k % d == 0) { if(k / d % 4 == 0) usleep(1 + k / d % 60); else std::this_thread::yield(); } }
}
template<class Base> struct Spy : Base {
    explicit Spy(Base const& b) : Base(b) {}
    template<class... I> bool is_no_data(I... i) const { tick(); return Base::is_no_data(i...); }
};
struct Cell { uint64_t bits = 0; bool mark = false, none = false; double shown = 0; }; // none: the value is unspecified
template<class T> Cell cell_of(T v, bool m)
{
    Cell c; c.mark = m; c.shown = double(v);
    if constexpr(std::is_floating_point<T>::value) { if(std::isnan(v)) { c.bits = ~uint64_t(0); return c; } if(v == T(0)) v = T(0); if(v == T(0)) { c.bits = 0; return c; } }
    memcpy(&c.bits, &v, sizeof v);
    return c;
}
struct Out {
    virtual ~Out() {}
    virtual void run(Pol& p) = 0;
    virtual std::vector<Cell> cells() const = 0;
    virtual std::vector<std::pair<void*, size_t>> values() { return {}; } // memory of the result values
    virtual size_t width() const { return 0; } // bytes of one value
};
struct Job {
    std::string name, where; size_t n = 0; // n: cells involved
    long double tol = 0;                   // how far a value may be from the sequential one
    bool loose = false;                    // the outcome may depend on the order of adding
    bool every = true;                     // every result cell gets a value or a mark
    std::function<std::unique_ptr<Out>()> make;
};
// Value distribution of the inputs: harmless, or up to the limits of the types
enum class Level { Mild, Wild };
struct Ctx { Rng& r; Level level; size_t most; };

inline size_t some_size(Rng& r, size_t most)
{
    switch(r.below(8)) {
    case 0: return r.below(3);
    case 1: return 1 + r.below(18);
    case 2: return most >= 2000 && r.chance(30) ? 2000 + r.below(2000) : 1 + r.below(most);
    default: return 1 + r.below(std::min<size_t>(most, 70));
    }
}
inline Extent some_extent(Ctx& c, size_t least = 0)
{
    Rng& r = c.r; Extent e; e.n1 = some_size(r, c.most);
    size_t m = c.most >= 2000 ? 60 : 14;
    e.r = r.chance(10) ? r.below(2) : 1 + r.below(r.chance(20) ? m : 12); e.c = r.chance(10) ? r.below(2) : 1 + r.below(r.chance(20) ? m : 12);
    if(c.most >= 2000 && r.chance(4)) { if(r.chance(50)) { e.r = 300 + r.below(300); e.c = 1 + r.below(4); } else { e.c = 300 + r.below(300); e.r = 1 + r.below(4); } }
    if(c.most >= 2000 && r.below(1500) == 0) {   // more cells than 16 bits can count
        e.n1 = 65530 + r.below(3000);
        switch(r.below(3)) { case 0: e.r = 65530 + r.below(300); e.c = 1 + r.below(2); break; case 1: e.r = 1 + r.below(2); e.c = 65530 + r.below(300); break; default: e.r = 256 + r.below(6); e.c = 256 + r.below(6); }
    }
    e.r = std::max(e.r, least); e.c = std::max(e.c, least);
    return e;
}
// no-data per cell, also by whole rows and whole leading parts
inline std::vector<char> some_pattern(Rng& r, Extent const& e, size_t d)
{
    size_t n = e.cells(d); auto p = pattern(r, n);
    if(d == 0) { p[0] = r.chance(25); return p; }
    if(n && r.chance(25)) { std::fill(p.begin(), p.end(), 0); size_t w = d == 2 ? e.c : 1 + r.below(9); for(size_t i = 0; i < n; i += w) if(r.chance(50)) for(size_t j = i; j < std::min(n, i + w); ++j) p[j] = 1; }
    return p;
}
template<class T> T some_value(Rng& r, Level l)
{
    if(l == Level::Mild) return small<T>(r);
    if constexpr(std::is_floating_point<T>::value) { if(r.chance(6)) return r.chance(40) ? std::numeric_limits<T>::quiet_NaN() : r.chance(50) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); }
    return r.chance(25) ? small<T>(r) : value<T>(r);
}
template<class T, size_t D, class S> using FieldP = std::shared_ptr<Field<T, D, S>>;
template<class T, size_t D, class S = ByMask> FieldP<T, D, S> arg(Ctx& c, Extent const& e, bool marks = true)
{
    auto f = std::make_shared<Field<T, D, S>>(e);
    auto p = some_pattern(c.r, e, D);
    for(size_t i = 0; i < f->n(); ++i) {
        T v = some_value<T>(c.r, c.level);
        if constexpr(std::is_same<S, ByValue>::value) if(v == T(99)) v = T(98);
        f->set(i, v); f->mark(i, marks && p[i]);
    }
    return f;
}
// Calls f with the policy the way p says; ops without variant support get the concrete one.
template<bool Variant, class F> void with(Pol& p, F&& f)
{
    if constexpr(Variant) if(!p.concrete) { f(*p.variant); return; }
    if(!p.parallel()) f(boost::get<fa::SequentialExecutionPolicy>(*p.variant));
    else f(boost::get<fa::ParallelExecutionPolicy>(*p.variant));
}
template<class R, size_t D, class S, bool Variant, class F> struct FieldOut : Out {
    Field<R, D, S> res; F f;
    FieldOut(Extent const& e, uint64_t seed, F const& g) : res(e), f(g)
    {
        Rng r(seed); bool some = r.chance(50);
        for(size_t i = 0; i < res.n(); ++i) { R v = small<R>(r); if constexpr(std::is_same<S, ByValue>::value) if(v == R(99)) v = R(98); res.set(i, v); bool m = r.chance(10); res.mark(i, some && m); }
    }
    void run(Pol& p) override { with<Variant>(p, [&](auto& policy) { f(policy, res); }); }
    std::vector<Cell> cells() const override { std::vector<Cell> c; for(size_t i = 0; i < res.n(); ++i) c.push_back(cell_of(res.value(i), res.marked(i))); return c; }
    std::vector<std::pair<void*, size_t>> values() override
    {
        if constexpr(std::is_same<S, ByValue>::value) return {};
        else if constexpr(D == 0) return {{&res.values, sizeof(R)}};
        else return {{res.values.data(), res.n() * sizeof(R)}};
    }
    size_t width() const override { return sizeof(R); }
};
template<class R, size_t D, class S, bool Variant, class F> Job field_job(Ctx& c, std::string const& name, Extent const& e, F const& f, bool every = true)
{
    Job j; j.name = name + "->" + tn<R>() + (std::is_same<S, ByMask>::value ? "" : " by value"); j.where = e.show(D); j.n = e.cells(D); j.every = every && std::is_same<S, ByMask>::value;
    uint64_t seed = c.r.next();
    j.make = [e, seed, f]() { return std::make_unique<FieldOut<R, D, S, Variant, F>>(e, seed, f); };
    return j;
}
template<class T, size_t D, class S> using DetectOf = Spy<typename Field<T, D, S>::Detect>;
// one, two or three arguments; call(in, mk, policy, values..., result values)
template<class A, class R, size_t D, class S = ByMask, bool Variant = true, size_t DR = D, class Call> Job job1(Ctx& c, std::string const& name, Call call, bool every = true)
{
    Extent e = some_extent(c); auto a = arg<A, D, S>(c, e);
    Job j = field_job<R, DR, S, Variant>(c, name + ":" + tn<A>() + ":" + std::to_string(D) + "d", e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<A, D, S>> in(DetectOf<A, D, S>(a->detect())); auto mk = res.marker(); auto const& av = a->values;
        call(in, mk, policy, av, res.values);
    }, every);
    j.n = e.cells(D); j.where = e.show(D);
    return j;
}
template<class A, class B, class R, size_t DA, size_t DB, class S = ByMask, class Call> Job job2(Ctx& c, std::string const& name, Call call, bool every = true)
{
    constexpr size_t D = DA > DB ? DA : DB;
    Extent e = some_extent(c); auto a = arg<A, DA, S>(c, e); auto b = arg<B, DB, S>(c, e);
    return field_job<R, D, S, true>(c, name + ":" + tn<A>() + "," + tn<B>() + ":" + std::to_string(DA) + std::to_string(DB), e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<A, DA, S>, DetectOf<B, DB, S>> in(DetectOf<A, DA, S>(a->detect()), DetectOf<B, DB, S>(b->detect())); auto mk = res.marker(); auto const& av = a->values; auto const& bv = b->values;
        call(in, mk, policy, av, bv, res.values);
    }, every);
}
template<class A, class B, class C, class R, size_t DA, size_t DB, size_t DC, class S = ByMask, class Call> Job job3(Ctx& c, std::string const& name, Call call, bool every = true)
{
    constexpr size_t D = std::max(DA, std::max(DB, DC));
    Extent e = some_extent(c); auto a = arg<A, DA, S>(c, e); auto b = arg<B, DB, S>(c, e); auto d = arg<C, DC, S>(c, e);
    return field_job<R, D, S, true>(c, name + ":" + tn<A>() + "," + tn<B>() + ":" + std::to_string(DA) + std::to_string(DB) + std::to_string(DC), e, [=](auto& policy, auto& res) {
        fa::InputNoDataPolicies<DetectOf<A, DA, S>, DetectOf<B, DB, S>, DetectOf<C, DC, S>> in(DetectOf<A, DA, S>(a->detect()), DetectOf<B, DB, S>(b->detect()), DetectOf<C, DC, S>(d->detect()));
        auto mk = res.marker(); auto const& av = a->values; auto const& bv = b->values; auto const& dv = d->values;
        call(in, mk, policy, av, bv, dv, res.values);
    }, every);
}
// without policies, on values every operation can represent the result of
template<class A, class R, size_t D, bool Variant = true, class Call> Job plain1(Ctx& c, std::string const& name, Call call)
{
    Ctx m{c.r, Level::Mild, c.most}; Extent e = some_extent(c); auto a = arg<A, D>(m, e, false);
    return field_job<R, D, ByMask, Variant>(c, name + " plain:" + tn<A>() + ":" + std::to_string(D) + "d", e, [=](auto& policy, auto& res) { auto const& av = a->values; call(policy, av, res.values); });
}
template<class A, class B, class R, size_t DA, size_t DB, class Call> Job plain2(Ctx& c, std::string const& name, Call call)
{
    constexpr size_t D = DA > DB ? DA : DB;
    Ctx m{c.r, Level::Mild, c.most}; Extent e = some_extent(c); auto a = arg<A, DA>(m, e, false); auto b = arg<B, DB>(m, e, false);
    return field_job<R, D, ByMask, true>(c, name + " plain:" + tn<A>() + "," + tn<B>() + ":" + std::to_string(DA) + std::to_string(DB), e, [=](auto& policy, auto& res) { auto const& av = a->values; auto const& bv = b->values; call(policy, av, bv, res.values); });
}
// aggregate: an argument to one value
template<class A, class R, size_t D, class S = ByMask, class Call> Job aggregate(Ctx& c, std::string const& name, Call call, Level level)
{
    Ctx m{c.r, level, c.most};
    Extent e = some_extent(m); auto a = arg<A, D, S>(m, e);
    Job j = field_job<R, 0, ByMask, true>(c, name + ":" + tn<A>() + ":" + std::to_string(D) + "d" + (std::is_same<S, ByMask>::value ? "" : " by value"), e, [=](auto& policy, auto& res) {
        res.marks = false; auto mk = res.marker(); auto const& av = a->values; call(DetectOf<A, D, S>(a->detect()), mk, policy, av, res.values);
    });
    j.n = e.cells(D); j.where = e.show(D); j.loose = name == "sum" || name == "mean";
    // the extremes of a field with not-a-numbers are not defined
    if(name == "min" || name == "max") for(size_t i = 0; i < a->n(); ++i) if(a->value(i) != a->value(i)) a->set(i, A(1));
    if constexpr(std::is_floating_point<A>::value) if(j.loose) { // rounding depends on the order of adding
        long double s = 0; for(size_t i = 0; i < a->n(); ++i) if(!a->marked(i)) s += std::fabs((long double)a->value(i));
        j.tol = s * std::numeric_limits<A>::epsilon() * (a->n() + 2);
    }
    return j;
}
#define IN1(...) [](auto& in, auto& mk, auto& x, auto const& a, auto& r) { __VA_ARGS__; }
#define IN2(...) [](auto& in, auto& mk, auto& x, auto const& a, auto const& b, auto& r) { __VA_ARGS__; }
#define IN3(...) [](auto& in, auto& mk, auto& x, auto const& a, auto const& b, auto const& c, auto& r) { __VA_ARGS__; }
#define PL1(...) [](auto& x, auto const& a, auto& r) { __VA_ARGS__; }
#define PL2(...) [](auto& x, auto const& a, auto const& b, auto& r) { __VA_ARGS__; }
using Maker = std::function<Job(Ctx&)>;
std::vector<Maker> catalogue(); // defined by the part compiled
} // namespace vh

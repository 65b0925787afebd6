// C01 (--mode same), C02 (--mode race), C03 (--mode hostile): see suite.h.
#ifndef PART
#define PART 0
#endif
#include "suite_jobs.h"
#ifdef MEMCHECK
#include <valgrind/memcheck.h>
#endif
using namespace vh;

static std::vector<Maker> const& jobs() { static std::vector<Maker> v = catalogue(); return v; }
static std::string cell_text(Cell const& c) { return str(c.shown) + (c.mark ? " marked" : ""); }
// first difference
static bool differ(Job const& j, std::vector<Cell> const& a, std::vector<Cell> const& b, std::string& why)
{
    if(a.size() != b.size()) { why = "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()); return true; }
    for(size_t i = 0; i < a.size(); ++i) {
        bool eq = a[i].mark == b[i].mark && (a[i].bits == b[i].bits || (j.tol > 0 && (std::fabs((long double)a[i].shown - b[i].shown) <= j.tol)));
        if(!eq) { why = "cell " + std::to_string(i) + " of " + j.where + ": " + cell_text(a[i]) + " against " + cell_text(b[i]); return true; }
    }
    return false;
}
// every task submitted before has finished when all workers are in the barrier
static void quiesce(fern::ThreadPool& pool)
{
    size_t n = pool.size(); std::vector<std::future<void>> f;
    auto in = std::make_shared<std::atomic<size_t>>(0);
    for(size_t i = 0; i < n; ++i) f.push_back(pool.submit([in, n] { ++*in; while(*in < n) std::this_thread::yield(); }));
    for(auto& x : f) x.get();
}
static Pol& parallel_of(size_t n) { static std::map<size_t, Pol> m; auto it = m.find(n); if(it == m.end()) it = m.emplace(n, parallel(n)).first; return it->second; }

static void same_mode()
{
    Rng r = mon().rng("same" + std::to_string(PART));
    std::set<size_t> workers; Pol seq = sequential(), seqv = sequential(false);
    for(size_t k = 0; k < mon().n(PART == 3 ? 120 : 200, PART == 3 ? 2500 : 4000); ++k) for(auto& maker : jobs()) {
        Ctx c{r, r.chance(50) ? Level::Mild : Level::Wild, r.chance(30) ? size_t(4000) : size_t(80)};
        Job j = maker(c);
        bool unordered = j.loose && c.level == Level::Wild; // partial sums may leave the type in one order only
        mon().at("sequential " + j.name + " " + j.where);
        auto ref = j.make(); ref->run(r.chance(50) ? seq : seqv);
        auto want = ref->cells();
        for(int t = 0; t < 3; ++t) {
            size_t n = 1 + r.below(t == 0 ? 17 : 5);
            Pol p = parallel_of(n); p.concrete = r.chance(60); workers.insert(n);
            mon().at(p.name + " " + j.name + " " + j.where);
            auto out = j.make();
            bool stall = r.chance(30); std::vector<std::future<void>> busy;
            watch().delay = r.chance(50) ? 0 : 1 + unsigned(r.below(40)); if(j.n > 300 && watch().delay) watch().delay = 200;
            watch().sig = 0; uint64_t before = watch().switches;
            if(stall) { size_t d = 1 + r.below(n); for(size_t i = 0; i < d; ++i) { unsigned us = unsigned(r.below(400)); busy.push_back(p.pool().submit([us] { usleep(us); })); } mon().count("calls behind busy workers"); }
            out->run(p);
            auto at_return = out->cells();
            quiesce(p.pool());
            auto later = out->cells();
            std::string why;
            bool exact = j.tol == 0; Job strict = j; strict.tol = 0;
            if(differ(strict, at_return, later, why)) mon().violation("late:" + j.name, p.name + ": written after the call returned: " + why);
            if(unordered) mon().count("results that may depend on the order");
            else if(differ(j, want, later, why)) mon().violation("differs:" + j.name, p.name + " against sequential: " + why);
            else mon().count(exact ? "results identical" : "results within rounding");
            mon().count("cells compared", later.size());
            mon().count("changes of the reading worker", watch().switches - before);
            mon().seen(fnv(j.name + j.where + p.name) ^ watch().sig.load(), j.n > 0);
        }
        watch().delay = 0;
        auto again = j.make(); std::string why; mon().at("sequential again " + j.name + " " + j.where); // the inputs are still what they were
        again->run(seq);
        Job strict = j; strict.tol = 0;
        if(differ(strict, want, again->cells(), why)) mon().violation("inputs:" + j.name, "a second sequential run differs: " + why);
    }
    mon().count("pool sizes used", workers.size());
    mon().sample(std::to_string(jobs().size()) + " kinds of calls, e.g. " + mon().where());
}
static void race_mode()
{
    Rng r = mon().rng("race" + std::to_string(PART));
    Pol seq = sequential(); size_t meetings = 0;
    for(size_t k = 0; k < mon().n(PART == 3 ? 200 : 400, 4000); ++k) for(size_t first = 0; first < jobs().size(); ++first) {
        Ctx c{r, r.chance(60) ? Level::Mild : Level::Wild, 60};
        size_t n = 2 + r.below(5), clients = r.chance(30) ? 1 : 2 + r.below(3);
        Pol p = r.chance(15) ? parallel(n) : parallel_of(n);
        if(r.chance(50)) p.variant = std::make_shared<fa::ExecutionPolicy>(*p.variant); // a copy shares the pool
        std::vector<Job> js{jobs()[first](c)};
        while(js.size() < clients && r.chance(60)) js.push_back(jobs()[r.below(jobs().size())](c));
        struct Client { std::vector<size_t> job; std::vector<std::unique_ptr<Out>> outs; Pol p; };
        std::vector<Client> cs(clients);
        for(size_t i = 0; i < clients; ++i) {
            cs[i].p = p; cs[i].p.concrete = r.chance(50);
            size_t m = 1 + r.below(3);
            for(size_t q = 0; q < m; ++q) { cs[i].job.push_back(r.below(js.size())); cs[i].outs.push_back(js[cs[i].job.back()].make()); }
        }
        std::vector<std::vector<Cell>> want; std::vector<bool> skip;
        for(auto& j : js) { auto o = j.make(); o->run(seq); want.push_back(o->cells()); skip.push_back(j.loose && c.level == Level::Wild); }
        watch().delay = r.chance(50) ? 0 : 1 + unsigned(r.below(40)); watch().sig = 0; uint64_t before = watch().switches, met = watch().met;
        watch().present = 0; watch().meeting = r.chance(60) ? unsigned(++meetings) : 0;
        mon().at(std::to_string(clients) + " clients of " + p.name + " " + js[0].name + " " + js[0].where + (js.size() > 1 ? " and " + js[1].name + " " + js[1].where : ""));
        std::atomic<size_t> ready{0}; std::vector<std::thread> threads;
        for(auto& cl : cs) threads.emplace_back([&] { ready.fetch_add(1, std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed) < clients) std::this_thread::yield(); for(auto& o : cl.outs) o->run(cl.p); });
        for(auto& t : threads) t.join();
        watch().delay = 0; watch().meeting = 0; mon().count("workers that met inside an algorithm", watch().met - met);
        for(auto& cl : cs) for(size_t q = 0; q < cl.outs.size(); ++q) {
            std::string why; Job const& j = js[cl.job[q]];
            if(skip[cl.job[q]]) { mon().count("results that may depend on the order"); continue; }
            if(differ(j, want[cl.job[q]], cl.outs[q]->cells(), why)) mon().violation("shared:" + j.name, std::to_string(clients) + " clients on " + p.name + ": " + why);
            mon().count("client calls judged");
        }
        mon().count("clients", clients); mon().count("changes of the reading worker", watch().switches - before);
        mon().seen(fnv(js[0].name + js[0].where + p.name) ^ watch().sig.load(), js[0].n > 1);
    }
    mon().sample(std::to_string(jobs().size()) + " kinds of calls, alone and by up to four clients of one pool, e.g. " + mon().where());
}
static void hostile_mode()
{
    Rng r = mon().rng("hostile" + std::to_string(PART));
    std::vector<Pol> pols{sequential(), parallel(2), parallel(5), sequential(false), parallel(3, false)};
#ifdef MEMCHECK
    size_t rounds = mon().n(80, 1000);
#else
    size_t rounds = mon().n(4000, 30000);
#endif
    for(size_t k = 0; k < rounds; ++k) for(auto& maker : jobs()) {
        Ctx c{r, r.chance(25) ? Level::Mild : Level::Wild, r.chance(10) ? size_t(300) : size_t(24)};
        Job j = maker(c); Pol& p = pols[r.below(pols.size())];
        mon().at(p.name + " " + j.name + " " + j.where + (c.level == Level::Wild ? " extreme values" : ""));
        auto out = j.make();
#ifdef MEMCHECK
        if(j.every) for(auto& m : out->values()) (void)VALGRIND_MAKE_MEM_UNDEFINED(m.first, m.second);
        // marks left by earlier work are not results: their cells keep what they had
#endif
        out->run(p);
#ifdef MEMCHECK
        std::vector<std::vector<bool>> undefined;
        for(auto& m : out->values()) {
            std::vector<bool> u; size_t w = out->width();
            for(size_t i = 0; i * w < m.second; ++i) { unsigned char v[8] = {0}; VALGRIND_GET_VBITS(static_cast<char*>(m.first) + i * w, v, w); bool bad = false; for(size_t b = 0; b < w; ++b) bad = bad || v[b]; u.push_back(bad); }
            (void)VALGRIND_MAKE_MEM_DEFINED(m.first, m.second);
            undefined.push_back(u);
        }
        auto cells = out->cells();
        if(j.every && undefined.size() == 1 && undefined[0].size() == cells.size())
            for(size_t i = 0; i < cells.size(); ++i) {
                if(undefined[0][i] && !cells[i].mark) mon().violation("undefined:" + j.name, "cell " + std::to_string(i) + " of " + j.where + " " + p.name + " is neither written nor marked");
                mon().count(undefined[0][i] ? "marked cells left alone" : "cells with a defined value");
            }
#else
        auto cells = out->cells();
        mon().count("result cells", cells.size());
#endif
        mon().count(j.n == 0 ? "calls on empty data" : j.n == 1 ? "calls on one cell" : "calls on several cells");
        mon().seen(j.name + j.where + p.name + std::to_string(r.next()), true);
    }
    mon().sample(std::to_string(jobs().size()) + " kinds of calls on degenerate extents and extreme values, e.g. " + mon().where());
}
int main(int argc, char** argv)
{
    mon().init(argc, argv);
    std::string mode = "same";
    for(int i = 1; i + 1 < argc; ++i) if(std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if(mode == "same") same_mode(); else if(mode == "race") race_mode(); else hostile_mode();
    return mon().finish();
}

// C04: exactly-once / ordering / concurrency / shutdown monitor for ThreadPool.
// Every task has a unique id and stamps its start and finish from one global
// counter; the client stamps call and return of submit. The history is judged
// off line.
#include "vh.h"
#include <memory>
#include <functional>
#include <thread>
#include <future>
#include <algorithm>
#include <chrono>
#include "fern/core/thread_pool.h"
#include "fern/core/thread_safe_queue.h"
#include "fern/algorithm/policy/execution_policy.h"
namespace fa = fern::algorithm;
using namespace vh;
using namespace std::chrono;

struct Rec {
    std::atomic<int> runs{0};
    std::atomic<long> start{0}, finish{0}, sub_call{0}, sub_ret{0};
};
struct World {
    std::atomic<long> clock{1};
    std::atomic<int> running{0}, peak{0};
    std::atomic<bool> destroyed{false};
    std::atomic<int> after_destroy{0};
    std::vector<Rec> rec;
    explicit World(size_t n) : rec(n) {}
};
struct Tagged : std::exception { size_t id; explicit Tagged(size_t i) : id(i) {} };

static void dwell(unsigned us)
{
    if(us == 0) return;
    if(us < 30) { for(volatile unsigned i = 0; i < us * 40; ++i) {} }
    else std::this_thread::sleep_for(microseconds(us));
}

static size_t body(std::shared_ptr<World> w, size_t id, unsigned us, bool fail)
{
    Rec& r = w->rec[id];
    if(w->destroyed) ++w->after_destroy;
    int now = ++w->running;
    int p = w->peak.load();
    while(now > p && !w->peak.compare_exchange_weak(p, now)) {}
    r.start = w->clock++;
    ++r.runs;
    dwell(us);
    r.finish = w->clock++;
    --w->running;
    if(fail) throw Tagged(id);
    return id * 31 + 7;
}

// result kinds: value, void, move only
template<class F> static bool ready(F& f) { return f.wait_for(seconds(0)) == std::future_status::ready; }

static void history(Rng& r, size_t h)
{
    size_t const workers = r.chance(35) ? 1 : 1 + r.below(8);
    size_t const submitters = r.chance(40) ? 1 : 1 + r.below(6);
    size_t const per = 1 + r.below(r.chance(30) ? 60 : 14);
    size_t const total = submitters * per;
    unsigned const fail_pct = unsigned(r.pick(std::vector<int>{0, 20, 60, 100}));
    unsigned const max_us = unsigned(r.pick(std::vector<int>{0, 0, 10, 200}));
    bool const early = r.chance(30);     // destroy while tasks may be waiting
    bool const via_policy = r.chance(25); // pool owned by an execution policy
    std::string what = "workers=" + str(workers) + " submitters=" + str(submitters) + " tasks=" + str(per) +
        " fail%=" + str(fail_pct) + " us=" + str(max_us) + (early ? " early-destroy" : "") + (via_policy ? " policy" : "");
    mon().at(what);
    auto w = std::make_shared<World>(total);
    std::vector<std::future<size_t>> fut(total);
    std::vector<unsigned> us(total);
    std::vector<char> fails(total);
    for(size_t i = 0; i < total; ++i) { us[i] = max_us ? unsigned(r.below(max_us)) : 0; fails[i] = r.chance(fail_pct); }

    std::unique_ptr<fern::ThreadPool> own;
    std::unique_ptr<fa::ParallelExecutionPolicy> pol, pol2;
    fern::ThreadPool* pool;
    if(via_policy) {
        pol = std::make_unique<fa::ParallelExecutionPolicy>(workers);
        pol2 = std::make_unique<fa::ParallelExecutionPolicy>(*pol); // shares the pool
        if(&pol->thread_pool() != &pol2->thread_pool()) mon().violation("policy:copy", "copied policy does not share the pool");
        pool = &pol->thread_pool();
    } else {
        own = std::make_unique<fern::ThreadPool>(workers);
        pool = own.get();
    }
    if(pool->size() != workers) mon().violation("pool:size", "size() = " + str(pool->size()));
    auto submit_all = [&](size_t s) {
        for(size_t k = 0; k < per; ++k) {
            size_t id = s * per + k;
            w->rec[id].sub_call = w->clock++;
            unsigned u = us[id];
            bool f = fails[id];
            auto ww = w;
            fut[id] = pool->submit([ww, id, u, f]() { return body(ww, id, u, f); });
            w->rec[id].sub_ret = w->clock++;
        }
    };
    if(submitters == 1) submit_all(0);
    else {
        std::vector<std::thread> ts;
        for(size_t s = 0; s < submitters; ++s) ts.emplace_back(submit_all, s);
        for(auto& t : ts) t.join();
    }
    auto destroy = [&]() { own.reset(); pol.reset(); pol2.reset(); w->destroyed = true; };
    if(via_policy && r.chance(50)) { pol.reset(); if(early) {} } // the copy keeps the pool alive
    if(early) {
        dwell(unsigned(r.below(100)));
        destroy();
        if(w->running != 0) mon().violation("destroy:running", "tasks still running after destruction");
    }
    size_t ok = 0, threw = 0, broken = 0;
    for(size_t i = 0; i < total; ++i) {
        // after destruction every future must be ready; before, wait (a hang is seen by the watchdog)
        if(early && !ready(fut[i])) {
            mon().violation("destroy:future-not-ready", "future of task " + str(i) + " not ready after the pool was destroyed");
            continue;
        }
        Rec& rec = w->rec[i];
        try {
            size_t v = fut[i].get();
            ++ok;
            if(fails[i]) mon().violation("future:lost-exception", "task " + str(i));
            if(v != i * 31 + 7) mon().violation("future:value", "task " + str(i) + " got " + str(v));
            if(rec.runs != 1) mon().violation("task:runs", "task " + str(i) + " ran " + str(rec.runs.load()) + " times");
        }
        catch(Tagged const& e) {
            ++threw;
            if(!fails[i] || e.id != i) mon().violation("future:wrong-exception", "task " + str(i) + " got exception of " + str(e.id));
            if(rec.runs != 1) mon().violation("task:runs", "task " + str(i) + " ran " + str(rec.runs.load()) + " times");
        }
        catch(std::future_error const& e) {
            ++broken;
            if(!early) mon().violation("future:broken", "task " + str(i) + " of a live pool: " + e.what());
            if(rec.runs != 0) mon().violation("future:broken-but-ran", "task " + str(i));
        }
    }
    if(!early) {
        // live pool still usable after failures; also idempotent
        auto f = pool->submit([]() { return 42; });
        if(f.get() != 42) mon().violation("pool:unusable", "value");
        // not all pool objects may be gone: count of live workers is checked in barrier()
        destroy();
    }
    std::this_thread::yield();
    if(w->after_destroy != 0) mon().violation("destroy:task-after", str(w->after_destroy.load()) + " tasks started after destruction");
    if(size_t(w->peak.load()) > workers) mon().violation("pool:too-many-at-once", "peak " + str(w->peak.load()));
    for(size_t i = 0; i < total; ++i) {
        int n = w->rec[i].runs;
        if(n > 1 || (!early && n != 1)) mon().violation("task:runs", "task " + str(i) + " ran " + str(n) + " times");
        if(n && w->rec[i].start < w->rec[i].sub_call) mon().violation("task:before-submit", "task " + str(i));
        if(n && w->rec[i].finish == 0) mon().violation("task:unfinished", "task " + str(i) + " not finished though its future was ready");
    }
    if(workers == 1) { // order of submission; real-time order between submitters
        std::vector<size_t> idx;
        for(size_t i = 0; i < total; ++i) if(w->rec[i].runs) idx.push_back(i);
        for(size_t a = 0; a < total; ++a) for(size_t b = 0; b < total; ++b) {
            Rec &x = w->rec[a], &y = w->rec[b];
            if(x.sub_ret < y.sub_call && y.runs) {
                if(!x.runs) { mon().violation("order:skipped", str(a) + " not run but later " + str(b) + " was"); a = b = total; }
                else if(x.start > y.start) { mon().violation("order:swapped", str(b) + " ran before earlier submitted " + str(a)); a = b = total; }
                else if(x.finish > y.start) { mon().violation("order:overlap", "one worker ran two tasks at once"); a = b = total; }
            }
        }
        mon().count("histories with one worker");
    }
    std::vector<std::pair<long, size_t>> order;
    for(size_t i = 0; i < total; ++i) if(w->rec[i].runs) order.emplace_back(w->rec[i].start.load(), i);
    std::sort(order.begin(), order.end());
    std::string sig = what;
    for(auto& p : order) sig += "," + str(p.second);
    mon().seen(sig, order.size() >= 2);
    mon().count("tasks run", order.size());
    mon().count("exceptions delivered", threw);
    mon().count("broken promises after early destroy", broken);
    mon().count("tasks submitted", total);
    if(w->peak > 1) mon().count("histories with overlapping tasks");
    if(h < 6) mon().sample(what + " -> ok " + str(ok) + ", threw " + str(threw) + ", broken " + str(broken) + ", peak " + str(w->peak.load()));
}

// With at least as many waiting tasks as workers all workers are used: the
// tasks form a barrier that only opens when all are running at once. First
// let every worker see exceptions.
static void barrier(Rng& r)
{
    size_t workers = 1 + r.below(8);
    size_t poison = r.below(3 * workers);
    size_t rounds = 1 + r.below(4);
    mon().at("barrier workers=" + str(workers) + " after " + str(poison) + " throwing tasks");
    fern::ThreadPool pool(workers);
    std::vector<std::future<void>> bad;
    for(size_t i = 0; i < poison; ++i) bad.push_back(pool.submit([i]() { if(i % 2) throw Tagged(i); throw int(i); }));
    if(r.chance(50)) for(auto& b : bad) b.wait();
    for(size_t k = 0; k < rounds; ++k) {
        if(r.chance(30)) std::this_thread::sleep_for(milliseconds(r.below(8)));
        auto n = std::make_shared<std::atomic<size_t>>(0);
        std::vector<std::future<bool>> fs;
        for(size_t i = 0; i < workers; ++i)
            fs.push_back(pool.submit([n, workers]() {
                ++*n;
                // generous: the watchdog bound is far above any scheduling delay
                auto end = steady_clock::now() + seconds(60);
                while(*n < workers) { if(steady_clock::now() > end) return false; std::this_thread::yield(); }
                return true;
            }));
        bool all = true;
        for(auto& f : fs) all = f.get() && all;
        if(!all) mon().violation("pool:idle-worker", "tasks waited while a worker stayed idle or dead");
        mon().count("barriers opened");
    }
    for(size_t i = 0; i < poison; ++i) {
        try { bad[i].get(); mon().violation("future:lost-exception", "barrier poison"); }
        catch(Tagged const& t) { if(!(i % 2) || t.id != i) mon().violation("future:wrong-exception", "poison"); }
        catch(int v) { if((i % 2) || size_t(v) != i) mon().violation("future:wrong-exception", "poison"); }
    }
    mon().seen("barrier:" + str(workers) + ":" + str(poison) + ":" + str(rounds));
}

// Running task at destruction is waited for; queued ones are never run.
static void shutdown_race(Rng& r)
{
    size_t workers = 1 + r.below(4), queued = r.below(20);
    mon().at("shutdown workers=" + str(workers) + " queued=" + str(queued));
    auto w = std::make_shared<World>(workers + queued);
    auto go = std::make_shared<std::atomic<bool>>(false);
    std::vector<std::future<size_t>> fs;
    auto started = std::make_shared<std::atomic<size_t>>(0);
    {
        fern::ThreadPool pool(workers);
        for(size_t i = 0; i < workers; ++i)
            fs.push_back(pool.submit([=]() {
                ++*started;
                while(!*go) std::this_thread::yield();
                dwell(50);
                return body(w, i, 20, false);
            }));
        for(size_t i = 0; i < queued; ++i) { size_t id = workers + i; fs.push_back(pool.submit([=]() { return body(w, id, 0, false); })); }
        while(*started < workers) std::this_thread::yield();
        *go = true;
    }
    w->destroyed = true;
    for(size_t i = 0; i < workers; ++i)
        if(w->rec[i].finish == 0) mon().violation("destroy:running", "running task not finished when the destructor returned");
    size_t run = 0;
    for(size_t i = 0; i < fs.size(); ++i) {
        if(!ready(fs[i])) { mon().violation("destroy:future-not-ready", "task " + str(i)); continue; }
        try { if(fs[i].get() != i * 31 + 7) mon().violation("future:value", "shutdown"); ++run; if(w->rec[i].runs != 1) mon().violation("task:runs", "shutdown"); }
        catch(std::future_error const&) { if(i < workers || w->rec[i].runs) mon().violation("future:broken-but-ran", "shutdown"); }
    }
    if(w->after_destroy) mon().violation("destroy:task-after", "shutdown");
    mon().count("shutdowns with queued tasks dropped", run < fs.size());
    mon().seen("shutdown:" + str(workers) + ":" + str(queued) + ":" + str(run));
}

// Tasks that themselves submit tasks (fire and forget, collected later): each
// runs once, on a worker, never within another task, in order of submission
// when there is one worker, never more at once than there are workers.
static thread_local int task_depth = 0;
static void nested(Rng& r)
{
    size_t const workers = r.chance(50) ? 1 : 1 + r.below(6);
    size_t const roots = 1 + r.below(5);
    size_t const total = roots + r.below(40);
    bool const early = r.chance(25);
    std::vector<std::vector<size_t>> kids(total);
    for(size_t i = roots; i < total; ++i) kids[r.below(i)].push_back(i);
    std::vector<char> fails(total);
    std::vector<unsigned> us(total);
    for(size_t i = 0; i < total; ++i) { fails[i] = r.chance(20); us[i] = unsigned(r.below(40)); }
    std::string const what = "nested workers=" + str(workers) + " roots=" + str(roots) + " tasks=" + str(total) + (early ? " early-destroy" : "");
    mon().at(what);
    auto w = std::make_shared<World>(total);
    std::vector<std::future<size_t>> fut(total);
    std::atomic<int> inside{0}, on_client{0};
    auto const client = std::this_thread::get_id();
    std::atomic<size_t> submitted{0};
    std::function<void(fern::ThreadPool&, size_t)> submit = [&](fern::ThreadPool& pool, size_t id) {
        w->rec[id].sub_call = w->clock++;
        auto f = pool.submit([&, id]() {
            if(task_depth) ++inside;
            if(std::this_thread::get_id() == client) ++on_client;
            ++task_depth;
            struct Leave { ~Leave() { --task_depth; } } leave;
            Rec& rec = w->rec[id];
            int now = ++w->running, p = w->peak.load();
            while(now > p && !w->peak.compare_exchange_weak(p, now)) {}
            rec.start = w->clock++;
            ++rec.runs;
            for(size_t k : kids[id]) submit(pool, k);
            dwell(us[id]);
            rec.finish = w->clock++;
            --w->running;
            if(fails[id]) throw Tagged(id);
            return id * 31 + 7;
        });
        w->rec[id].sub_ret = w->clock++;
        fut[id] = std::move(f);
        ++submitted;
    };
    {
        fern::ThreadPool pool(workers);
        for(size_t i = 0; i < roots; ++i) submit(pool, i);
        if(!early) while(submitted < total) std::this_thread::yield();
        if(!early) for(auto& f : fut) f.wait();
    }
    if(w->running) mon().violation("destroy:running", what);
    if(inside) mon().violation("task:inside-task", what + ": " + str(inside.load()) + " tasks were run inside the task that submitted them");
    if(on_client) mon().violation("task:on-client", what + ": tasks run by the submitting client thread");
    if(size_t(w->peak.load()) > workers) mon().violation("pool:too-many-at-once", what + " peak " + str(w->peak.load()));
    size_t ran = 0;
    for(size_t i = 0; i < total; ++i) {
        Rec& rec = w->rec[i];
        ran += rec.runs;
        if(rec.runs > 1 || (!early && rec.runs != 1)) mon().violation("task:runs", what + " task " + str(i) + " ran " + str(rec.runs.load()) + " times");
        if(!rec.sub_call) continue;
        if(!ready(fut[i])) { mon().violation("destroy:future-not-ready", what); continue; }
        try {
            size_t v = fut[i].get();
            if(fails[i]) mon().violation("future:lost-exception", what);
            if(v != i * 31 + 7) mon().violation("future:value", what);
        }
        catch(Tagged const& t) { if(!fails[i] || t.id != i) mon().violation("future:wrong-exception", what); }
        catch(std::future_error const&) { if(!early || rec.runs) mon().violation("future:broken", what); }
    }
    if(workers == 1) for(size_t a = 0; a < total; ++a) for(size_t b = 0; b < total; ++b) {
        Rec &x = w->rec[a], &y = w->rec[b];
        if(!x.sub_call || !y.runs || x.sub_ret >= y.sub_call) continue;
        if(!x.runs) { mon().violation("order:skipped", what); a = b = total; }
        else if(x.start > y.start) { mon().violation("order:swapped", what + ": " + str(b) + " ran before earlier submitted " + str(a)); a = b = total; }
        else if(x.finish > y.start) { mon().violation("order:overlap", what); a = b = total; }
    }
    mon().seen(what + ":" + str(ran), total > roots);
    mon().count("tasks submitted by tasks", total - roots);
}

// idle/new/destroy churn: lost wake-ups, destruction of idle pools
static void churn(Rng& r)
{
    size_t workers = 1 + r.below(6);
    mon().at("churn workers=" + str(workers));
    fern::ThreadPool pool(workers);
    size_t k = r.below(4);
    for(size_t i = 0; i < k; ++i) {
        if(r.chance(50)) dwell(unsigned(r.below(60)));
        auto p = std::make_unique<int>(int(i));
        struct MoveOnly { std::unique_ptr<int> p; std::unique_ptr<int> operator()() { return std::move(p); } };
        auto f = pool.submit(MoveOnly{std::move(p)});
        auto q = f.get();
        if(!q || *q != int(i)) mon().violation("future:value", "move-only result");
    }
    mon().seen("churn:" + str(workers) + ":" + str(k), k > 0);
    mon().count("churned pools");
}

static void queue(Rng& r)
{
    size_t producers = 1 + r.below(4), consumers = 1 + r.below(4), per = 1 + r.below(200);
    mon().at("queue producers=" + str(producers) + " consumers=" + str(consumers) + " items=" + str(per));
    fern::ThreadSafeQueue<std::unique_ptr<size_t>> q;
    if(!q.empty()) mon().violation("queue:empty", "fresh queue not empty");
    std::atomic<size_t> got{0};
    std::vector<std::vector<size_t>> out(consumers);
    std::vector<std::thread> ts;
    for(size_t c = 0; c < consumers; ++c) ts.emplace_back([&, c]() {
        std::unique_ptr<size_t> v;
        while(got < producers * per) {
            if(q.try_pop(v)) { out[c].push_back(*v); ++got; } else std::this_thread::yield();
        }
    });
    for(size_t p = 0; p < producers; ++p) ts.emplace_back([&, p]() { for(size_t i = 0; i < per; ++i) q.push(std::make_unique<size_t>(p * 100000 + i)); });
    for(auto& t : ts) t.join();
    std::multiset<size_t> all;
    for(auto& o : out) {
        std::map<size_t, size_t> last; // per producer order as seen by one consumer
        for(size_t v : o) {
            all.insert(v);
            size_t p = v / 100000;
            if(last.count(p) && last[p] >= v) mon().violation("queue:order", "producer order not kept");
            last[p] = v;
        }
    }
    bool exact = all.size() == producers * per;
    for(size_t p = 0; p < producers; ++p) for(size_t i = 0; i < per; ++i) exact = exact && all.count(p * 100000 + i) == 1;
    if(!exact) mon().violation("queue:exactly-once", "popped " + str(all.size()));
    if(!q.empty()) mon().violation("queue:empty", "not empty after draining");
    mon().seen("queue:" + mon().where());
    mon().count("queue items", all.size());
}

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng("c04");
    if(fern::hardware_concurrency() < 1) mon().violation("hardware_concurrency", "0");
    for(size_t h = 0; h < mon().n(140, 2500); ++h) history(r, h);
    for(size_t h = 0; h < mon().n(40, 500); ++h) barrier(r);
    for(size_t h = 0; h < mon().n(40, 500); ++h) shutdown_race(r);
    for(size_t h = 0; h < mon().n(80, 1000); ++h) nested(r);
    for(size_t h = 0; h < mon().n(100, 1500); ++h) churn(r);
    for(size_t h = 0; h < mon().n(40, 600); ++h) queue(r);
    return mon().finish();
}

// task_scheduler
#include "scn.h"

#include <teiacare/sdk/task_scheduler.hpp>

#include <algorithm>
#include <chrono>
#include <latch>
#include <memory>
#include <system_error>

using namespace scn;
using tc::sdk::task_scheduler;
using namespace std::chrono_literals;
using clk = tc::sdk::clock;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS, HOUR = 3600 * SEC;
constexpr i64 TOL = 20 * US;  // clock reads cost 1 ns each: far more than any run adds up to
clk::time_point at_ns(i64 t) { return clk::time_point(ns(t)); }
i64 to_ns(clk::time_point t) { return std::chrono::duration_cast<ns>(t.time_since_epoch()).count(); }

void sleep_to(i64 t)
{
    while (sim::now() < t)
        std::this_thread::sleep_for(ns(t - sim::now()));
}

// ---- C12: one-shot tasks ---------------------------------------------------------------------------------------------------
enum : int { RUNS = 100, START_AT = 400, SLACK0 = 700, FIRST = 1000 };
SCENARIO(sched_once, "sched.once")
{
    int nc = (int)sim::draw(1, 3), per = (int)sim::draw(1, 5);
    int workers = (int)sim::draw(1, 4);
    static const i64 delays[] = {5 * MS, 0, MS, 10 * MS, 10 * MS, -3 * MS, 200 * US, SEC, 2 * HOUR, 24 * 40 * HOUR, 1, -SEC, -7 * HOUR, -24 * 400 * HOUR};
    struct job
    {
        i64 delay;
        int api, val;
    };
    std::vector<job> jobs;
    for (int i = 0; i < nc * per; i++)
        jobs.push_back({sim::one_of(delays), (int)sim::draw(0, 8), (int)sim::draw(0, 99)});
    bool restart = sim::chance(1, 5), anchor = sim::chance(1, 2);
    static const i64 grans[] = {0, 1 * MS, 4 * MS, 15'625'000};
    if (sim::chance(1, 6))
        sim::cfg.clock_granularity = sim::one_of(grans);
    sim::swarm_schedule_faults();
    static const i64 scales[] = {MS, 30 * MS, 10 * SEC};
    sim::swarm_time_faults(sim::one_of(scales));
    sim::enable(sim::F_WALL_JUMP, 1, 6);
    if (nc * per > 1)
        sim::nontrivial();
    sim::run([&] {
        task_scheduler s;
        if (restart)
        {
            s.start(1);
            s.stop();
        }
        if (!s.start(workers))
            sim::fail("C15", "start() of a stopped scheduler returned false");
        i64 base = sim::now() + 20 * MS;
        clients c;
        std::vector<std::vector<std::optional<std::future<int>>>> fut(nc);
        std::vector<i64> due(jobs.size()), added(jobs.size()), latest(jobs.size());
        for (int t = 0; t < nc; t++)
            c.go([&, t] {
                for (int k = 0; k < per; k++)
                {
                    int i = t * per + k;
                    job& j = jobs[i];
                    auto hit = [i] {
                        if (sim::add(RUNS + i) != 1)
                            sim::fail("C12", "one-shot task %d was executed twice", i);
                        sim::set(START_AT + i, sim::now());
                        sim::ev(1, i);
                    };
                    auto f0 = [hit, v = j.val] { hit(); return v; };
                    auto f1 = [hit](int a, std::string b) { hit(); return a + (int)b.size(); };
                    sim::set(SLACK0 + i, sim::total_slack());
                    std::string id = "task with an id " + std::to_string(i);
                    i64 d = j.delay;
                    i64 before = to_ns(clk::now());
                    if (anchor && (j.api < 3))
                        d = base + d - before;  // absolute times, shared between clients
                    due[i] = before + d;
                    std::optional<std::future<int>> f;
                    switch (j.api)
                    {
                    case 0: f = s.at(at_ns(due[i]), f0); break;
                    case 1: f = s.at(at_ns(due[i]), f1, j.val - 3, std::string("abc")); break;
                    case 2: f = s.at(std::move(id), at_ns(due[i]), f1, j.val - 3, std::string("abc")); break;
                    case 3: f = s.in(ns(d), f0); break;
                    case 4: f = s.in(ns(d), f1, j.val - 3, std::string("abc")); break;
                    case 5: f = s.in(std::move(id), ns(d), f1, j.val - 3, std::string("abc")); break;
                    case 6: f = s.in(std::move(id), ns(d), f0); break;
                    case 7: f = s.in(ns(d), [hit, v = j.val]() -> int { hit(); sim::count(sim::F_USER_THROW); throw oops(v); }); break;
                    case 8: f = s.at(at_ns(due[i]), f0); break;
                    }
                    if (!f)
                        sim::fail("C12", "a running scheduler refused task %d", i);
                    added[i] = sim::now();
                    latest[i] = j.api < 3 || j.api == 8 ? due[i] : added[i] + d;  // in() reads the clock itself
                    fut[t].push_back(std::move(f));
                    sim::ev(2, i);
                }
            });
        c.join();
        for (int t = 0; t < nc; t++)
            for (int k = 0; k < per; k++)
            {
                int i = t * per + k;
                bool threw = false;
                int v = 0;
                try
                {
                    v = fut[t][k]->get();
                }
                catch (const oops& e)
                {
                    threw = true;
                    v = e.id;
                }
                catch (const std::future_error&)
                {
                    sim::fail("C12", "the promise of one-shot task %d was broken although nobody stopped the scheduler", i);
                }
                if (threw != (jobs[i].api == 7) || v != jobs[i].val)
                    sim::fail("C12", "one-shot task %d delivered a wrong result", i);
                if (sim::get(RUNS + i) != 1)
                    sim::fail("C12", "one-shot task %d was executed %lld times", i, (long long)sim::get(RUNS + i));
                i64 st = sim::get(START_AT + i);
                if (st < due[i])
                    sim::fail("C12", "one-shot task %d started %lld ns before its time", i, (long long)(due[i] - st));
                i64 from = due[i] > added[i] ? due[i] : added[i];
                i64 late = st - from, allowed = sim::total_slack() - sim::get(SLACK0 + i) + TOL + 3 * sim::cfg.clock_granularity;
                if (late > allowed)
                    sim::fail("C12", "one-shot task %d started %lld ns after its time, only %lld ns are explained by delays", i, (long long)late, (long long)allowed);
            }
        if (workers == 1)
            for (size_t a = 0; a < jobs.size(); a++)
                for (size_t b = 0; b < jobs.size(); b++)
                    if (latest[a] < due[b] && added[a] < due[a] && added[b] < due[a] && sim::get(START_AT + (int)a) > sim::get(START_AT + (int)b))
                        sim::fail("C12", "one worker: task %zu (due at %lld) started after task %zu (due at %lld)", a, (long long)due[a], b, (long long)due[b]);
        if (s.tasks_size() != 0)
            sim::fail("C12", "%zu tasks scheduled after all one-shot tasks were executed", s.tasks_size());
        sleep_to(sim::now() + SEC);
        for (size_t i = 0; i < jobs.size(); i++)
            if (sim::get(RUNS + (int)i) != 1)
                sim::fail("C12", "one-shot task %zu was executed %lld times", i, (long long)sim::get(RUNS + (int)i));
        if (!s.stop())
            sim::fail("C15", "stop() returned false");
    });
    // same worker, events carry the order too
    const sim::event* ev = sim::events();
    (void)ev;
}

// many tasks scheduled at once
SCENARIO(sched_backlog, "sched.backlog")
{
    int n = std::min(draw_amount(), 600), workers = (int)sim::draw(1, 3), kind = (int)sim::draw(0, 2);  // apart, several at a time, all at once
    bool named = sim::chance(1, 2), stop = sim::chance(1, 4);
    int periodic = (int)sim::draw(0, 3);
    std::vector<int> order = stride_order(n);
    sim::swarm_schedule_faults();
    sim::cfg.patience = 200;  // hundreds of tasks in a row are no spinning
    sim::nontrivial();
    enum { RAN = 1, LAST = 2, TICKS = 10, COUNT = 100 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            task_scheduler s;
            s.start(workers);
            sim::set(LAST, -1);
            const i64 base = sim::now() + 500 * MS, step = kind == 0 ? 100 * US : kind == 1 ? 500 * US : 0;
            auto due = [&](int k) { return base + (kind == 1 ? k / 7 : k) * step; };
            std::vector<std::future<int>> f(n);
            for (int i = 0; i < n; i++)
            {
                int k = order[i];
                if (i % 32 == 31)
                    sleep_to(sim::now() + 10 * US);  // nothing blocks here: the simulator takes that for spinning
                auto body = [k, kind, workers, d = due(k)] {
                    if (sim::now() < d)
                        sim::fail("C12", "task %d started %lld ns before its time", k, (long long)(d - sim::now()));
                    if (sim::now() > d + TOL + 20 * MS)
                        sim::fail("C12", "task %d started %lld ns after its time", k, (long long)(sim::now() - d));
                    if (workers == 1 && kind == 0)
                    {
                        if (sim::get(LAST) > k)
                            sim::fail("C12", "one worker: task %d started after task %lld, which is due later", k, (long long)sim::get(LAST));
                        sim::set(LAST, k);
                    }
                    sim::add(COUNT + k);
                    return k * 7;
                };
                auto r = named ? s.at("task " + std::to_string(k), at_ns(due(k)), body) : s.at(at_ns(due(k)), body);
                if (!r)
                    sim::fail(named ? "C14" : "C12", "task %d of %d was refused", k, n);
                f[k] = std::move(*r);
            }
            const i64 began = sim::now();
            for (int p = 0; p < periodic; p++)
                if (!s.every("periodic " + std::to_string(p), ns(5 * MS), ns(20 * MS), [p] { sim::add(TICKS + p); }))
                    sim::fail("C13", "a periodic task was refused");
            if (s.tasks_size() != (size_t)(n + periodic))
                sim::fail("C14", "%zu tasks scheduled instead of %d", s.tasks_size(), n + periodic);
            std::vector<char> gone(n, 0);
            if (named)
                for (int k = 0; k < n; k += 3)
                {
                    if (k % 32 == 31)
                        sleep_to(sim::now() + 10 * US);
                    std::string id = "task " + std::to_string(k);
                    if (!s.is_scheduled(id) || !s.remove_task(id) || s.is_scheduled(id))
                        sim::fail("C14", "task %d of %d could not be removed", k, n);
                    gone[k] = 1;
                }
            if (sim::now() > base - MS)
                sim::fail("error", "the tasks fell due before all were scheduled");
            if (stop)
            {
                s.stop();
                sleep_to(base + n * step + 50 * MS);
            }
            else
            {
                sleep_to(base + n * step + 25 * MS);
                sim::wait_idle();
                if (s.tasks_size() != (size_t)periodic)
                    sim::fail("C14", "%zu tasks are still scheduled, %d of them periodic", s.tasks_size(), periodic);
                s.stop();
                for (int p = 0; p < periodic; p++)
                {
                    i64 want = (n * step + 5 * MS + base - began) / (5 * MS), got = sim::get(TICKS + p);
                    if (got < want - 1 || got > want + 2)
                        sim::fail("C13", "a periodic task was started %lld times, not about %lld times", (long long)got, (long long)want);
                }
            }
            for (int k = 0; k < n; k++)
            {
                bool expect = !stop && !gone[k];
                if (sim::get(COUNT + k) != expect)
                    sim::fail(stop ? "C15" : gone[k] ? "C14" : "C12", "task %d of %d was run %lld times", k, n, (long long)sim::get(COUNT + k));
                if (f[k].wait_for(0s) != std::future_status::ready)
                    sim::fail("C12", "the future of task %d of %d is not ready", k, n);
                try
                {
                    if (f[k].get() != k * 7 || !expect)
                        sim::fail("C12", "wrong result");
                }
                catch (const std::future_error&)
                {
                    if (expect)
                        sim::fail("C12", "the promise of task %d of %d was broken", k, n);
                }
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}
// ---- C13: periodic tasks --------------------------------------------------------------------------------------------------------
SCENARIO(sched_periodic, "sched.periodic")
{
    if (sim::chance(1, 2))
        sim::cfg.clock_tick = 0;  // reading the clock takes no time: tasks added in a row are due at the same instant
    int n = (int)sim::draw(1, 4), workers = (int)sim::draw(1, 3);
    static const i64 intervals[] = {10 * MS, MS, 2 * MS, 7 * MS, 100 * MS, SEC, 333 * US};
    static const i64 first[] = {0, 0, 5 * MS, 13 * MS, 250 * MS};
    struct job
    {
        i64 interval, delay;
        int api;
    };
    std::vector<job> jobs;
    for (int i = 0; i < n; i++)
        jobs.push_back({sim::one_of(intervals), sim::one_of(first), (int)sim::draw(0, 3)});
    if (sim::chance(1, 3))
        for (auto& j : jobs)
            j.interval = jobs[0].interval;
    int oneshots = (int)sim::draw(0, 3);
    i64 odelay[3];
    for (int i = 0; i < 3; i++)
        odelay[i] = sim::draw(0, 8);
    bool threw = sim::chance(1, 4);
    int toggles = (int)sim::draw(0, 1) * (int)sim::draw(0, 12);
    bool off = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    i64 longest = 0, shortest = SEC;
    for (auto& j : jobs)
    {
        longest = std::max(longest, j.interval);
        shortest = std::min(shortest, j.interval);
    }
    static const i64 scales[] = {1, 15, 80};
    sim::swarm_time_faults(shortest * sim::one_of(scales) / 5);
    sim::enable(sim::F_WALL_JUMP, 1, 6);
    sim::nontrivial();
    enum { K = 200, HISTORY = 300, HMAX = 1000 };
    sim::run([&] {
        task_scheduler s;
        s.start(workers);
        std::vector<i64> t0(n);
        sim::no_faults(true);
        for (int i = 0; i < n; i++)
        {
            job& j = jobs[i];
            auto f = [i, threw] {
                i64 k = sim::add(K + i) - 1;
                if (k < HMAX)
                    sim::set(HISTORY + i * HMAX + (int)k, sim::now());
                if (threw && k % 3 == 1)
                {
                    sim::count(sim::F_USER_THROW);
                    throw oops(i);
                }
            };
            auto g = [f](int a, const std::string& b) {
                if (a != 4 || b != "an argument of the periodic task, on the heap")
                    sim::fail("C13", "a periodic task got damaged arguments at call %lld", (long long)sim::get(K));
                f();
            };
            t0[i] = sim::now() + (j.api == 3 ? j.delay : 0);
            bool ok = false;
            switch (j.api)
            {
            case 0: ok = s.every(ns(j.interval), f); break;
            case 1: ok = s.every(ns(j.interval), g, 4, std::string("an argument of the periodic task, on the heap")); break;
            case 2: ok = s.every("id" + std::to_string(i), ns(j.interval), g, 4, std::string("an argument of the periodic task, on the heap")); break;
            case 3: ok = s.every("id" + std::to_string(i), ns(j.interval), ns(j.delay), f); break;
            }
            if (!ok)
                sim::fail("C13", "a running scheduler refused periodic task %d", i);
        }
        for (int i = 0; i < oneshots; i++)
            s.in(ns(odelay[i] * shortest), [] {});
        sim::no_faults(false);
        // disturbed phase, then a calm one; both bounded in number of periods
        i64 phase = std::min<i64>(8 * longest, 40 * shortest);
        i64 t1 = sim::now() + phase;
        // enabling tasks moves nothing, also when they are overdue
        for (int i = 0; i < toggles; i++)
        {
            sleep_to(t1 - phase + phase * (i + 1) / (toggles + 1) / shortest * shortest + (i % 3 ? 0 : shortest / 2));
            for (int j = 0; j < n; j++)
                if (jobs[j].api >= 2)
                {
                    if (off)
                        s.set_enabled("id" + std::to_string(j), false);
                    if (!s.set_enabled("id" + std::to_string(j), true))
                        sim::fail("C14", "set_enabled() of periodic task %d, which is scheduled, returned false", j);
                }
        }
        sleep_to(t1);
        sim::no_faults(true);
        // let whatever was delayed finish, then one more period
        sleep_to(sim::now() + sim::cfg.stall_max + 2 * shortest);
        for (int i = 0; i < 3; i++)
            sim::wait_idle();
        i64 c0 = sim::now() + 10 * US;
        i64 c1 = c0 + std::max<i64>(std::min<i64>(4 * longest, 20 * shortest), 3 * shortest);
        sleep_to(c1 + shortest);
        size_t sz = s.tasks_size();
        if (sz != (size_t)n)
            sim::fail("C13", "%zu tasks scheduled, expected the %d periodic ones", sz, n);
        if (!s.stop())
            sim::fail("C15", "stop() returned false");
        for (int i = 0; i < n; i++)
        {
            i64 I = jobs[i].interval;
            i64 cnt = std::min<i64>(sim::get(K + i), HMAX);
            i64 prev = -1;
            for (i64 k = 0; k < cnt; k++)
            {
                i64 st = sim::get(HISTORY + i * HMAX + (int)k);
                if (st < t0[i] + k * I)
                    sim::fail("C13", "periodic task %d (every %lld ns): start %lld happened %lld ns before %lld intervals had passed", i, (long long)I, (long long)k, (long long)(t0[i] + k * I - st), (long long)k);
                if (st >= c0 && st <= c1)
                {
                    i64 off = (st - t0[i]) % I;
                    if (off > TOL)
                        sim::fail("C13", "periodic task %d (every %lld ns): a start in the undisturbed phase is %lld ns off the grid", i, (long long)I, (long long)off);
                    if (prev >= 0 && (st - prev < I - TOL || st - prev > I + TOL))
                        sim::fail("C13", "periodic task %d (every %lld ns): two starts %lld ns apart in the undisturbed phase", i, (long long)I, (long long)(st - prev));
                    prev = st;
                }
            }
            if (t0[i] + TOL < c0 && sim::get(K + i) <= HMAX)
            {
                i64 calm = 0;
                for (i64 k = 0; k < cnt; k++)
                {
                    i64 st = sim::get(HISTORY + i * HMAX + (int)k);
                    calm += st >= c0 && st <= c1;
                }
                // grid points in [c0, c1 - TOL] must all have been served
                i64 lo = (c0 - t0[i] + I - 1) / I, hi = (c1 - TOL - t0[i]) / I;
                i64 expect = hi - lo + 1;
                if (expect < 0)
                    expect = 0;
                if (calm < expect || calm > expect + 2)
                    sim::fail("C13", "periodic task %d (every %lld ns): %lld starts in an undisturbed phase with %lld due times", i, (long long)I, (long long)calm, (long long)expect);
            }
        }
    });
}

// nothing takes time but the tasks, and there is a worker for every start: every start is known to the nanosecond, also when tasks take
// longer than their interval and when they were due before they were scheduled
SCENARIO(sched_exact, "sched.exact")
{
    struct job
    {
        i64 interval, delay, dur;
        int api, fails;
    };
    static const i64 ivs[] = {10 * MS, MS, 7'777'777, 3 * US, 2 * SEC};
    static const i64 quarters[] = {0, 0, -4, -12, 2, 4, -3, -5, 7, -4000};
    static const i64 spans[] = {0, 0, 2, 4, 5, 9, 13};
    int n = (int)sim::draw(1, 3), workers = 1;
    std::vector<job> jobs(n);
    i64 base = sim::one_of(ivs);
    for (auto& j : jobs)
    {
        j.interval = base * sim::draw(1, 3);
        j.delay = j.interval * sim::one_of(quarters) / 4 + (sim::chance(1, 2) ? 0 : sim::draw(-1, 1));
        j.dur = j.interval * sim::one_of(spans) / 4;
        j.api = (int)sim::draw(0, 3);
        if (j.api < 3)
            j.delay = 0;
        j.fails = (int)sim::draw(0, 3);
        if (workers + j.dur / j.interval + 2 + n > 8)
            j.dur = 0;  // more workers than processors are never started
        workers += (int)(j.dur / j.interval) + 2;
    }
    int ends = (int)sim::draw(3, 12);
    sim::swarm_schedule_faults();
    sim::cfg.clock_tick = 0;
    sim::nontrivial();
    enum { K = 1 };
    sim::run([&] {
        task_scheduler s;
        s.start(workers);
        std::vector<std::vector<i64>> due(n);
        i64 now = sim::now(), end = now + ends * base + base / 3;
        for (int r = 0; r < 2 * n; r++)  // not at a due time
            end += (end - now - jobs[r % n].delay) % jobs[r % n].interval == 0;
        for (int i = 0; i < n; i++)
        {
            const job& j = jobs[i];
            i64 t = now + j.delay;
            if (t < end)
                due[i].push_back(std::max(t, now));
            t += j.interval;
            while (t < now)
                t += j.interval;
            for (; t < end; t += j.interval)
                due[i].push_back(t);
        }
        auto check = [&](int i, i64 k) {
            i64 want = k < (i64)due[i].size() ? due[i][k] : end;
            i64 at = sim::now();
            if (at > end)
                return;
            if (at != want)
                sim::fail(jobs[i].dur > jobs[i].interval ? "C16" : "C13", "a task every %lld ns, taking %lld ns, first due %lld ns from now: start %lld is %lld ns after its due time, although %d workers are enough for all tasks",
                          (long long)jobs[i].interval, (long long)jobs[i].dur, (long long)jobs[i].delay, (long long)k, (long long)(at - want), workers);
        };
        for (int i = 0; i < n; i++)
        {
            const job& j = jobs[i];
            auto f = [&, i] {
                i64 k = sim::add(K + i) - 1;
                check(i, k);
                if (jobs[i].dur)
                    std::this_thread::sleep_for(ns(jobs[i].dur));
                if (jobs[i].fails && k % jobs[i].fails == 0)
                {
                    sim::count(sim::F_USER_THROW);
                    throw oops(i);
                }
            };
            std::string id = "task " + std::to_string(i);
            bool ok = false;
            switch (j.api)
            {
            case 0: ok = s.every(ns(j.interval), f); break;
            case 1: ok = s.every(ns(j.interval), [f](int) { f(); }, i); break;
            case 2: ok = s.every(std::string(id), ns(j.interval), f); break;
            case 3: ok = s.every(std::string(id), ns(j.interval), ns(j.delay), f); break;
            }
            if (!ok)
                sim::fail("C13", "a running scheduler refused periodic task %d", i);
        }
        sleep_to(end);
        sim::wait_idle();
        for (int i = 0; i < n; i++)
            if (sim::get(K + i) != (i64)due[i].size())
                sim::fail("C13", "a task every %lld ns, first due %lld ns from now, was started %lld times instead of %zu", (long long)jobs[i].interval, (long long)jobs[i].delay, (long long)sim::get(K + i), due[i].size());
        if (s.tasks_size() != (size_t)n)
            sim::fail("C14", "%zu tasks scheduled, expected the %d periodic ones", s.tasks_size(), n);
        s.stop();
    });
}

// ---- C14: control by id ------------------------------------------------------------------------------------------------------------
enum { ONCE = 1, EVERY, UNNAMED, REMOVE, SCHEDULED, ENABLED, SET_ENABLED, GET_INTERVAL, UPDATE, SIZE };
const std::string far_apart(400, 'x');
const std::string idset[5][4] = {{"a", "ab", "", "an id that is much longer than the small string buffer"},
                                 {std::string("task\0a", 6), std::string("task\0b", 6), "task", std::string("task\0", 5)},
                                 {far_apart + "1", far_apart + "2", far_apart, "1" + far_apart},
                                 {"Job", "job", "job ", "j\xc3\xb6" "b"},
                                 {same_hash(0), same_hash(1), same_hash(2), same_hash(3)}};
const char* const idname[5][4] = {{"a", "ab", "", "an id that is much longer than the small string buffer"}, {"task<NUL>a", "task<NUL>b", "task", "task<NUL>"}, {"x...x1", "x...x2", "x...x", "1x...x"}, {"Job", "job", "job ", "j<o umlaut>b"}, {"hash<1>", "hash<2>", "hash<3>", "hash<4>"}};
int ids_used;  // drawn by each run
#define ids idset[ids_used]
#define idn idname[ids_used]
struct regs
{
    int8_t present[4], enabled[4], interval[4];
    int8_t unnamed;
    int8_t pad[3];
};
SCENARIO(sched_lin, "sched.control")
{
    int nc = (int)sim::draw(2, 3);
    struct cmd
    {
        int kind, id, arg;
    };
    std::vector<std::vector<cmd>> sc(nc);
    int nid = (int)sim::draw(1, 4);
    ids_used = (int)sim::draw(0, 4);
    for (auto& v : sc)
    {
        int n = (int)sim::draw(1, 5);
        for (int i = 0; i < n; i++)
        {
            static const i64 kinds[] = {EVERY, ONCE, REMOVE, SCHEDULED, ENABLED, SET_ENABLED, GET_INTERVAL, UPDATE, SIZE, UNNAMED, EVERY, REMOVE, UPDATE};
            v.push_back({(int)sim::one_of(kinds), (int)sim::draw(0, nid - 1), (int)sim::draw(1, 4)});
        }
    }
    bool same = sim::chance(1, 2);  // all one-shot tasks due at the same instant
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            task_scheduler s;
            s.start(1);
            const i64 far = sim::now() + 1000 * HOUR;
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (auto& x : sc[t])
                    {
                        std::string id = ids[x.id];
                        auto f = [v = tracked(t)] {
                            v.get();
                            sim::fail("C12", "a task ran a thousand hours before its time");
                        };
                        auto fo = [v = tracked(t)]() -> int { sim::fail("C12", "a task ran a thousand hours before its time"); };
                        int o = sim::op_begin(x.kind, x.id, x.arg);
                        i64 r = 0;
                        switch (x.kind)
                        {
                        case ONCE: r = (same ? s.at(std::move(id), at_ns(far), fo) : s.in(std::move(id), ns(1000 * HOUR), fo)).has_value(); break;
                        case EVERY: r = s.every(std::move(id), ns(x.arg * SEC), ns(1000 * HOUR), f); break;
                        case UNNAMED: r = (same ? s.at(at_ns(far), fo) : s.in(ns(1000 * HOUR), fo)).has_value(); break;
                        case REMOVE: r = s.remove_task(id); break;
                        case SCHEDULED: r = s.is_scheduled(id); break;
                        case ENABLED: r = s.is_enabled(id); break;
                        case SET_ENABLED: r = s.set_enabled(id, x.arg % 2 == 0); break;
                        case GET_INTERVAL:
                        {
                            auto v = s.get_interval(id);
                            r = v ? v->count() / SEC : 0;
                            break;
                        }
                        case UPDATE: r = s.update_interval(id, ns(x.arg * SEC)); break;
                        case SIZE: r = (i64)s.tasks_size(); break;
                        }
                        sim::op_end(o, r);
                    }
                });
            c.join();
            s.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
    const op* ops = sim::ops();
    int n = sim::op_count();
    if (overlapping(ops, n))
        sim::nontrivial();
    regs r0;
    memset(&r0, 0, sizeof r0);
    auto step = [](regs& r, const op& o, bool) {
        int i = (int)o.a;
        switch (o.kind)
        {
        case ONCE:
        case EVERY:
            if (r.present[i])
                return o.res == 0;
            if (!o.res)
                return false;
            r.present[i] = 1;
            r.enabled[i] = 1;
            r.interval[i] = o.kind == EVERY ? (int8_t)o.b : 0;
            return true;
        case UNNAMED: r.unnamed++; return o.res == 1;
        case REMOVE:
            if (o.res != r.present[i])
                return false;
            r.present[i] = r.enabled[i] = r.interval[i] = 0;
            return true;
        case SCHEDULED: return o.res == r.present[i];
        case ENABLED: return o.res == (r.present[i] && r.enabled[i]);
        case SET_ENABLED:
            if (o.res != r.present[i])
                return false;
            if (r.present[i])
                r.enabled[i] = o.b % 2 == 0;
            return true;
        case GET_INTERVAL: return o.res == r.interval[i];
        case UPDATE:
            if (o.res != (r.interval[i] != 0))
                return false;
            if (o.res)
                r.interval[i] = (int8_t)o.b;
            return true;
        case SIZE: return o.res == r.present[0] + r.present[1] + r.present[2] + r.present[3] + r.unnamed;
        }
        return false;
    };
    if (!linearizable(ops, n, r0, step))
        sim::fail("C14", "no order of these operations explains their results:%s", history(ops, n, [](const op& o) {
                      static const char* const nm[] = {"?", "in", "every", "in (no id)", "remove_task", "is_scheduled", "is_enabled", "set_enabled", "get_interval", "update_interval", "tasks_size"};
                      return std::string(nm[o.kind]) + "(\"" + idn[o.a] + "\", " + std::to_string(o.b) + ")";
                  }).c_str());
}
// the scheduler against a model of it: operations at given times, every start predicted
struct mtask
{
    std::string id;
    int key;
    bool named, periodic, enabled, started;
    i64 next, interval;
};
struct prediction
{
    int key;
    i64 t;
};
SCENARIO(sched_model, "sched.model")
{
    int n = (int)sim::draw(2, 18), workers = (int)sim::draw(1, 3);
    ids_used = (int)sim::draw(0, 4);
    struct cmd
    {
        i64 gap;
        int kind, id, arg;
        i64 interval, delay;
        bool grid;
    };
    std::vector<cmd> cs;
    bool grid = sim::chance(1, 2);  // one-shot tasks at multiples of 20 ms: several become due at the same instant
    static const i64 ivs[] = {10 * MS, 4 * MS, 25 * MS, 100 * MS, 20 * MS, 8 * MS, 50 * MS, 200 * MS};
    static const i64 dls[] = {0, 6 * MS, 30 * MS, 12 * MS, 200 * MS};
    static const i64 gaps[] = {-20 * US, 0, 2 * MS, 10 * MS, 16 * MS, 40 * MS, 120 * MS};
    for (int i = 0; i < n; i++)
    {
        static const i64 kinds[] = {EVERY, ONCE, EVERY, REMOVE, SET_ENABLED, UPDATE, SCHEDULED, UPDATE, SET_ENABLED, UNNAMED};
        cmd c;
        c.kind = (int)sim::one_of(kinds);
        c.gap = sim::one_of(gaps);
        c.id = (int)sim::draw(0, ids_used ? 3 : 2);
        c.arg = (int)sim::draw(0, 1);
        c.interval = sim::one_of(ivs);
        c.delay = sim::one_of(dls);
        c.grid = grid && sim::chance(2, 3);
        cs.push_back(c);
    }
    if (sim::chance(1, 2))
        sim::cfg.clock_tick = 0;
    // scheduling faults and wall clock steps, but no delays: all times stay exact
    sim::swarm_schedule_faults();
    sim::enable(sim::F_WALL_JUMP, 1, 4);
    enum { COUNT = 50, HIST = 100, HM = 300, NK = 24 };
    sim::run([&] {
        task_scheduler s;
        s.start(workers);
        // operations happen 1 ms after a multiple of 2 ms, tasks are due at multiples of 2 ms (relative to odd times)
        std::vector<mtask> m;
        std::vector<prediction> expect;
        auto advance = [&](i64 t) {
            for (;;)
            {
                int best = -1;
                for (int i = 0; i < (int)m.size(); i++)
                    if (m[i].next <= t && (best < 0 || m[i].next < m[best].next))
                        best = i;
                if (best < 0)
                    return;
                mtask& x = m[best];
                if (x.enabled)
                    expect.push_back({x.key, x.next});
                x.started = true;
                if (x.periodic)
                    x.next += x.interval;
                else
                    m.erase(m.begin() + best);
            }
        };
        auto find = [&](const std::string& id) -> mtask* {
            for (auto& x : m)
                if (x.named && x.id == id)
                    return &x;
            return nullptr;
        };
        const i64 base = sim::now();
        i64 t = base + MS;
        int key = 0, ops = 0;
        for (auto& c : cs)
        {
            t += c.gap + 20 * US;  // never at the due time of anything
            sleep_to(t);
            sim::wait_idle();
            advance(sim::now());
            i64 now = sim::now();
            std::string id = ids[c.id];
            mtask* x = find(id);
            int k = key;
            auto f = [k] {
                i64 h = sim::add(COUNT + k) - 1;
                if (h < HM)
                    sim::set(HIST + k * HM + (int)h, sim::now());
            };
            ops++;
            switch (c.kind)
            {
            case ONCE:
            {
                i64 due = c.grid ? base + (now + c.delay - base) / (20 * MS) * 20 * MS + 20 * MS : now + c.delay;
                bool r = c.arg && !c.grid ? s.in(std::move(id), ns(c.delay), f).has_value() : s.at(std::move(id), at_ns(due), f).has_value();
                if (r != !x)
                    sim::fail("C14", "in/at(\"%s\") %s although a task with that id %s", idn[c.id], r ? "accepted" : "refused", x ? "is scheduled" : "is not scheduled");
                if (r)
                {
                    m.push_back({ids[c.id], k, true, false, true, false, due, 0});
                    key++;
                }
                break;
            }
            case UNNAMED:
                if (c.arg)
                {
                    i64 due = c.grid ? base + (now + c.delay - base) / (20 * MS) * 20 * MS + 20 * MS : now + c.delay;
                    if (!(c.grid ? s.at(at_ns(due), f) : s.in(ns(c.delay), f)))
                        sim::fail("C14", "in() without id refused");
                    m.push_back({"", k, false, false, true, false, due, 0});
                }
                else
                {
                    if (!s.every(ns(c.interval), f))
                        sim::fail("C14", "every() without id refused");
                    m.push_back({"", k, false, true, true, false, now, c.interval});
                }
                key++;
                break;
            case EVERY:
            {
                i64 dl = c.arg ? c.delay : 0;
                bool r = c.arg ? s.every(std::move(id), ns(c.interval), ns(c.delay), f) : s.every(std::move(id), ns(c.interval), f);
                if (r != !x)
                    sim::fail("C14", "every(\"%s\") %s although a task with that id %s", idn[c.id], r ? "accepted" : "refused", x ? "is scheduled" : "is not scheduled");
                if (r)
                {
                    m.push_back({ids[c.id], k, true, true, true, false, now + dl, c.interval});
                    key++;
                }
                break;
            }
            case REMOVE:
            {
                bool r = s.remove_task(id);
                if (r != !!x)
                    sim::fail("C14", "remove_task(\"%s\") returned %d, the task %s", idn[c.id], r, x ? "is scheduled" : "is not scheduled");
                if (x)
                    m.erase(m.begin() + (x - &m[0]));
                break;
            }
            case SET_ENABLED:
            {
                bool r = s.set_enabled(id, c.arg);
                if (r != !!x)
                    sim::fail("C14", "set_enabled(\"%s\") returned %d, the task %s", idn[c.id], r, x ? "is scheduled" : "is not scheduled");
                if (x)
                    x->enabled = c.arg;
                break;
            }
            case UPDATE:
            {
                bool r = s.update_interval(id, ns(c.interval));
                if (r != (x && x->periodic))
                    sim::fail("C14", "update_interval(\"%s\") returned %d, the task %s", idn[c.id], r, !x ? "is not scheduled" : x->periodic ? "is periodic" : "is not periodic");
                if (r)
                {
                    if (x->started)
                    {
                        // previous due time, then as many new intervals as it takes
                        x->next += c.interval - x->interval;
                        while (now > x->next)
                            x->next += c.interval;
                    }
                    x->interval = c.interval;
                }
                break;
            }
            case SCHEDULED: break;
            }
            sim::wait_idle();
            advance(sim::now());
            // what can be observed agrees with the model
            for (int i = 0; i < 4; i++)
            {
                mtask* y = find(ids[i]);
                if (s.is_scheduled(ids[i]) != !!y)
                    sim::fail("C14", "is_scheduled(\"%s\") is %d after operation %d", idn[i], !y, ops);
                if (s.is_enabled(ids[i]) != (y && y->enabled))
                    sim::fail("C14", "is_enabled(\"%s\") is wrong after operation %d", idn[i], ops);
                auto iv = s.get_interval(ids[i]);
                if (iv.has_value() != (y && y->periodic) || (iv && iv->count() != y->interval))
                    sim::fail("C14", "get_interval(\"%s\") is wrong after operation %d", idn[i], ops);
            }
            if (s.tasks_size() != m.size())
                sim::fail("C14", "tasks_size() is %zu after operation %d, expected %zu", s.tasks_size(), ops, m.size());
        }
        t += 130 * MS + 300 * US;
        sleep_to(t);
        sim::wait_idle();
        advance(t);
        s.stop();
        for (int k = 0; k < key; k++)
        {
            i64 got = sim::get(COUNT + k), want = 0;
            for (auto& e : expect)
                if (e.key == k)
                {
                    if (want < got && want < HM)
                    {
                        i64 st = sim::get(HIST + k * HM + (int)want);
                        if (st < e.t || st > e.t + TOL)
                            sim::fail("C14", "start %lld of task %d happened at %lld ns, the operations performed imply %lld ns", (long long)want, k, (long long)(st - SEC), (long long)(e.t - SEC));
                    }
                    want++;
                }
            if (got != want)
                sim::fail("C14", "task %d was started %lld times, the operations performed imply %lld", k, (long long)got, (long long)want);
            if (want)
                sim::nontrivial();
        }
    });
}
// removal and disabling against a task that is just becoming due
SCENARIO(sched_remove, "sched.remove")
{
    int kind = (int)sim::draw(0, 3);  // 0 remove, 1 disable, 2 stop, 3 destroy
    bool periodic = sim::chance(1, 2);
    i64 off = sim::draw(-3, 3);
    int workers = (int)sim::draw(1, 2);
    sim::swarm_schedule_faults();
    static const i64 scales[] = {MS, 20 * MS};
    sim::swarm_time_faults(sim::one_of(scales));
    sim::nontrivial();
    enum { N = 1, GONE = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            auto s = std::make_unique<task_scheduler>();
            s->start(workers);
            std::optional<std::future<int>> f;
            i64 due = sim::now() + 10 * MS;
            // The task may already be in the hands of the pool when it is removed; but not one that becomes due afterwards.
            auto body = [c = tracked(7)] {
                sim::add(N);
                return c.get();
            };
            if (periodic)
                s->every(std::string("x"), ns(5 * MS), ns(10 * MS), body);
            else
                f = s->at(std::string("x"), at_ns(due), body);
            sleep_to(due + off * MS);
            bool r = true;
            i64 at = sim::now();
            bool surely_before = false;
            switch (kind)
            {
            case 0: r = s->remove_task("x"); break;
            case 1: r = s->set_enabled("x", false); break;
            case 2: s->stop(); break;
            case 3: s.reset(); break;
            }
            surely_before = sim::now() < due;
            i64 hits = sim::get(N);
            (void)at;
            if (surely_before && hits)
                sim::fail("C12", "a task ran before its time");
            if (kind == 1 && !periodic && r && s->is_enabled("x"))
                sim::fail("C14", "is_enabled() after set_enabled(false)");
            // let everything already handed to the pool finish, then nothing more may come
            sim::no_faults(true);
            sim::wait_idle();
            sleep_to(sim::now() + sim::cfg.stall_max + MS);
            i64 settled = sim::get(N);
            if (surely_before && r && settled)
                sim::fail(kind >= 2 ? "C15" : "C14", "a task that was %s before its time ran nevertheless", kind == 0 ? "removed" : kind == 1 ? "disabled" : "discarded by stop");
            if (kind >= 2 && settled != hits)
                sim::fail("C15", "a task ran after stop() had returned");
            sleep_to(sim::now() + 50 * MS);
            if (sim::get(N) != settled)
                sim::fail(kind >= 2 ? "C15" : "C14", "a task went on running after it had been %s", kind == 0 ? "removed" : kind == 1 ? "disabled" : "discarded by stop");
            if (f)
            {
                if (f->wait_for(0s) != std::future_status::ready)
                    sim::fail("C15", "the future of a task that is gone is still not ready");
                try
                {
                    if (f->get() != 7 || !settled)
                        sim::fail("C12", "wrong result");
                }
                catch (const std::future_error&)
                {
                    if (settled)
                        sim::fail("C12", "a task was executed and its promise broken");
                }
            }
            if (kind != 1 && r && tracked::live() > (kind >= 2 || settled == hits ? 1 : 1))
                sim::fail("C30", "%lld values captured by a removed task were not released", (long long)tracked::live());
            if (kind == 1 && periodic && r)
            {
                // enabling it again resumes it
                s->set_enabled("x", true);
                sleep_to(sim::now() + 12 * MS);
                if (sim::get(N) == settled)
                    sim::fail("C14", "a periodic task did not resume after set_enabled(true)");
            }
            s.reset();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C15: stop and restart --------------------------------------------------------------------------------------------------------
SCENARIO(sched_stop, "sched.stop")
{
    int rounds = (int)sim::draw(1, 3), workers = (int)sim::draw(1, 3), n = (int)sim::draw(0, 4), nc = (int)sim::draw(0, 2);
    bool dtor = sim::chance(1, 3);
    i64 when = sim::draw(0, 12);
    i64 longrun = sim::chance(1, 3) ? 7 * MS : 0;
    sim::swarm_schedule_faults();
    static const i64 scales[] = {MS, 20 * MS};
    sim::swarm_time_faults(sim::one_of(scales));
    sim::nontrivial();
    enum { ROUND = 1, STOPPED = 2, LATE = 3, BUSY = 4, NTASK = 5 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            auto s = std::make_unique<task_scheduler>();
            if (s->stop())
                sim::fail("C15", "stop() of a scheduler that was not started returned true");
            if (s->in(ns(MS), [] {}) || s->every(ns(MS), [] {}))
                sim::fail("C15", "a scheduler that was not started accepted a task");
            for (int r = 0; r < rounds; r++)
            {
                sim::set(STOPPED, 0);
                sim::set(ROUND, r);
                if (!s->start(workers))
                    sim::fail("C15", "start() of a stopped scheduler returned false");
                if (s->start(workers))
                    sim::fail("C15", "start() of a running scheduler returned true");
                auto body = [r, longrun, c = tracked(r)] {
                    sim::add(BUSY);
                    if (sim::get(STOPPED) || sim::get(ROUND) != r)
                        sim::fail("C15", "a task scheduled before stop() was started after it had returned");
                    if (longrun)
                        std::this_thread::sleep_for(ns(longrun));
                    c.get();
                    if (sim::get(STOPPED) || sim::get(ROUND) != r)
                        sim::fail("C15", "a task was still running after stop() had returned");
                    sim::add(BUSY, -1);
                };
                std::vector<std::optional<std::future<void>>> f;
                for (int i = 0; i < n; i++)
                    switch (i % 4)
                    {
                    case 0: f.push_back(s->in(ns(i * 3 * MS + 5 * MS), body)); break;
                    case 1: s->every(std::string("p" + std::to_string(i)), ns(4 * MS), body); break;
                    case 2: f.push_back(s->in(std::string("q" + std::to_string(i)), ns(1000 * HOUR), body)); break;
                    case 3: f.push_back(s->in(ns(0), body)); break;
                    }
                if (n > 1 && s->every(std::string("p1"), ns(MS), body))
                    sim::fail("C14", "a second task with the same id was accepted");
                clients c;
                std::vector<std::vector<std::optional<std::future<void>>>> cf(nc);
                if (!(dtor && r + 1 == rounds))
                    for (int t = 0; t < nc; t++)
                        c.go([&, t] {
                            for (int i = 0; i < 3; i++)
                            {
                                if (i == 1)
                                    s->every(std::string("c" + std::to_string(t)), ns(2 * MS), body);
                                else
                                    cf[t].push_back(s->in(ns(i * MS), body));
                            }
                        });
                sleep_to(sim::now() + when * MS);
                i64 before = sim::now(), slack = sim::total_slack();
                if (dtor && r + 1 == rounds)
                    s.reset();
                else if (!s->stop())
                    sim::fail("C15", "stop() of a running scheduler returned false");
                sim::set(STOPPED, 1);
                i64 took = sim::now() - before, allowed = sim::total_slack() - slack + longrun + TOL;
                if (took > allowed)
                    sim::fail("C15", "stop() took %lld ns of which %lld ns are explained by delays and running tasks", (long long)took, (long long)allowed);
                if (sim::get(BUSY))
                    sim::fail("C15", "stop() returned while %lld tasks were running", (long long)sim::get(BUSY));
                for (auto& x : f)
                {
                    if (!x)
                        sim::fail("C12", "a running scheduler refused a task");
                    if (x->wait_for(0s) != std::future_status::ready)
                        sim::fail("C15", "the future of a discarded task is not ready after stop()");
                }
                c.join();
                if (s)
                {
                    for (auto& v : cf)
                        for (auto& x : v)
                            if (x && x->wait_for(0s) != std::future_status::ready)
                                sim::fail("C15", "a task accepted while the scheduler was being stopped is neither executed nor discarded");
                    if (s->tasks_size() != 0)
                        sim::fail("C15", "%zu tasks are scheduled after stop()", s->tasks_size());
                    if (s->stop())
                        sim::fail("C15", "stop() of a stopped scheduler returned true");
                    if (s->in(ns(0), body) || s->every(std::string("z"), ns(MS), body) || s->at(clk::now(), body))
                        sim::fail("C15", "a stopped scheduler accepted a task");
                    if (s->is_scheduled("p1") || s->is_enabled("p1") || s->remove_task("p1") || s->set_enabled("p1", true) || s->get_interval("p1") || s->update_interval("p1", ns(MS)))
                        sim::fail("C15", "a task survived stop()");
                }
                f.clear();
                cf.clear();  // a future keeps its task alive
                if (tracked::live() != 1)
                    sim::fail("C30", "%lld values captured by discarded tasks were not released by stop()", (long long)tracked::live() - 1);
            }
            if (s)
            {
                // works as new, and what was discarded does not come back
                sim::set(ROUND, -1);
                sim::set(STOPPED, 0);
                if (!s->start(workers))
                    sim::fail("C15", "start() of a stopped scheduler returned false");
                auto v = s->in(ns(2 * MS), [] { return 9; });
                sleep_to(sim::now() + 30 * MS);
                if (!v || v->get() != 9)
                    sim::fail("C15", "a restarted scheduler does not work");
            }
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// several threads start, stop and use one scheduler
SCENARIO(sched_lifecycle, "sched.lifecycle")
{
    enum { START = 1, STOP, ADD, ADDP, SIZE };
    enum { NEXT = 1, STATE = 3000 };
    int nc = (int)sim::draw(2, 3);
    std::vector<std::vector<int>> sc(nc);
    for (auto& v : sc)
    {
        int n = (int)sim::draw(2, 5);
        for (int i = 0; i < n; i++)
        {
            static const i64 k[] = {ADD, START, STOP, ADDP, START, STOP, SIZE};
            v.push_back((int)sim::one_of(k));
        }
    }
    bool started = sim::chance(2, 3);
    i64 lasting = sim::chance(1, 3) ? 2 * MS : 0, pause = sim::chance(1, 2) ? MS : 0;
    int workers = (int)sim::draw(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            task_scheduler s;
            struct entry
            {
                std::future<int> f;
                int id;
            };
            std::vector<entry> futures[4];
            auto start = [&] {
                int o = sim::op_begin(START);
                bool r = s.start(workers);
                sim::op_end(o, r);
            };
            auto stop = [&] {
                int o = sim::op_begin(STOP);
                bool r = s.stop();
                sim::op_end(o, r);
            };
            auto body = [&](int id) {
                return [id, lasting, c = tracked(id)] {
                    sim::ev(100, id);
                    sim::add(STATE + id);
                    if (lasting)
                        std::this_thread::sleep_for(ns(lasting));
                    c.get();
                    sim::ev(101, id);
                    return id;
                };
            };
            auto add = [&](int t, bool periodic) {
                int id = (int)sim::add(NEXT);
                int o = sim::op_begin(ADD, id);
                bool ok;
                if (periodic)
                    ok = s.every(std::string("p" + std::to_string(id)), ns(MS), body(id));
                else
                {
                    auto f = s.in(ns((id % 3) * MS), body(id));
                    ok = f.has_value();
                    if (ok)
                        futures[t].push_back({std::move(*f), id});
                }
                sim::op_end(o, ok);
            };
            if (started)
                start();
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (int k : sc[t])
                    {
                        if (k == START)
                            start();
                        else if (k == STOP)
                            stop();
                        else if (k == SIZE)
                            s.tasks_size();
                        else
                            add(t, k == ADDP);
                        if (pause)
                            std::this_thread::sleep_for(ns(pause));
                    }
                });
            c.join();
            stop();
            if (s.stop())
                sim::fail("C15", "stop() of a stopped scheduler returned true");
            if (s.tasks_size())
                sim::fail("C15", "%zu tasks are scheduled after stop()", s.tasks_size());
            for (auto& v : futures)
                for (auto& e : v)
                {
                    if (e.f.wait_for(0s) != std::future_status::ready)
                        sim::fail("C15", "task %d, which was accepted, is neither executed nor discarded after stop()", e.id);
                    bool broken = false;
                    try
                    {
                        if (e.f.get() != e.id)
                            sim::fail("C12", "task %d has the result of another task", e.id);
                    }
                    catch (const std::future_error&)
                    {
                        broken = true;
                    }
                    if (sim::get(STATE + e.id) != !broken)
                        sim::fail("C12", "task %d was executed %lld times, its promise %s", e.id, (long long)sim::get(STATE + e.id), broken ? "was broken" : "was kept");
                }
            start();
            auto f = s.in(ns(MS), [] { return 9; });
            if (!f || f->get() != 9)
                sim::fail("C15", "a restarted scheduler does not work");
            stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
    // start() and stop() that return true alternate in some order; false only needs a start or stop that overlaps or the right state
    const op* ops = sim::ops();
    int n = sim::op_count(), m = 0;
    static op life[64];
    for (int i = 0; i < n && m < 60; i++)
        if (ops[i].kind != ADD && ops[i].res)
            life[m++] = ops[i];
    struct state
    {
        int32_t on;
    } s0{};
    if (!linearizable(life, m, s0, [](state& s, const op& o, bool) {
            if ((s.on != 0) == (o.kind == START))
                return false;
            s.on = o.kind == START;
            return true;
        }))
        sim::fail("C15", "start() and stop() returned true without alternating");
    const sim::event* ev = sim::events();
    for (int i = 0; i < n; i++)
        if (ops[i].kind == STOP && ops[i].res)
            for (int j = 0; j < n; j++)
                if (ops[j].kind == ADD && ops[j].res && ops[j].ret < ops[i].inv)
                    for (size_t k = 0; k < sim::event_count(); k++)
                        if ((ev[k].kind == 100 || ev[k].kind == 101) && ev[k].a == ops[j].a && ev[k].seq > ops[i].ret)
                            sim::fail("C15", "task %lld was scheduled before stop() and still %s after it had returned", (long long)ev[k].a, ev[k].kind == 100 ? "started" : "ran");
}

// ---- C16: failing and slow tasks ------------------------------------------------------------------------------------------------------
SCENARIO(sched_contain, "sched.contain")
{
    int workers = (int)sim::draw(2, 4);
    int slow = (int)sim::draw(0, workers - 1);
    bool throwing = sim::chance(2, 3);
    i64 dur = sim::draw(1, 60) * MS;
    static const i64 ivs[] = {5 * MS, 2 * MS, 20 * MS};
    i64 I = sim::one_of(ivs);
    int thrown = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { K = 1, T = 2, LAST = 3, S = 4 };
    sim::run([&] {
        task_scheduler s;
        s.start(workers);
        i64 t0 = sim::now();
        s.every(ns(I), [=] {
            i64 k = sim::add(K) - 1;
            i64 want = t0 + k * I;
            if (sim::now() < want || sim::now() > want + TOL)
                sim::fail("C16", "with %d slow%s tasks on %d workers, start %lld of a periodic task is %lld ns off", slow, throwing ? " and some failing" : "", workers, (long long)k, (long long)(sim::now() - want));
        });
        std::vector<std::optional<std::future<int>>> f;
        if (throwing)
            for (int i = 0; i < thrown; i++)
            {
                s.every(std::string("t" + std::to_string(i)), ns(I * (i + 1)), [] {
                    sim::add(T);
                    sim::count(sim::F_USER_THROW);
                    throw std::runtime_error("a periodic task fails");
                });
                f.push_back(s.in(ns(i * MS), [i]() -> int { throw oops(i); }));
            }
        for (int i = 0; i < slow; i++)
            s.in(ns(MS * i), [dur] {
                sim::count(sim::F_USER_SLOW);
                std::this_thread::sleep_for(ns(dur));
                sim::add(S);
            });
        sleep_to(t0 + 10 * I + I / 2);
        if (sim::get(K) != 11)
            sim::fail("C16", "a periodic task was started %lld times in 10.5 intervals", (long long)sim::get(K));
        i64 want = 0;
        if (throwing)
            for (int i = 0; i < thrown; i++)
                want += 10 / (i + 1) + 1;
        if (sim::get(T) != want)
            sim::fail("C16", "failing periodic tasks were started %lld times instead of %lld", (long long)sim::get(T), (long long)want);
        for (size_t i = 0; i < f.size(); i++)
            try
            {
                f[i]->get();
                sim::fail("C16", "the exception of a one-shot task was lost");
            }
            catch (const oops& e)
            {
                if (e.id != (int)i)
                    sim::fail("C16", "the wrong exception arrived");
            }
        sleep_to(t0 + dur + 200 * MS);
        if (sim::get(S) != slow)
            sim::fail("C16", "%lld of %d slow tasks finished", (long long)sim::get(S), slow);
        s.stop();
    });
}

// ---- C07 ----------------------------------------------------------------------------------------------------------------------------
SCENARIO(sched_create, "sched.createfail")
{
    int workers = (int)sim::draw(1, 4), tries = (int)sim::draw(1, 3);
    bool dtor = sim::chance(1, 4);
    sim::swarm_schedule_faults();
    static const i64 rates[] = {2, 3, 5};
    sim::cfg.rate[sim::F_CREATE_FAIL] = (int)sim::one_of(rates);
    sim::run([&] {
        task_scheduler s;
        bool running = false;
        for (int i = 0; i < tries && !running; i++)
        {
            int before = sim::threads_alive();
            sim::set_create_faults(true);
            try
            {
                running = s.start(workers);
                sim::set_create_faults(false);
                if (!running)
                    sim::fail("C07", "start() returned false on a stopped scheduler");
            }
            catch (const std::system_error&)
            {
                sim::set_create_faults(false);
                sim::nontrivial();
                if (sim::threads_alive() != before)
                    sim::fail("C07", "start() of a scheduler threw and left %d threads behind", sim::threads_alive() - before);
                if (s.in(ns(0), [] {}))
                    sim::fail("C07", "start() of a scheduler threw, and the scheduler accepts tasks");
                if (s.stop())
                    sim::fail("C07", "start() of a scheduler threw, then stop() claims to have stopped it");
            }
        }
        if (dtor && !running)
            return;
        if (!running && !s.start(workers))
            sim::fail("C07", "start() after a failed start() returned false");
        auto f = s.in(ns(MS), [] { return 5; });
        if (!f)
            sim::fail("C07", "a scheduler started after a failed start() refuses tasks");
        sleep_to(sim::now() + 2 * MS);
        if (f->wait_for(0s) != std::future_status::ready || f->get() != 5)
            sim::fail("C07", "a scheduler started after a failed start() does not run tasks");
        if (!s.stop())
            sim::fail("C07", "stop() returned false");
    });
}

// ---- C32: tasks that use their scheduler --------------------------------------------------------------------------------------------------
SCENARIO(sched_reentrant, "sched.reentrant")
{
    int workers = (int)sim::draw(1, 3), depth = (int)sim::draw(1, 6), mode = (int)sim::draw(0, 3);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { CHAIN = 1, SELF = 2, P = 3 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            task_scheduler s;
            s.start(workers);
            std::function<void(int)> chain = [&](int d) {
                sim::add(CHAIN);
                if (d && !s.in(ns(MS), chain, d - 1))
                    sim::fail("C32", "a task could not schedule another one");
            };
            s.in(ns(MS), chain, depth);
            // a periodic task that ends, disables or changes itself
            s.every(std::string("self"), ns(5 * MS), [&, t = tracked(1)] {
                i64 k = sim::add(SELF);
                if (k == 3)
                {
                    bool r = true;
                    switch (mode)
                    {
                    case 0: r = s.remove_task("self"); break;
                    case 1: r = s.set_enabled("self", false); break;
                    case 2: r = s.update_interval("self", ns(1000 * MS)); break;
                    case 3: r = s.is_scheduled("self") && s.tasks_size() >= 1 && s.get_interval("self"); break;
                    }
                    if (!r)
                        sim::fail("C32", "a periodic task cannot control itself (operation %d)", mode);
                }
                t.get();
            });
            sleep_to(sim::now() + 62 * MS);
            if (sim::get(CHAIN) != depth + 1)
                sim::fail("C32", "tasks that schedule tasks: %lld of %d ran", (long long)sim::get(CHAIN), depth + 1);
            if (sim::get(SELF) != (mode == 3 ? 13 : 3))
                sim::fail("C32", "a periodic task that %s itself at its third start was started %lld times", mode == 0 ? "removes" : mode == 1 ? "disables" : mode == 2 ? "slows down" : "queries", (long long)sim::get(SELF));
            s.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// tasks that use their scheduler while it is being stopped or destroyed
SCENARIO(sched_busystop, "sched.busystop")
{
    int workers = (int)sim::draw(1, 3), rounds = (int)sim::draw(1, 2), n = (int)sim::draw(1, 4);
    bool destroy = sim::chance(1, 3), periodic = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    enum { BUSY = 1, STARTED = 2, STOPPED = 3, STOPPING = 4 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            task_scheduler s;
            for (int r = 0; r < rounds; r++)
            {
                sim::set(STARTED, 0);
                sim::set(STOPPED, 0);
                sim::set(STOPPING, 0);
                if (!s.start(workers))
                    sim::fail("C15", "start() returned false on a stopped scheduler");
                auto body = [&, t = tracked(2)] {
                    if (sim::get(STOPPED))
                        sim::fail("C15", "a task was started after stop() had returned");
                    sim::add(BUSY);
                    sim::add(STARTED);
                    for (int i = 0; i < n || (!sim::get(STOPPING) && i < 1000); i++)
                    {
                        if (i < n)
                        {
                            std::string id = "x" + std::to_string(i);
                            s.in(std::string(id), ns(i * 3000), [u = tracked(3)] { u.get(); });
                            s.every(ns(100 * MS), [u = tracked(4)] { u.get(); });
                            s.is_scheduled(id);
                            s.set_enabled(id, false);
                            s.is_enabled(id);
                            s.get_interval(id);
                            s.update_interval("p", ns(MS));
                            s.tasks_size();
                            s.remove_task(id);
                        }
                        std::this_thread::sleep_for(2us);
                    }
                    t.get();
                    sim::add(BUSY, -1);
                };
                if (periodic)
                    s.every(std::string("p"), ns(20 * US), body);
                else
                    for (int i = 0; i < 2; i++)
                        s.in(ns(i * 2000), body);
                while (!sim::get(STARTED))
                    std::this_thread::sleep_for(1us);
                sim::set(STOPPING, 1);
                if (destroy && r == rounds - 1)
                    break;
                if (!s.stop())
                    sim::fail("C15", "stop() returned false on a running scheduler");
                sim::set(STOPPED, 1);
                if (sim::get(BUSY))
                    sim::fail("C15", "stop() returned while a task was running");
                if (s.tasks_size())
                    sim::fail("C15", "%zu tasks are scheduled after stop()", s.tasks_size());
            }
        }
        if (sim::get(BUSY))
            sim::fail("C15", "the scheduler was destroyed while a task was running");
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
}

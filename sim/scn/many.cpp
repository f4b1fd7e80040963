// Several objects of one class: each behaves as if the others did not exist, also while others are blocked, fail, or are stopped.
#include "scn.h"

#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <future>
#include <memory>
#include <mutex>
#include <optional>
#include <set>

using namespace scn;
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
const char* const TAG = "C38";
constexpr i64 MS = 1000000, SEC = 1000 * MS, HOUR = 3600 * SEC;

struct gate
{
    std::mutex m;
    std::condition_variable cv;
    bool open = false;
    void wait()
    {
        std::unique_lock l(m);
        cv.wait(l, [&] { return open; });
    }
    void go()
    {
        {
            std::lock_guard l(m);
            open = true;
        }
        cv.notify_all();
    }
};

// Some pools are stuck, full, stopped or destroyed; in the others everything is done at once.
SCENARIO(many_pools, "many.pools")
{
    int k = (int)sim::draw(2, 4), rounds = (int)sim::draw(1, 4);
    struct one
    {
        int w, n, what;
    };
    std::vector<std::vector<one>> sc(rounds, std::vector<one>(k));
    for (auto& r : sc)
        for (auto& x : r)
        {
            x.w = (int)sim::draw(1, 4);
            x.n = (int)sim::draw(0, 5);
            x.what = (int)sim::draw(0, 6);
        }
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        std::vector<std::unique_ptr<tc::sdk::thread_pool>> pools(k);
        std::vector<std::thread> stopping(k);
        std::set<int> stuck, stopped;
        std::vector<std::unique_ptr<gate>> gates(k);
        for (int i = 0; i < k; i++)
            pools[i] = std::make_unique<tc::sdk::thread_pool>();
        std::vector<int> workers(k);
        std::vector<std::vector<std::future<int>>> waiting(k);
        for (int r = 0; r < rounds; r++)
        {
            for (int i = 0; i < k; i++)
            {
                const one& x = sc[r][i];
                auto& p = *pools[i];
                if (stopping[i].joinable())
                    continue;
                if (!workers[i])
                {
                    if (!p.start(x.w))
                        sim::fail(TAG, "pool %d could not be started", i);
                    workers[i] = x.w;
                }
                else if (p.start(x.w))
                    sim::fail(TAG, "a pool that runs was started");
                // stuck: all of its workers wait, and more tasks are queued
                if (x.what == 1 && !gates[i])
                {
                    gates[i] = std::make_unique<gate>();
                    for (int j = 0; j < workers[i] + x.n; j++)
                        waiting[i].push_back(p.run([g = gates[i].get(), j] {
                            g->wait();
                            return j;
                        }));
                }
                else if (x.what == 2 && !gates[i])
                {
                    if (!p.stop())
                        sim::fail(TAG, "stop() of pool %d, which runs, returned false", i);
                    workers[i] = 0;
                }
                else if (x.what == 3 && !gates[i])
                {
                    pools[i] = std::make_unique<tc::sdk::thread_pool>();
                    workers[i] = 0;
                }
                // somebody waits in stop() for the end of its tasks
                else if (x.what >= 5 && gates[i])
                {
                    stopping[i] = std::thread([&p, i] {
                        if (!p.stop())
                            sim::fail(TAG, "stop() of pool %d, which runs, returned false", i);
                    });
                    sim::wait_idle();
                }
                else if (x.what == 4)
                    p.run([] { throw std::runtime_error("a task fails"); });
            }
            // whatever happened to some, the others work
            for (int i = 0; i < k; i++)
            {
                auto& p = *pools[i];
                if (stopping[i].joinable())
                    continue;
                if (p.is_running() != (workers[i] > 0) || p.threads_count() != (size_t)workers[i])
                    sim::fail(TAG, "pool %d %s with %zu threads instead of %d", i, p.is_running() ? "runs" : "does not run", p.threads_count(), workers[i]);
                if (!workers[i] || gates[i])
                    continue;
                std::vector<std::future<int>> f;
                for (int j = 0; j < sc[r][i].n; j++)
                    f.push_back(p.run([](int a, int b) { return a * 100 + b; }, i, j));
                sim::wait_idle();
                for (int j = 0; j < (int)f.size(); j++)
                    if (f[j].wait_for(0s) != std::future_status::ready)
                        sim::fail(TAG, "a task of pool %d is not run although only other pools are busy or stopped", i);
                    else if (f[j].get() != i * 100 + j)
                        sim::fail("C04", "wrong result");
            }
            if (r + 1 == rounds || r % 2)
                for (int i = 0; i < k; i++)
                    if (gates[i])
                    {
                        gates[i]->go();
                        bool dropped = stopping[i].joinable();
                        if (dropped)
                        {
                            stopping[i].join();
                            workers[i] = 0;
                        }
                        for (int j = 0; j < (int)waiting[i].size(); j++)
                            try
                            {
                                if (waiting[i][j].get() != j)
                                    sim::fail("C04", "wrong result");
                            }
                            catch (const std::future_error&)
                            {
                                if (!dropped)
                                    throw;
                            }
                        waiting[i].clear();
                        gates[i].reset();
                    }
        }
    });
}

// The ids of one scheduler mean nothing to another; its tasks, its workers, its end neither.
SCENARIO(many_scheds, "many.scheds")
{
    int k = (int)sim::draw(2, 3), n = (int)sim::draw(2, 20);
    enum { ONCE, EVERY, REMOVE, DISABLE, ENABLE, STOP, START, DESTROY, STICK, KINDS };
    struct step
    {
        int who, kind, name;
        i64 pause;
    };
    std::vector<step> sc;
    for (int i = 0; i < n; i++)
    {
        static const i64 kinds[] = {ONCE, EVERY, ONCE, EVERY, REMOVE, DISABLE, ENABLE, STOP, START, DESTROY, STICK};
        static const i64 pauses[] = {0, 3 * MS, 17 * MS};
        int who = (int)sim::draw(0, k - 1), kind = (int)sim::one_of(kinds), name = (int)sim::draw(0, 2);
        sc.push_back({who, kind, name, sim::one_of(pauses)});
    }
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        // per scheduler and id: what is known of the task
        struct task
        {
            bool present = false, enabled = true;
            i64 interval = 0;  // 0: once
            i64 next = 0;      // due time
            i64 due = 0;       // number of starts so far
            int cell = 0;
        };
        struct model
        {
            bool running = false, stuck = false;
            task t[3];
        };
        std::vector<model> m(k);
        std::vector<std::unique_ptr<tc::sdk::task_scheduler>> s(k);
        int cells = 100;
        gate open_at_the_end;
        auto name = [](int i) { return "the task " + std::to_string(i); };
        auto start = [&](int i) {
            if (!s[i]->start(1))
                sim::fail(TAG, "scheduler %d could not be started", i);
            m[i].running = true;
        };
        for (int i = 0; i < k; i++)
        {
            s[i] = std::make_unique<tc::sdk::task_scheduler>();
            start(i);
        }
        auto advance = [&](i64 now) {
            for (auto& x : m)
                for (auto& t : x.t)
                    while (t.present && t.next <= now)
                    {
                        t.due += t.enabled && !x.stuck;
                        if (t.interval)
                            t.next += t.interval;
                        else
                            t.present = false;
                    }
        };
        auto clear = [&](int i) {
            for (auto& t : m[i].t)
                t.present = false;
            m[i].running = false;
        };
        for (const step& x : sc)
        {
            auto& sch = *s[x.who];
            auto& me = m[x.who];
            auto& t = me.t[x.name];
            switch (x.kind)
            {
            case ONCE:
            case EVERY:
            {
                i64 now = sim::now();
                int cell = cells++;
                auto body = [cell] { sim::add(cell); };
                bool r = x.kind == ONCE ? sch.at(name(x.name), tc::sdk::clock::time_point(ns(now + 10 * MS)), body).has_value() : sch.every(name(x.name), ns(10 * MS), ns(10 * MS), body);
                if (r != (me.running && !t.present))
                    sim::fail(TAG, "scheduler %d %s a task of id %d which %s there", x.who, r ? "accepts" : "refuses", x.name, t.present ? "is" : "is not");
                if (r)
                    t = {true, true, x.kind == EVERY ? 10 * MS : 0, now + 10 * MS, 0, cell};
                break;
            }
            case REMOVE:
                if (sch.remove_task(name(x.name)) != t.present)
                    sim::fail(TAG, "remove_task() returned %d", !t.present);
                t.present = false;
                break;
            case DISABLE:
            case ENABLE:
                if (sch.set_enabled(name(x.name), x.kind == ENABLE) != t.present)
                    sim::fail(TAG, "set_enabled() returned %d", !t.present);
                t.enabled = x.kind == ENABLE;
                break;
            case STOP:
                if (me.stuck)
                    break;
                if (sch.stop() != me.running)
                    sim::fail(TAG, "stop() returned %d", !me.running);
                clear(x.who);
                break;
            case START:
                if (!me.running)
                    start(x.who);
                break;
            case DESTROY:
                if (me.stuck)
                    break;
                s[x.who] = std::make_unique<tc::sdk::task_scheduler>();
                clear(x.who);
                break;
            case STICK:
                if (!me.running || me.stuck)
                    break;
                sch.in(0ns, [&] { open_at_the_end.wait(); });
                sim::wait_idle();
                me.stuck = true;
                break;
            }
            std::this_thread::sleep_for(ns(x.pause));
            sim::wait_idle();
            // due times are 10 ms after some step, steps take microseconds at most: no due time is near now, apart from chance
            i64 now = sim::now();
            for (auto& y : m)
                for (auto& z : y.t)
                    if (z.present && std::abs(z.next - now) < MS / 2)
                    {
                        std::this_thread::sleep_for(1ms);
                        sim::wait_idle();
                        now = sim::now();
                    }
            advance(now);
            for (int i = 0; i < k; i++)
            {
                size_t size = 0;
                for (int j = 0; j < 3; j++)
                {
                    task& z = m[i].t[j];
                    size += z.present;
                    if (s[i]->is_scheduled(name(j)) != z.present)
                        sim::fail(TAG, "scheduler %d: task %d %s scheduled", i, j, z.present ? "is not" : "is");
                    if (z.cell && sim::get(z.cell) != z.due)
                        sim::fail(TAG, "scheduler %d: task %d was started %lld times instead of %lld", i, j, (long long)sim::get(z.cell), (long long)z.due);
                }
                if (s[i]->tasks_size() != size)
                    sim::fail(TAG, "scheduler %d has %zu tasks instead of %zu", i, s[i]->tasks_size(), size);
            }
        }
        open_at_the_end.go();
    });
}

// Timers with intervals, callbacks and counters of their own.
SCENARIO(many_timers, "many.timers")
{
    int k = (int)sim::draw(2, 4), n = (int)sim::draw(2, 14);
    enum { SET, START, STOP, DESTROY };
    struct step
    {
        int who, kind;
        i64 interval;
    };
    std::vector<step> sc;
    for (int i = 0; i < n; i++)
    {
        static const i64 intervals[] = {10 * MS, 7 * MS, 3 * MS};
        static const i64 kinds[] = {START, SET, START, STOP, DESTROY};
        int who = (int)sim::draw(0, k - 1), kind = (int)sim::one_of(kinds);
        sc.push_back({who, kind, sim::one_of(intervals)});
    }
    bool stuck = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        struct model
        {
            bool running = false;
            i64 interval = 0, since = 0, calls = 0;
            int cell = 0;
        };
        gate g;
        tc::sdk::high_precision_timer victim;
        if (stuck)
        {
            victim.set_callback([&] { g.wait(); });
            victim.start(1ms);
        }
        std::vector<model> m(k);
        std::vector<std::unique_ptr<tc::sdk::high_precision_timer>> t(k);
        for (auto& x : t)
            x = std::make_unique<tc::sdk::high_precision_timer>();
        int cells = 100;
        for (const step& x : sc)
        {
            model& y = m[x.who];
            auto& timer = *t[x.who];
            switch (x.kind)
            {
            case SET:
                timer.set_callback([c = cells] { sim::add(c); });
                y.cell = cells++;
                y.calls = -1;  // as many as the timer counts from now on
                break;
            case START:
                if (timer.start(ns(x.interval)) != (y.cell > 0))
                    sim::fail(TAG, "start() returned %d", y.cell == 0);
                if (y.cell)
                {
                    y.running = true;
                    y.interval = x.interval;
                    y.since = sim::now();
                }
                break;
            case STOP:
                timer.stop();
                y.running = false;
                break;
            case DESTROY:
                t[x.who] = std::make_unique<tc::sdk::high_precision_timer>();
                y = {};
                break;
            }
            std::vector<i64> before(k), counted(k);
            for (int i = 0; i < k; i++)
            {
                before[i] = m[i].cell ? sim::get(m[i].cell) : 0;
                counted[i] = (i64)t[i]->invoked_callback_count();
            }
            i64 t0 = sim::now();
            std::this_thread::sleep_for(42ms);
            sim::wait_idle();
            for (int i = 0; i < k; i++)
            {
                const model& z = m[i];
                i64 calls = z.cell ? sim::get(z.cell) - before[i] : 0, count = (i64)t[i]->invoked_callback_count() - counted[i];
                i64 least = 0, most = 0;
                if (z.running)
                {
                    i64 d = sim::now() - t0;
                    least = d / z.interval - 1;
                    most = d / z.interval + 2;
                }
                if (calls < least || calls > most || calls != count)
                    sim::fail(TAG, "timer %d, which %s, called its callback %lld times in 42 ms and counted %lld", i, z.running ? "runs" : "does not run", (long long)calls, (long long)count);
                if (t[i]->missed_callback_count() && z.running)
                    sim::fail(TAG, "timer %d counts %llu missed callbacks", i, (unsigned long long)t[i]->missed_callback_count());
            }
        }
        g.go();
    });
}

// Events of the same name at several dispatchers; one of them is stuck, stopped or destroyed.
SCENARIO(many_dispatchers, "many.dispatchers")
{
    int k = (int)sim::draw(2, 3), n = (int)sim::draw(2, 24);
    enum { ADD, EMIT, REMOVE, REMOVE_EVENT, STOP, START, DESTROY, STICK };
    struct step
    {
        int who, kind;
    };
    std::vector<step> sc;
    for (int i = 0; i < n; i++)
    {
        static const i64 kinds[] = {ADD, EMIT, ADD, EMIT, EMIT, REMOVE, REMOVE_EVENT, STOP, START, DESTROY, STICK};
        int who = (int)sim::draw(0, k - 1);
        sc.push_back({who, (int)sim::one_of(kinds)});
    }
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        struct model
        {
            bool running = false, stuck = false;
            std::deque<unsigned long> ids;
            i64 calls = 0;
        };
        gate g;
        std::vector<model> m(k);
        std::vector<std::unique_ptr<tc::sdk::event_dispatcher>> d(k);
        for (int i = 0; i < k; i++)
        {
            d[i] = std::make_unique<tc::sdk::event_dispatcher>();
            m[i].running = d[i]->start(1);
        }
        for (const step& x : sc)
        {
            model& y = m[x.who];
            auto& e = *d[x.who];
            switch (x.kind)
            {
            case ADD:
                if (y.running)
                    y.ids.push_back(e.add_handler<int>("the event", [who = x.who](int v) {
                        if (v != who)
                            sim::fail(TAG, "a handler of dispatcher %d got an event of dispatcher %d", who, v);
                        sim::add(who + 1);
                    }));
                break;
            case EMIT:
                if (!y.running || y.stuck)
                    break;
                if (e.emit<int>("the event", int(x.who)) != !y.ids.empty())
                    sim::fail(TAG, "emit() returned %d", y.ids.empty());
                y.calls += (i64)y.ids.size();
                break;
            case REMOVE:
                if (!y.ids.empty())
                {
                    if (!e.remove_handler(y.ids.front()))
                        sim::fail(TAG, "remove_handler() returned false");
                    y.ids.pop_front();
                }
                break;
            case REMOVE_EVENT:
                if (e.remove_event("the event") != !y.ids.empty())
                    sim::fail(TAG, "remove_event() returned %d", y.ids.empty());
                y.ids.clear();
                break;
            case STOP:
                if (y.stuck)
                    break;
                if (e.stop() != y.running)
                    sim::fail(TAG, "stop() returned %d", !y.running);
                y.running = false;
                y.ids.clear();
                break;
            case START:
                if (e.start(1) != !y.running)
                    sim::fail(TAG, "start() returned %d", y.running);
                y.running = true;
                break;
            case DESTROY:
                if (y.stuck)
                    break;
                d[x.who] = std::make_unique<tc::sdk::event_dispatcher>();
                y.running = false;
                y.ids.clear();
                break;
            case STICK:
                if (!y.running || y.stuck)
                    break;
                e.add_handler<>("stick", [&] { g.wait(); });
                e.emit<>("stick");
                y.stuck = true;
                break;
            }
            sim::wait_idle();
            for (int i = 0; i < k; i++)
                if (sim::get(i + 1) != m[i].calls)
                    sim::fail(TAG, "the handlers of dispatcher %d were called %lld times instead of %lld", i, (long long)sim::get(i + 1), (long long)m[i].calls);
        }
        g.go();
    });
}

// Values, queues, cadences, stopwatches, parsers.
SCENARIO(many_values, "many.values")
{
    int n = (int)sim::draw(2, 30), k = (int)sim::draw(2, 3);
    struct step
    {
        int kind, who, value;
    };
    std::vector<step> sc;
    for (int i = 0; i < n; i++)
    {
        int kind = (int)sim::draw(0, 8), who = (int)sim::draw(0, k - 1);
        sc.push_back({kind, who, (int)sim::draw(0, 3)});
    }
    std::vector<int> caps(k), rates(k);
    for (int i = 0; i < k; i++)
    {
        caps[i] = (int)sim::draw(1, 4);
        static const i64 some[] = {10, 1, 50, 1000};
        rates[i] = (int)sim::one_of(some);
    }
    bool stuck = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        gate g;
        clients c;
        using obs = tc::sdk::observable<int>;
        struct object
        {
            std::unique_ptr<obs> o;
            int value = 0;
            bool on = true;
            std::vector<int> seen, want;
            std::unique_ptr<tc::sdk::blocking_queue<int>> q;
            std::deque<int> items;
            std::unique_ptr<tc::sdk::rate_limiter> r;
            i64 created = 0, frames = 0;
            std::unique_ptr<tc::sdk::stopwatch> w;
            i64 since = 0;
        };
        std::vector<object> v(k);
        for (int i = 0; i < k; i++)
        {
            object& x = v[i];
            x.o = std::make_unique<obs>(0, [&x](const int& y) { x.seen.push_back(y); });
            x.q = std::make_unique<tc::sdk::blocking_queue<int>>(caps[i]);
            x.created = sim::now();
            x.r = std::make_unique<tc::sdk::rate_limiter>(rates[i]);
            x.since = sim::now();
            x.w = std::make_unique<tc::sdk::stopwatch>();
        }
        obs blocked(0, [&](const int&) { g.wait(); });
        tc::sdk::blocking_queue<int> empty(1), full(1);
        tc::sdk::rate_limiter slow(1);
        if (stuck)
        {
            full.push(1);
            c.go([&] { blocked = 1; });
            c.go([&] { empty.pop(); });
            c.go([&] { full.push(2); });
            sim::wait_idle();
        }
        for (const step& s : sc)
        {
            object& x = v[s.who];
            switch (s.kind)
            {
            case 0:
            case 1:
                if (x.value != s.value && x.on)
                    x.want.push_back(s.value);
                x.value = s.value;
                *x.o = s.value;
                break;
            case 2:
                x.on = s.value > 1;
                x.o->callback_enabled(x.on);
                break;
            case 3:
            {
                bool fits = (int)x.items.size() < caps[s.who];
                if (x.q->try_push(s.value) != fits)
                    sim::fail(TAG, "try_push() returned %d", !fits);
                if (fits)
                    x.items.push_back(s.value);
                break;
            }
            case 4:
            {
                auto y = x.q->try_pop();
                if (y.has_value() != !x.items.empty() || (y && *y != x.items.front()))
                    sim::fail(TAG, "try_pop() gave something else than this queue holds");
                if (y)
                    x.items.pop_front();
                break;
            }
            case 5:
            {
                i64 before = sim::now();
                x.r->sync();
                x.frames++;
                i64 due = std::max(before, x.created + x.frames * SEC / rates[s.who]);
                if (sim::now() < due || sim::now() > due + MS)
                    sim::fail(TAG, "frame %lld of a limiter of %d frames per second ends %lld ns after its time", (long long)x.frames, rates[s.who], (long long)(sim::now() - due));
                break;
            }
            case 6:
                x.w->reset();
                x.since = sim::now();
                break;
            case 7: std::this_thread::sleep_for(ns(s.value * 30 * MS)); break;
            case 8: break;
            }
            for (int i = 0; i < k; i++)
            {
                object& y = v[i];
                if (y.seen != y.want || int(*y.o) != y.value)
                    sim::fail(TAG, "observable %d has the value %d instead of %d and told of %zu changes instead of %zu", i, int(*y.o), y.value, y.seen.size(), y.want.size());
                if (y.q->size() != y.items.size() || y.q->capacity() != (size_t)caps[i])
                    sim::fail(TAG, "queue %d has the size %zu instead of %zu, and the capacity %zu instead of %d", i, y.q->size(), y.items.size(), y.q->capacity(), caps[i]);
                if (std::abs(std::chrono::duration_cast<ns>(y.w->elapsed()).count() - (sim::now() - y.since)) > MS)
                    sim::fail(TAG, "stopwatch %d shows another time", i);
            }
        }
        g.go();
        if (stuck)
        {
            empty.push(1);
            full.pop();
        }
        c.join();
    });
}
}

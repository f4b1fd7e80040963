// Long histories of each component: what only shows after hundreds or tens of thousands of operations, ticks or restarts
// (counters that wrap, identities given out again, drift, tables that fill up, slow leaks).
#include "scn.h"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <deque>
#include <future>
#include <memory>
#include <optional>
#include <unordered_set>

using namespace scn;
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS;

// lengths around the limits of small types, mostly modest
int draw_length(int most)
{
    static const i64 sizes[] = {10, 40, 70, 130, 260, 300, 520, 700, 1030, 2050, 4100, 5000, 10000, 20000, 33000, 40000, 66000, 70000, 132000};
    int k = sim::chance(1, 6) ? 19 : sim::chance(1, 2) ? 11 : 7;
    return (int)std::min<i64>(most, sizes[sim::draw(0, k - 1)]);
}
// a generator whose draws are not recorded one by one
struct rnd
{
    uint64_t x;
    rnd() : x(sim::fresh_seed() | 1) {}
    uint64_t operator()(uint64_t n)
    {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return (x * 0x9E3779B97F4A7C15ull >> 33) % n;
    }
};
void long_run(bool faults = true)
{
    sim::cfg.step_cap = 2'000'000'000;
    if (faults)
        sim::swarm_schedule_faults();
    sim::nontrivial();
}
void pause_a_little() { std::this_thread::sleep_for(1us); }
void sleep_to(i64 t)
{
    if (t > sim::now())
        std::this_thread::sleep_for(ns(t - sim::now()));
}

// ---- blocking_queue ---------------------------------------------------------------------------------------------------------
SCENARIO(long_queue, "long.queue")
{
    static const i64 caps[] = {1, 2, 3, 5, 16, 64, 100, 255, 256, 257, 1000, 5000};
    int cap = (int)sim::one_of(caps), n = draw_length(70000), pairs = (int)sim::draw(1, 2);
    int most = std::min(n, 8000), phase = (int)sim::draw(1, 400);
    rnd r;
    long_run();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::blocking_queue<int> q((size_t)cap);
            std::deque<int> model;
            int next = 0;
            bool filling = true;
            for (int i = 0; i < n; i++)
            {
                // fills and empties in turns, so that the number of items takes all values
                if (i % phase == 0)
                    filling = r(2);
                bool push = r(4) == 0 ? !filling : filling;
                if (push)
                {
                    bool full = (int)model.size() >= cap;
                    if (full || r(2))
                    {
                        int v = next;
                        bool ok = r(2) ? q.try_push(v) : q.try_push(int(v));
                        if (ok == full)
                            sim::fail("C01", "operation %d: try_push returned %d with %zu of %d items", i, ok, model.size(), cap);
                        if (ok)
                            model.push_back(next++);
                    }
                    else
                    {
                        q.push(int(next));
                        model.push_back(next++);
                    }
                }
                else if (model.empty() || r(2))
                {
                    auto v = q.try_pop();
                    if (v.has_value() == model.empty() || (v && *v != model.front()))
                        sim::fail("C01", "operation %d: try_pop returned %d instead of %d", i, v ? *v : -1, model.empty() ? -1 : model.front());
                    if (v)
                        model.pop_front();
                }
                else
                {
                    int v = q.pop();
                    if (v != model.front())
                        sim::fail("C01", "operation %d: pop returned %d instead of %d", i, v, model.front());
                    model.pop_front();
                }
                if (q.size() != model.size() || q.capacity() != (size_t)cap)
                    sim::fail("C01", "operation %d: size() is %zu of %zu instead of %zu of %d", i, q.size(), q.capacity(), model.size(), cap);
                if (i % 500 == 499)
                    pause_a_little();
            }
            while (q.try_pop())
                ;
            // then several threads
            std::vector<std::vector<int>> got(pairs);
            clients c;
            for (int p = 0; p < pairs; p++)
            {
                c.go([&, p] {
                    for (int i = 0; i < most / pairs; i++)
                        q.push(i * pairs + p);
                });
                c.go([&, p] {
                    for (int i = 0; i < most / pairs; i++)
                        got[p].push_back(q.pop());
                });
            }
            c.join();
            std::vector<char> seen(most + pairs, 0);
            for (auto& g : got)
            {
                std::vector<int> last(pairs, -1);
                for (int v : g)
                {
                    if (v < 0 || v >= most + pairs || seen[v]++)
                        sim::fail("C01", "item %d came twice or was never pushed", v);
                    if (last[v % pairs] >= v)
                        sim::fail("C01", "item %d of one producer came after its item %d", v, last[v % pairs]);
                    last[v % pairs] = v;
                }
            }
            if (q.size())
                sim::fail("C01", "%zu items are left over", q.size());
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed queue leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- thread_pool ---------------------------------------------------------------------------------------------------------------
SCENARIO(long_pool, "long.pool")
{
    int n = draw_length(20000), w = (int)sim::draw(1, 4), cycles = draw_length(300), wave = (int)sim::draw(1, 5);
    bool mostly_cycles = sim::chance(1, 2);
    if (mostly_cycles)
        n = std::min(n, 100);
    else
        cycles = std::min(cycles, 10);
    rnd r;
    long_run();
    enum { RUNS = 1, ROUND = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::thread_pool p;
            if (!p.start(w))
                sim::fail("C06", "start() returned false");
            i64 runs = 0;
            for (int i = 0; i < n;)
            {
                std::vector<std::future<std::string>> f;
                int first = i;
                for (int k = 0; k < wave && i < n; k++, i++)
                {
                    f.push_back(p.run([throws = i % 17 == 3](int v, const std::string& s) {
                        sim::add(RUNS);
                        if (throws)
                            throw oops(v);
                        return s + std::to_string(v);
                    }, i, std::string("task number ")));
                    runs++;
                }
                for (size_t k = 0; k < f.size(); k++)
                    try
                    {
                        int v = first + (int)k;
                        if (f[k].get() != "task number " + std::to_string(v) || v % 17 == 3)
                            sim::fail("C04", "task %d has a wrong result", v);
                    }
                    catch (const oops& e)
                    {
                        if (e.id != first + (int)k || e.id % 17 != 3)
                            sim::fail("C04", "task %d has the exception of task %d", first + (int)k, e.id);
                    }
                if (sim::get(RUNS) != runs)
                    sim::fail("C04", "%lld of %lld tasks were run", (long long)sim::get(RUNS), (long long)runs);
                if (r(32) == 0 && (p.threads_count() != (size_t)w || !p.is_running()))
                    sim::fail("C05", "after %d tasks the pool has %zu of %d workers", i, p.threads_count(), w);
            }
            for (int c = 0; c < cycles; c++)
            {
                std::vector<std::future<int>> f;
                int k = (int)r(4);
                for (int i = 0; i < k; i++)
                    f.push_back(p.run([c, i] {
                        if (sim::get(ROUND) != c)
                            sim::fail("C06", "a task of round %d is run in round %lld", c, (long long)sim::get(ROUND));
                        return c * 10 + i;
                    }));
                if (r(3) == 0)
                    for (auto& x : f)
                        x.wait();
                if (!p.stop() || p.is_running() || p.stop() || p.threads_count())
                    sim::fail("C06", "round %d: stop() does not stop", c);
                for (int i = 0; i < k; i++)
                    try
                    {
                        if (f[i].wait_for(0s) != std::future_status::ready)
                            sim::fail("C06", "round %d: a task is neither done nor abandoned", c);
                        if (f[i].get() != c * 10 + i)
                            sim::fail("C04", "round %d: wrong result", c);
                    }
                    catch (const std::future_error&)
                    {
                    }
                sim::set(ROUND, c + 1);
                int w2 = 1 + (int)r(3);
                if (!p.start(w2) || p.threads_count() != (size_t)w2 || !p.is_running() || p.start(1))
                    sim::fail("C06", "round %d: start() does not start", c);
            }
            if (p.run([] { return 77; }).get() != 77)
                sim::fail("C04", "wrong result at the end");
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed pool leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- event_dispatcher ----------------------------------------------------------------------------------------------------------
SCENARIO(long_events, "long.events")
{
    int n = draw_length(70000), restarts = sim::chance(1, 3) ? draw_length(300) : 0, most = (int)sim::draw(1, 12);
    int emit_every = std::max(n / 400, (int)sim::draw(1, 12)), churn = sim::chance(1, 12) ? 66000 : 0;
    if (churn)
        n = std::min(n, 1000);
    rnd r;
    long_run();
    enum { CALLS = 1, VALUE = 2, HIT = 10 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::event_dispatcher d;
            d.start(1);
            const char* names[] = {"first event", "second", ""};
            struct reg
            {
                unsigned long id;
                int event, slot;
            };
            std::vector<reg> live;
            std::unordered_set<unsigned long> ids;
            std::vector<unsigned long> stale;
            std::vector<char> used(64, 0);
            auto add = [&](int e) {
                int slot = 0;
                while (used[slot])
                    slot++;
                unsigned long id = d.add_handler<int>(names[e], [slot](int v) {
                    if (v != sim::get(VALUE))
                        sim::fail("C08", "a handler was called with %d instead of %lld", v, (long long)sim::get(VALUE));
                    sim::add(HIT + slot);
                    sim::add(CALLS);
                });
                if (!ids.insert(id).second)
                    sim::fail("C09", "handler id %lu was given out twice (%zu handlers so far)", id, ids.size());
                used[slot] = 1;
                live.push_back({id, e, slot});
            };
            auto remove = [&](size_t k) {
                if (!d.remove_handler(live[k].id))
                    sim::fail("C09", "remove_handler() did not find handler %lu after %zu handlers", live[k].id, ids.size());
                if (r(16) == 0)
                    stale.push_back(live[k].id);
                used[live[k].slot] = 0;
                live.erase(live.begin() + (long)k);
            };
            auto emit = [&](int e, int v) {
                i64 want = 0;
                for (int s = 0; s < 64; s++)
                    sim::set(HIT + s, 0);
                sim::set(CALLS, 0);
                sim::set(VALUE, v);
                for (auto& h : live)
                    want += h.event == e;
                if (d.emit(names[e], v) != (want > 0))
                    sim::fail("C08", "emit() is wrong about the %lld handlers of its event", (long long)want);
                for (int i = 0; i < 300 && sim::get(CALLS) < want; i++)
                {
                    sim::wait_idle();
                    pause_a_little();
                }
                sim::wait_idle();
                for (auto& h : live)
                    if (sim::get(HIT + h.slot) != (h.event == e))
                        sim::fail("C08", "a handler of event %d was called %lld times for event %d", h.event, (long long)sim::get(HIT + h.slot), e);
                if (sim::get(CALLS) != want)
                    sim::fail("C08", "%lld calls of handlers instead of %lld", (long long)sim::get(CALLS), (long long)want);
            };
            // handlers that come and go
            for (int i = 0; i < churn; i++)
            {
                unsigned long id = d.add_handler<int>("short-lived", [](int) { sim::fail("C08", "a removed handler is called"); });
                if (!ids.insert(id).second)
                    sim::fail("C09", "handler id %lu was given out twice (%zu handlers so far)", id, ids.size());
                if (!d.remove_handler(id))
                    sim::fail("C09", "remove_handler() did not find handler %lu after %zu handlers", id, ids.size());
                if (i % 200 == 199)
                    pause_a_little();
            }
            for (int i = 0; i < n; i++)
            {
                if ((int)live.size() >= most || (live.size() && r(3) == 0))
                    remove(r(live.size()));
                else
                    add((int)r(3));
                if (r(50) == 0 && stale.size() && d.remove_handler(stale[r(stale.size())]))
                    sim::fail("C09", "remove_handler() removed a handler that was removed before");
                if (r((uint64_t)emit_every) == 0)
                    emit((int)r(3), i);
                if (r(300) == 0)
                {
                    int e = (int)r(3);
                    bool had = false;
                    for (size_t k = live.size(); k-- > 0;)
                        if (live[k].event == e)
                        {
                            had = true;
                            used[live[k].slot] = 0;
                            live.erase(live.begin() + (long)k);
                        }
                    if (d.remove_event(names[e]) != had)
                        sim::fail("C09", "remove_event() is wrong about an event");
                }
                if (i % 200 == 199)
                    pause_a_little();
            }
            for (int e = 0; e < 3; e++)
                emit(e, -5);
            for (int c = 0; c < restarts; c++)
            {
                if (!d.stop() || d.stop())
                    sim::fail("C11", "stop() does not stop (round %d)", c);
                live.clear();
                std::fill(used.begin(), used.end(), 0);
                if (!d.start(1) || d.start(1))
                    sim::fail("C11", "start() does not start (round %d)", c);
                if (r(4) == 0)
                    emit((int)r(3), c);
                add((int)r(3));
                if (r(2))
                    add((int)r(3));
                emit(live[0].event, c);
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed dispatcher leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- task_scheduler ------------------------------------------------------------------------------------------------------------
SCENARIO(long_sched, "long.sched")
{
    static const i64 ivs[] = {MS, 10 * MS, 333333, 7 * MS + 1, SEC, 100 * US};
    i64 I = sim::one_of(ivs), first = sim::draw(0, 3) * 5 * MS;
    int n = draw_length(6000), ones = std::min(draw_length(1500), n), toggles = std::min(draw_length(600), n), restarts = sim::chance(1, 3) ? draw_length(130) : 0;
    int workers = (int)sim::draw(1, 3);
    rnd r;
    long_run();
    enum { TICKS = 1, LAST = 2, FLAG = 3, ROUND = 4, SHORT = 5 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::task_scheduler s;
            s.start(workers);
            i64 t0 = sim::now();
            sim::set(LAST, -1);
            if (!s.every("grid", ns(I), ns(first), [&, t0] {
                    i64 at = sim::now() - t0 - first, k = at / I;
                    if (at < 0 || at - k * I > 100 * US)
                        sim::fail("C13", "interval %lld ns: start number %lld is %lld ns off the grid", (long long)I, (long long)sim::get(TICKS), (long long)(at - k * I));
                    if (k != sim::get(LAST) + 1)
                        sim::fail("C13", "interval %lld ns: grid time %lld came after grid time %lld", (long long)I, (long long)k, (long long)sim::get(LAST));
                    sim::set(LAST, k);
                    sim::add(TICKS);
                }))
                sim::fail("C13", "a periodic task was refused");
            s.every("other", ns(I * 3), ns(I), [] { sim::add(FLAG); });
            bool enabled = true;
            // one-shot tasks with the same id, one after another
            for (int i = 0; i < ones; i++)
            {
                i64 due = sim::now() + (i64)r((uint64_t)I) + 1000;
                auto f = r(2) ? s.at("again", tc::sdk::clock::time_point(ns(due)), [i, due] {
                    if (sim::now() < due || sim::now() > due + 200 * US)
                        sim::fail("C12", "one-shot task %d started %lld ns after its time", i, (long long)(sim::now() - due));
                    return i;
                }) : s.in("again", ns(due - sim::now()), [i] { return i; });
                if (!f)
                    sim::fail("C14", "one-shot task %d: its id is refused although no task of that id is scheduled", i);
                if (!s.is_scheduled("again") || s.at("again", tc::sdk::clock::time_point(ns(due)), [] { return 0; }))
                    sim::fail("C14", "one-shot task %d: its id is not known as scheduled", i);
                if (f->get() != i)
                    sim::fail("C12", "one-shot task %d has a wrong result", i);
                if (s.is_scheduled("again"))
                    sim::fail("C14", "one-shot task %d is still scheduled after it has run", i);
            }
            for (int i = 0; i < toggles; i++)
            {
                enabled = !enabled;
                if (!s.set_enabled("other", enabled) || s.is_enabled("other") != enabled || !s.is_enabled("grid"))
                    sim::fail("C14", "set_enabled() has no effect");
                if (i % 7 == 3)
                {
                    i64 nw = (i64)(1 + r(5)) * I;
                    if (!s.update_interval("other", ns(nw)) || s.get_interval("other") != ns(nw) || s.get_interval("grid") != ns(I))
                        sim::fail("C14", "update_interval() has no effect");
                }
                if (s.tasks_size() != 2)
                    sim::fail("C14", "%zu tasks are scheduled instead of 2", s.tasks_size());
                if (i % 16 == 15)
                    std::this_thread::sleep_for(ns(I / 3));
            }
            i64 end = std::max(t0 + first + (i64)n * I + I / 2, sim::now());
            sleep_to(end);
            sim::wait_idle();
            i64 want = (sim::now() - t0 - first) / I + 1;
            if (sim::get(TICKS) != want)
                sim::fail("C13", "%lld starts in %lld intervals of %lld ns", (long long)sim::get(TICKS), (long long)(want - 1), (long long)I);
            s.stop();
            for (int c = 0; c < restarts; c++)
            {
                sim::set(ROUND, c);
                if (s.at(tc::sdk::clock::now(), [] { return 1; }) || s.tasks_size())
                    sim::fail("C15", "a stopped scheduler accepts tasks");
                if (!s.start(workers))
                    sim::fail("C15", "start() returned false (round %d)", c);
                auto far = s.at("far", tc::sdk::clock::now() + 1h, [] { return 1; });
                auto near = s.in(ns(20 * US), [c] {
                    if (sim::get(ROUND) != c)
                        sim::fail("C15", "a task of round %d runs in round %lld", c, (long long)sim::get(ROUND));
                    return c;
                });
                s.every("tick", ns(10 * US), [] { sim::add(SHORT); });
                if (!far || !near || s.tasks_size() < 2)
                    sim::fail("C15", "a restarted scheduler refuses tasks (round %d)", c);
                bool wait = r(2);
                if (wait && near->get() != c)
                    sim::fail("C12", "wrong result");
                i64 before = sim::now();
                if (!s.stop() || s.stop())
                    sim::fail("C15", "stop() does not stop (round %d)", c);
                if (sim::now() - before > SEC)
                    sim::fail("C15", "stop() took %lld ns", (long long)(sim::now() - before));
                if (far->wait_for(0s) != std::future_status::ready || (!wait && near->wait_for(0s) != std::future_status::ready))
                    sim::fail("C15", "stop() left a task without a result (round %d)", c);
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed scheduler leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- high_precision_timer --------------------------------------------------------------------------------------------------------
SCENARIO(long_timer, "long.timer")
{
    static const i64 ivs[] = {MS, 10 * MS, 333333, 7 * MS + 1, SEC, 20 * US};
    i64 I = sim::one_of(ivs);
    int n = draw_length(70000), restarts = sim::chance(1, 3) ? draw_length(300) : 0, replace_every = sim::chance(1, 2) ? (int)sim::draw(1, 50) : 0;
    int miss_every = sim::chance(1, 3) ? (int)sim::draw(2, 20) : 0;
    if (replace_every || miss_every)
        n = std::min(n, 5000);
    rnd r;
    long_run();
    enum { K = 1, VERSION = 2, NEXT = 3, MISSED = 4 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::high_precision_timer t;
            i64 t0 = 0;
            auto callback = [&](int version) {
                if (version < sim::get(VERSION))
                    sim::fail("C19", "callback %d was called after it had been replaced by callback %lld", version, (long long)sim::get(VERSION));
                i64 k = sim::add(K), at = sim::now() - t0, due = sim::get(NEXT) * I;
                if (at < due || at > due + 100 * US)
                    sim::fail("C17", "interval %lld ns: callback %lld came %lld ns after its time", (long long)I, (long long)k, (long long)(at - due));
                i64 skip = 0;
                if (miss_every && k % miss_every == 0)
                {
                    // overruns by whole intervals and a half
                    skip = k % 3;
                    std::this_thread::sleep_for(ns(I * skip + I / 2));
                }
                sim::add(MISSED, skip);
                sim::add(NEXT, skip + 1);
            };
            sim::set(NEXT, 1);
            t.set_callback(callback, 0);
            t0 = sim::now();
            t.start(ns(I));
            int version = 0;
            for (i64 k = 1; replace_every && k * replace_every < n; k++)
            {
                sleep_to(t0 + k * replace_every * I + I * 9 / 10);
                sim::wait_idle();
                t.set_callback(callback, ++version);
                sim::set(VERSION, version);
            }
            sleep_to(t0 + (i64)n * I + I * 9 / 10);
            sim::wait_idle();
            t.stop();
            i64 total = (i64)t.invoked_callback_count() + (i64)t.missed_callback_count();
            if ((i64)t.invoked_callback_count() != sim::get(K))
                sim::fail("C17", "%lld callbacks were made, invoked_callback_count() is %lld", (long long)sim::get(K), (long long)t.invoked_callback_count());
            if ((i64)t.missed_callback_count() != sim::get(MISSED))
                sim::fail("C17", "%lld ticks were overrun, missed_callback_count() is %lld", (long long)sim::get(MISSED), (long long)t.missed_callback_count());
            if (total < n || (total > n && !miss_every && !replace_every))
                sim::fail("C17", "%lld ticks in %d intervals", (long long)total, n);
            for (int c = 0; c < restarts; c++)
            {
                sim::set(K, 0);
                sim::set(NEXT, 1);
                sim::set(MISSED, 0);
                int ticks = (int)r(3);
                t0 = sim::now();
                if (!t.start(ns(I)))
                    sim::fail("C18", "start() returned false (round %d)", c);
                if (t.invoked_callback_count() || t.missed_callback_count())
                    sim::fail("C18", "the counters of a restarted timer are not zero (round %d)", c);
                if (!miss_every)
                {
                    sleep_to(t0 + ticks * I + I * 9 / 10);
                    sim::wait_idle();
                }
                i64 before = sim::now();
                if (r(2))
                    t.stop();
                if (sim::now() - before > I / 2 + MS && !miss_every)
                    sim::fail("C18", "stop() took %lld ns", (long long)(sim::now() - before));
                if (!miss_every && (sim::get(K) != ticks || (i64)t.invoked_callback_count() != ticks))
                    sim::fail("C18", "round %d: %lld callbacks in %d intervals", c, (long long)sim::get(K), ticks);
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed timer leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- observable -----------------------------------------------------------------------------------------------------------------
SCENARIO(long_observable, "long.observable")
{
    int n = draw_length(132000), nt = (int)sim::draw(1, 3);
    rnd r;
    long_run();
    enum { CALLS = 1, LAST = 2, SUM = 3 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::observable<i64> o(0, [](i64 v) {
                sim::add(CALLS);
                sim::set(LAST, v);
            });
            i64 value = 0, calls = 0;
            bool on = true;
            for (int i = 0; i < n; i++)
            {
                if (r(20) == 0)
                {
                    on = r(2);
                    o.callback_enabled(on);
                }
                i64 nw = r(4) == 0 ? value : (i64)r(5);
                o = nw;
                if (nw != value && on)
                {
                    calls++;
                    if (sim::get(LAST) != nw)
                        sim::fail("C20", "assignment %d of %lld was notified with %lld", i, (long long)nw, (long long)sim::get(LAST));
                }
                value = nw;
                if (sim::get(CALLS) != calls)
                    sim::fail(on ? "C20" : "C21", "assignment %d: %lld notifications instead of %lld", i, (long long)sim::get(CALLS), (long long)calls);
                if (o.value() != value || o.callback_enabled() != on)
                    sim::fail("C20", "assignment %d: the value is %lld instead of %lld", i, (long long)o.value(), (long long)value);
                if (i % 500 == 499)
                    pause_a_little();
            }
            // distinct values from several threads: every one is a change
            o.callback_enabled(true);
            sim::set(CALLS, 0);
            int each = std::min(n, 3000);
            clients c;
            for (int t = 0; t < nt; t++)
                c.go([&, t] {
                    for (int i = 0; i < each; i++)
                        o = 100 + (i64)i * nt + t;
                });
            c.join();
            if (sim::get(CALLS) != (i64)each * nt)
                sim::fail("C20", "%lld notifications of %d changes", (long long)sim::get(CALLS), each * nt);
            if (o.value() != sim::get(LAST))
                sim::fail("C20", "the value is %lld, the last notification was %lld", (long long)o.value(), (long long)sim::get(LAST));
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed observable leaks");
    });
}

// ---- rate_limiter ----------------------------------------------------------------------------------------------------------------
SCENARIO(long_rate, "long.rate")
{
    static const i64 rates[] = {60, 1000, 1, 50, 144, 7, 333, 100000, 30, 3, 59, 1'000'000, 29, 777777, 12345};
    i64 rate = sim::one_of(rates);
    int n = draw_length(132000), late_every = sim::chance(1, 2) ? (int)sim::draw(1, 100) : 0;
    rnd r;
    long_run();
    sim::run([&] {
        i64 b0 = sim::now();
        tc::sdk::rate_limiter l((size_t)rate);
        i64 b1 = sim::now();
        for (int k = 1; k <= n; k++)
        {
            if (late_every && k % late_every == 0)
                sim::work(SEC / rate * (i64)r(3));
            i64 due = (i64)((__int128)k * SEC / rate), call = sim::now();
            l.sync();
            i64 ret = sim::now();
            if (ret < b0 + due - US)
                sim::fail("C22", "rate %lld: sync() number %d returned %lld ns early", (long long)rate, k, (long long)(b0 + due - ret));
            if (ret > std::max(call, b1 + due) + 10 * US)
                sim::fail("C22", "rate %lld: sync() number %d returned %lld ns after it was due", (long long)rate, k, (long long)(ret - std::max(call, b1 + due)));
        }
    });
}

// ---- uuid_generator --------------------------------------------------------------------------------------------------------------
SCENARIO(long_uuid, "long.uuid")
{
    int n = draw_length(40000), nt = (int)sim::draw(1, 4);
    sim::enable(sim::F_RDEV_REPEAT, 1, 2);
    long_run(false);
    sim::run([&] {
        std::vector<std::vector<std::string>> got(nt);
        clients c;
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                for (int i = 0; i < n / nt; i++)
                    got[t].push_back(tc::sdk::uuid_generator::instance().create().to_string());
            });
        c.join();
        std::unordered_set<std::string> all;
        for (auto& g : got)
            for (auto& s : g)
                if (!all.insert(s).second)
                    sim::fail("C27", "uuid %s was generated twice (%zu so far)", s.c_str(), all.size());
    });
}

// ---- service_locator ---------------------------------------------------------------------------------------------------------------
template <int N>
struct service
{
    virtual ~service() = default;
    virtual int number() const = 0;
};
template <int N>
struct service_impl : service<N>
{
    tracked v;
    explicit service_impl(int x) : v(x) {}
    int number() const override { return v.get() * 100 + N; }
};
template <int N>
struct instance_impl : service<N>
{
    std::string pad = "padding";
    tracked v;
    explicit instance_impl(int x) : v(x) {}
    int number() const override { return v.get() * 100 + N; }
};
constexpr int TYPES = 48;
template <int N>
bool one_locator_op(tc::sdk::service_locator& l, int what, int v, std::optional<int>& model)
{
    switch (what)
    {
    case 0:
    case 1:
    {
        bool did = what ? l.register_service<service<N>, service_impl<N>>(v) : l.register_instance<service<N>>(std::make_shared<instance_impl<N>>(v));
        if (did == model.has_value())
            sim::fail("C29", "registering service %d returned %d", N, did);
        if (did)
            model = v;
        break;
    }
    case 2:
        if (l.unregister<service<N>>() != model.has_value())
            sim::fail("C29", "unregistering service %d returned %d", N, !model.has_value());
        model.reset();
        break;
    }
    auto p = l.get<service<N>>();
    if (!p != !model || l.is_registered<service<N>>() != model.has_value() || (p && p->number() != *model * 100 + N))
        sim::fail("C29", "service %d: %s found, %s registered", N, p ? std::to_string(p->number()).c_str() : "none", model ? std::to_string(*model * 100 + N).c_str() : "none");
    return true;
}
template <int... I>
void locator_op(std::integer_sequence<int, I...>, int k, tc::sdk::service_locator& l, int what, int v, std::optional<int>* model)
{
    (void)((k == I && one_locator_op<I>(l, what, v, model[I])) || ...);
}
SCENARIO(long_locator, "long.locator")
{
    int n = draw_length(33000), types = (int)sim::draw(1, TYPES);
    rnd r;
    long_run(false);
    sim::run([&] {
        auto& l = tc::sdk::service_locator::instance();
        std::optional<int> model[TYPES];
        std::make_integer_sequence<int, TYPES> all;
        for (int i = 0; i < n; i++)
        {
            // mostly more than fewer of them
            locator_op(all, (int)r((uint64_t)types), l, (int)(r(3) == 0 ? 2 : r(2)), 1 + (int)r(50), model);
            if (i % 64 == 63)
                for (int k = 0; k < TYPES; k++)
                    locator_op(all, k, l, 3, 0, model);
        }
        for (int k = 0; k < TYPES; k++)
            locator_op(all, k, l, 3, 0, model);
        for (int k = 0; k < TYPES; k++)
            locator_op(all, k, l, 2, 0, model);
        if (tracked::live())
            sim::fail("C29", "%lld services were not released", (long long)tracked::live());
    });
}

// ---- signal handler ------------------------------------------------------------------------------------------------------------------
SCENARIO(long_quit, "long.quit")
{
    int n = draw_length(70000), every = (int)sim::draw(1, 5);
    bool threaded = sim::chance(1, 2);
    if (threaded)
        n = std::min(n, 5000);
    rnd r;
    long_run();
    enum { CALLS = 1, SIG = 2, ASKED = 3, WOKE = 4 };
    sim::run([&] {
        auto install = [] {
            tc::sdk::install_signal_handlers([](const char* m, int s) {
                const char* want = s == SIGINT ? "SIGINT" : s == SIGTERM ? "SIGTERM" : s == SIGABRT ? "SIGABRT" : "by hand";
                if (s != sim::get(SIG) || !m || strcmp(m, want))
                    sim::fail("C26", "signal %lld called the callback with (\"%s\", %d)", (long long)sim::get(SIG), m ? m : "(null)", s);
                sim::add(CALLS);
            });
        };
        install();
        auto request = [&](int i) {
            int s = (int)r(4);
            static const int sigs[] = {SIGINT, SIGTERM, SIGABRT};
            sim::set(SIG, s < 3 ? sigs[s] : 1000 + i % 7);
            sim::add(ASKED);
            if (s < 3)
                sim::deliver_signal(sigs[s]);
            else
                tc::sdk::quit("by hand", 1000 + i % 7);
            if (sim::get(CALLS) != i + 1)
                sim::fail(s < 3 ? "C26" : "C25", "%d quits made %lld callbacks", i + 1, (long long)sim::get(CALLS));
        };
        clients c;
        if (threaded)
            c.go([&] {
                for (int i = 0; i < n; i++)
                {
                    tc::sdk::wait_for_quit();
                    if (sim::add(WOKE) > sim::get(ASKED))
                        sim::fail("C25", "wait_for_quit() returned %lld times after %lld requests", (long long)sim::get(WOKE), (long long)sim::get(ASKED));
                }
            });
        for (int i = 0; i < n; i++)
        {
            request(i);
            if (!threaded)
                tc::sdk::wait_for_quit();
            else
                for (int k = 0; k < 1000 && sim::get(WOKE) <= i; k++)
                {
                    sim::wait_idle();
                    if (sim::get(WOKE) <= i)
                        pause_a_little();
                }
            if (threaded && sim::get(WOKE) != i + 1)
                sim::fail("C25", "wait_for_quit() did not return after request %d", i + 1);
            if (i % every == 0 && r(10) == 0)
                install();
            if (i % 500 == 499)
                pause_a_little();
        }
        c.join();
    });
}
}

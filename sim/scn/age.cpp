// Long stretches of simulated time in which nothing happens, or one thing goes on for very long: what a limit on some wait, or a
// representation of times and durations that is too small, would show. Without delays injected, so that times can be checked exactly.
#include "scn.h"

#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <chrono>
#include <csignal>
#include <future>
#include <latch>
#include <memory>

using namespace scn;
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS, HOUR = 3600 * SEC, DAY = 24 * HOUR;
constexpr i64 TOL = 200 * US;

void sleep(i64 d) { std::this_thread::sleep_for(ns(d)); }
i64 draw_any_time()
{
    static const i64 some[] = {10 * MS, 3 * US, 250 * MS, SEC};
    return sim::chance(1, 3) ? sim::one_of(some) : draw_long_time();
}

SCENARIO(age_pool, "age.pool")
{
    int w = (int)sim::draw(1, 3), n = (int)sim::draw(1, 6), rounds = (int)sim::draw(1, 2);
    i64 idle = draw_any_time(), lasting = sim::chance(1, 2) ? std::min(draw_any_time(), 500 * DAY) : 0;
    bool together = sim::chance(1, 2), leave = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { RUNNING = 1, RUNS = 2, STOPPED = 3 };
    sim::run([&] {
        tc::sdk::thread_pool p;
        for (int r = 0; r < rounds; r++)
        {
            sim::set(STOPPED, 0);
            sim::set(RUNS, 0);
            if (!p.start(w))
                sim::fail("C06", "start() returned false");
            sleep(idle);
            if (!p.is_running() || p.threads_count() != (size_t)w)
                sim::fail("C05", "after %lld ns the pool has %zu of %d workers", (long long)idle, p.threads_count(), w);
            if (together)
            {
                // all workers are still there
                std::latch meet(w);
                std::vector<std::future<void>> f;
                for (int i = 0; i < w; i++)
                    f.push_back(p.run([&] {
                        sim::add(RUNNING);
                        meet.arrive_and_wait();
                    }));
                sim::wait_idle();
                if (sim::get(RUNNING) != (r + 1) * w)
                    sim::fail("C05", "after %lld ns without work only %lld of %d workers take a task", (long long)idle, (long long)sim::get(RUNNING) - r * w, w);
                for (auto& x : f)
                    x.get();
            }
            i64 before = sim::now();
            std::vector<std::future<int>> f;
            for (int i = 0; i < n; i++)
                f.push_back(p.run([=](int v) {
                    if (sim::get(STOPPED))
                        sim::fail("C06", "a task is run after stop() has returned");
                    if (lasting)
                        sleep(lasting);
                    if (sim::get(STOPPED))
                        sim::fail("C06", "stop() returned while a task was running (for %lld ns)", (long long)lasting);
                    sim::add(RUNS);
                    return v;
                }, i));
            if (leave)
            {
                sleep(lasting / 2 + 1);
                p.stop();
                sim::set(STOPPED, 1);
                if (sim::now() - before > lasting + TOL)
                    sim::fail("C06", "stop() returned %lld ns after the tasks, of which each lasts %lld ns", (long long)(sim::now() - before), (long long)lasting);
            }
            for (int i = 0; i < n; i++)
                try
                {
                    if (f[i].get() != i)
                        sim::fail("C04", "task %d has a wrong result", i);
                    if (!leave && sim::now() - before > (i / w + 1) * lasting + TOL)
                        sim::fail("C05", "task %d of %d, on %d workers and lasting %lld ns, was done after %lld ns", i, n, w, (long long)lasting, (long long)(sim::now() - before));
                }
                catch (const std::future_error&)
                {
                    if (!leave)
                        sim::fail("C04", "task %d was abandoned", i);
                }
            if (!leave)
            {
                if (sim::get(RUNS) != n)
                    sim::fail("C04", "%lld of %d tasks were run", (long long)sim::get(RUNS), n);
                p.stop();
                sim::set(STOPPED, 1);
            }
            sleep(SEC);
        }
    });
}

SCENARIO(age_events, "age.events")
{
    int w = (int)sim::draw(1, 2), n = (int)sim::draw(1, 5), nh = (int)sim::draw(1, 3);
    i64 idle = draw_any_time(), lasting = sim::chance(1, 2) ? std::min(draw_any_time(), 500 * DAY) : 0;
    bool leave = sim::chance(1, 2), unstarted = sim::chance(1, 3);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { CALLS = 1, STOPPED = 2, ORDER = 3 };
    sim::run([&] {
        tc::sdk::event_dispatcher d;
        auto handlers = [&] {
            std::vector<unsigned long> ids;
            for (int h = 0; h < nh; h++)
                ids.push_back(d.add_handler<int>("event", [=](int v) {
                    if (sim::get(STOPPED))
                        sim::fail("C11", "a handler is called after stop() has returned");
                    if (w == 1 && sim::add(ORDER) != v * nh + h + 1)
                        sim::fail("C10", "delivery %lld is the one of event %d to handler %d", (long long)sim::get(ORDER), v, h);
                    if (lasting)
                        sleep(lasting);
                    if (sim::get(STOPPED))
                        sim::fail("C11", "stop() returned while a handler was running (for %lld ns)", (long long)lasting);
                    sim::add(CALLS);
                }));
            return ids;
        };
        if (unstarted)
        {
            // a dispatcher that was never started forgets its handlers as well
            handlers();
            if (d.stop())
                sim::fail("C11", "stop() of a dispatcher that is not running returned true");
            if (d.emit("event", 0))
                sim::fail("C11", "emit() returned true after stop() of a dispatcher that was not running");
        }
        handlers();
        d.start(w);
        sleep(idle);
        i64 before = sim::now();
        for (int i = 0; i < n; i++)
            if (!d.emit("event", i))
                sim::fail("C08", "emit() found no handler after %lld ns", (long long)idle);
        if (leave)
        {
            sleep(lasting / 2 + 1);
            d.stop();
            sim::set(STOPPED, 1);
            if (sim::now() - before > lasting + TOL)
                sim::fail("C11", "stop() returned %lld ns after the emits, with handlers that last %lld ns", (long long)(sim::now() - before), (long long)lasting);
            sleep(SEC);
            if (d.emit("event", 1))
                sim::fail("C11", "emit() returned true after stop()");
        }
        else
        {
            i64 calls = (i64)n * nh;
            sleep((calls + w - 1) / w * lasting + MS);
            sim::wait_idle();
            if (sim::get(CALLS) != calls)
                sim::fail("C08", "%lld of %lld calls were made", (long long)sim::get(CALLS), (long long)calls);
            d.stop();
        }
    });
}

SCENARIO(age_sched, "age.sched")
{
    int w = (int)sim::draw(1, 3);
    i64 idle = sim::chance(1, 2) ? draw_any_time() : 0;
    i64 interval = draw_any_time(), first = sim::chance(1, 2) ? 0 : draw_any_time(), next = draw_any_time();
    interval = std::min(interval, 10 * 365 * DAY);
    next = std::min(next, 10 * 365 * DAY);
    first = std::min(first, 10 * 365 * DAY);
    std::vector<i64> ones;
    for (int i = (int)sim::draw(0, 4); i > 0; i--)
        ones.push_back(draw_any_time());
    bool toggles = sim::chance(1, 3), update = sim::chance(1, 3), removed = sim::chance(1, 3);
    int ticks = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { TICKS = 1, STOPPED = 2, BASE = 3, STEP = 4, DONE = 10 };
    sim::run([&] {
        tc::sdk::task_scheduler s;
        s.start(w);
        sleep(idle);
        std::vector<std::future<int>> f;
        i64 t0 = sim::now();
        for (int i = 0; i < (int)ones.size(); i++)
        {
            auto x = s.in("one " + std::to_string(i), ns(ones[i]), [=] {
                if (sim::get(STOPPED))
                    sim::fail("C15", "a task is run after stop() has returned");
                i64 late = sim::now() - t0 - ones[i];
                if (late < 0 || late > TOL)
                    sim::fail("C12", "a task that was due after %lld ns starts %lld ns late", (long long)ones[i], (long long)late);
                sim::set(DONE + i, 1);
                return i;
            });
            if (!x)
                sim::fail("C12", "a task due in %lld ns is refused after %lld ns", (long long)ones[i], (long long)idle);
            f.push_back(std::move(*x));
        }
        if (removed && !ones.empty() && !sim::get(DONE) && s.remove_task("one 0") && (s.is_scheduled("one 0") || f[0].wait_for(0s) != std::future_status::ready))
            sim::fail("C14", "a removed task is still scheduled");
        i64 base = sim::now() + first;
        sim::set(BASE, base);
        sim::set(STEP, interval);
        auto tick = [=] {
            if (sim::get(STOPPED))
                sim::fail("C15", "a periodic task is started after stop() has returned");
            i64 at = sim::now() - sim::get(BASE), off = at % sim::get(STEP);
            if (at < 0 || off > TOL)
                sim::fail("C13", "a periodic task with interval %lld ns is started %lld ns off its grid", (long long)sim::get(STEP), (long long)off);
            sim::add(TICKS);
        };
        if (!s.every("tick", ns(interval), ns(first), tick))
            sim::fail("C13", "a periodic task is refused");
        if (s.get_interval("tick") != ns(interval))
            sim::fail("C14", "get_interval() is wrong");
        if (interval > 1000 * TOL)
        {
            sleep(first + (ticks - 1) * interval + 10 * TOL);
            sim::wait_idle();
            if (sim::get(TICKS) != ticks)
                sim::fail("C13", "%lld starts in %d intervals of %lld ns", (long long)sim::get(TICKS), ticks - 1, (long long)interval);
            if (update)
            {
                // the grid continues from the previous start, with the first time that is not past
                next = std::max(next, 1000 * TOL);
                i64 last = base + (ticks - 1) * interval;
                sim::set(BASE, last);
                sim::set(STEP, next);
                sim::set(TICKS, 0);
                if (!s.update_interval("tick", ns(next)) || s.get_interval("tick") != ns(next))
                    sim::fail("C14", "update_interval() has no effect");
                sleep(next);
                sim::wait_idle();
                if (sim::get(TICKS) != 1)
                    sim::fail("C14", "after update_interval() to %lld ns there were %lld starts in one interval", (long long)next, (long long)sim::get(TICKS));
                interval = next;
            }
            if (toggles)
            {
                sim::set(TICKS, 0);
                s.set_enabled("tick", false);
                sleep(2 * interval);
                sim::wait_idle();
                if (sim::get(TICKS))
                    sim::fail("C14", "a disabled task is started");
                s.set_enabled("tick", true);
                sleep(interval);
                sim::wait_idle();
                if (sim::get(TICKS) != 1)
                    sim::fail("C14", "an enabled task was started %lld times in an interval of %lld ns", (long long)sim::get(TICKS), (long long)interval);
            }
        }
        i64 before = sim::now();
        s.stop();
        sim::set(STOPPED, 1);
        if (sim::now() - before > MS)
            sim::fail("C15", "stop() took %lld ns", (long long)(sim::now() - before));
        for (int i = 0; i < (int)ones.size(); i++)
        {
            if (f[i].wait_for(0s) != std::future_status::ready)
                sim::fail("C15", "stop() left a task without a result");
            bool gone = removed && i == 0;
            if (!gone && !sim::get(DONE + i) && before > t0 + ones[i] + TOL)
                sim::fail("C12", "a task that was due in %lld ns has not been run after %lld ns", (long long)ones[i], (long long)(before - t0));
        }
        sleep(400 * DAY);
    });
}

SCENARIO(age_timer, "age.timer")
{
    i64 interval = std::min(draw_any_time(), 400 * DAY), again = std::min(draw_any_time(), 400 * DAY), rest = sim::chance(1, 2) ? std::min(draw_any_time(), 3650 * DAY) : 0;
    int ticks = (int)sim::draw(0, 3);
    static const i64 overruns[] = {0, 1, 2, 300, 66000};
    i64 overrun = sim::one_of(overruns);
    if (overrun > 2)
        interval = std::min(interval, 30 * SEC);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { TICKS = 1, STOPPED = 2, T0 = 3, STEP = 4, BUSY = 5 };
    sim::run([&] {
        tc::sdk::high_precision_timer t;
        t.set_callback([] {
            if (sim::get(STOPPED))
                sim::fail("C18", "a callback is made after stop() has returned");
            i64 I = sim::get(STEP), at = sim::now() - sim::get(T0), k = at / I;
            if (at < I || at % I > TOL)
                sim::fail("C17", "a timer with interval %lld ns ticks %lld ns after its start", (long long)I, (long long)at);
            (void)k;
            sim::add(TICKS);
            if (sim::get(BUSY))
            {
                i64 d = sim::get(BUSY);
                sim::set(BUSY, 0);
                sleep(d);
            }
        });
        for (int r = 0; r < 2; r++)
        {
            i64 I = std::max(r ? again : interval, MS);
            sim::set(STOPPED, 0);
            sim::set(TICKS, 0);
            sim::set(STEP, I);
            i64 busy = 0, missed = 0;
            if (overrun && ticks)
            {
                busy = overrun * I + I / 2;
                missed = overrun;
            }
            sim::set(BUSY, busy);
            i64 t0 = sim::now();
            sim::set(T0, t0);
            if (!t.start(ns(I)))
                sim::fail("C18", "start() returned false");
            sleep(ticks * I + missed * I + I / 2 + (busy ? I / 4 : 0));
            sim::wait_idle();
            if (sim::get(TICKS) != ticks || (i64)t.invoked_callback_count() != ticks || (i64)t.missed_callback_count() != missed)
                sim::fail("C17", "interval %lld ns, first callback lasting %lld ns: %lld callbacks (counted %llu and %llu missed) instead of %d and %lld", (long long)I, (long long)busy, (long long)sim::get(TICKS),
                          (unsigned long long)t.invoked_callback_count(), (unsigned long long)t.missed_callback_count(), ticks, (long long)missed);
            i64 before = sim::now();
            t.stop();
            sim::set(STOPPED, 1);
            if (sim::now() - before > MS)
                sim::fail("C18", "stop() took %lld ns of an interval of %lld ns", (long long)(sim::now() - before), (long long)I);
            sleep(rest);
            overrun = 0;
        }
    });
}

SCENARIO(age_rate, "age.rate")
{
    static const i64 rates[] = {1, 2, 3, 7, 30, 60, 144, 1000};
    i64 rate = sim::one_of(rates), P = SEC / rate;
    i64 away = draw_any_time();
    int before = (int)sim::draw(0, 5);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        i64 lo = sim::now();
        tc::sdk::rate_limiter l((size_t)rate);
        i64 hi = sim::now();
        i64 k = 0;
        auto sync = [&] {
            i64 called = sim::now();
            l.sync();
            k++;
            i64 at = sim::now();
            i64 due = (i64)((__int128)k * SEC / rate);
            if (at < lo + due - 200)
                sim::fail("C22", "rate %lld: sync() number %lld returned %lld ns early", (long long)rate, (long long)k, (long long)(lo + due - at));
            if (at > std::max(called, hi + due) + TOL)
                sim::fail("C22", "rate %lld: sync() number %lld, called %lld ns after its time, returned %lld ns late", (long long)rate, (long long)k, (long long)(called - hi - due), (long long)(at - std::max(called, hi + due)));
        };
        for (int i = 0; i < before; i++)
            sync();
        sleep(away);
        // catches up, all of it if that is not too much, then keeps the cadence
        i64 behind = (sim::now() - lo) / P - k, n = std::min<i64>(behind, 20000) + 5;
        for (i64 i = 0; i < n; i++)
        {
            sync();
            if (i % 1000 == 999)
                sleep(1);
        }
    });
}

SCENARIO(age_quit, "age.quit")
{
    int rounds = (int)sim::draw(1, 3);
    i64 wait[3], off[3];
    bool early[3], sig[3];
    for (int r = 0; r < rounds; r++)
    {
        wait[r] = draw_any_time();
        early[r] = sim::chance(1, 3);
        sig[r] = sim::chance(1, 2);
        off[r] = sim::chance(1, 2) ? US : 0;
        wait[r] = std::min(wait[r], 3650 * DAY);
    }
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { ASKED = 1, WOKE = 2, CALLS = 3 };
    sim::run([&] {
        tc::sdk::install_signal_handlers([](const char*, int) { sim::add(CALLS); });
        clients c;
        c.go([&] {
            for (int r = 0; r < rounds; r++)
            {
                if (early[r])
                    sleep(wait[r] + off[r]);
                tc::sdk::wait_for_quit();
                if (sim::get(ASKED) <= r)
                    sim::fail("C25", "wait_for_quit() returned before quit was requested");
                sim::add(WOKE);
            }
        });
        for (int r = 0; r < rounds; r++)
        {
            if (!early[r])
                sleep(wait[r]);
            sim::set(ASKED, r + 1);
            if (sig[r])
                sim::deliver_signal(SIGTERM);
            else
                tc::sdk::quit("by hand", 0);
            if (sim::get(CALLS) != r + 1)
                sim::fail("C25", "%d requests made %lld callbacks", r + 1, (long long)sim::get(CALLS));
            if (early[r])
                sleep(wait[r] + 2 * US + MS);
            sim::wait_idle();
            sleep(MS);
            if (sim::get(WOKE) != r + 1)
                sim::fail("C25", "wait_for_quit() has not returned after the request");
        }
        c.join();
    });
}

SCENARIO(age_stopwatch, "age.stopwatch")
{
    i64 gap[3];
    for (i64& g : gap)
        g = std::min(draw_any_time(), 3650 * DAY);
    bool reset = sim::chance(1, 2);
    sim::nontrivial();
    sim::run([&] {
        i64 lo = sim::now();
        tc::sdk::stopwatch w;
        i64 hi = sim::now();
        for (i64 g : gap)
        {
            sleep(g);
            i64 a = sim::now();
            i64 e = w.elapsed().count();
            i64 b = sim::now();
            if (e < a - hi || e > b - lo)
                sim::fail("C23", "a stopwatch measures %lld ns instead of %lld to %lld", (long long)e, (long long)(a - hi), (long long)(b - lo));
            i64 s = (i64)w.elapsed<std::chrono::seconds>().count();
            if (s < (a - hi) / SEC || s > (sim::now() - lo) / SEC)
                sim::fail("C23", "a stopwatch measures %lld s instead of %lld", (long long)s, (long long)((a - hi) / SEC));
            if (reset)
            {
                lo = sim::now();
                w.reset();
                hi = sim::now();
            }
        }
    });
}
}

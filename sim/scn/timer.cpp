// high_precision_timer
#include "scn.h"

#include <teiacare/sdk/high_precision_timer.hpp>

#include <algorithm>
#include <chrono>
#include <future>
#include <memory>
#include <system_error>

using namespace scn;
using tc::sdk::high_precision_timer;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS, HOUR = 3600 * SEC;
constexpr i64 TOL = 20 * US;  // clock reads cost 1 ns each: far more than any run adds up to
void sleep_to(i64 t)
{
    while (sim::now() < t)
        std::this_thread::sleep_for(ns(t - sim::now()));
}

// ---- C17: ticks ------------------------------------------------------------------------------------------------------
// cells: per tick start, end, missed counter, slack at the end
enum { K = 1, INSIDE = 2, DONE = 3, ST = 1000, EN = 2500, MI = 4000, SL = 5500, MAXK = 1500 };
SCENARIO(timer_ticks, "timer.ticks")
{
    static const i64 ivs[] = {10 * MS, MS, 16'666'667, 250 * US, 100 * MS, 2 * SEC, 7'777'777};
    i64 I = sim::one_of(ivs);
    int nd = (int)sim::draw(1, 6), periods = (int)sim::draw(3, 25);
    i64 dur[6];
    for (auto& d : dur)
    {
        // fraction of the interval, in percent; never so close to a multiple that the order of two clock reads matters
        static const i64 pct[] = {0, 10, 45, 90, 130, 230, 310, 1015};
        d = I * sim::one_of(pct) / 100;
    }
    bool cpu = sim::chance(1, 2);
    bool timefaults = sim::chance(2, 3);
    sim::swarm_schedule_faults();
    static const i64 scales[] = {1, 15, 80};
    i64 sc = sim::one_of(scales);
    if (timefaults)
        sim::swarm_time_faults(I * sc / 5);
    else
        sim::enable(sim::F_WALL_JUMP, 1, 4);
    i64 gran = 0;
    if (sim::chance(1, 5))
    {
        // a coarse clock; the interval is a multiple of its granularity or not
        gran = sim::chance(1, 2) ? I / 4 : I / 3 + 1;
        sim::cfg.clock_granularity = gran;
    }
    sim::nontrivial();
    sim::run([&] {
        i64 tol = TOL + 2 * gran;
        high_precision_timer t;
        t.set_callback(
            [&](int a, const std::string& b) {
                i64 st = sim::now();
                if (a != 11 || b != "an argument that does not fit the small buffer")
                    sim::fail("C17", "the callback got damaged arguments");
                if (sim::add(INSIDE) != 1)
                    sim::fail("C17", "two callbacks overlap");
                i64 k = sim::add(K) - 1;
                i64 inv = (i64)t.invoked_callback_count();
                if (inv != k)
                    sim::fail("C17", "during callback %lld invoked_callback_count() is %lld", (long long)k, (long long)inv);
                if (k < MAXK)
                {
                    sim::set(ST + (int)k, st);
                    sim::set(MI + (int)k, (i64)t.missed_callback_count());
                }
                i64 d = dur[k % nd];
                if (sim::get(DONE))
                    d = 0;
                if (d)
                {
                    sim::count(sim::F_USER_SLOW);
                    if (cpu)
                        sim::work(d);
                    else
                        std::this_thread::sleep_for(ns(d));
                }
                if (k < MAXK)
                {
                    sim::set(EN + (int)k, sim::now());
                    sim::set(SL + (int)k, sim::total_slack());
                }
                sim::add(INSIDE, -1);
            },
            11, std::string("an argument that does not fit the small buffer"));
        i64 slack0 = sim::total_slack();
        i64 lo = sim::now() - gran;  // a coarse clock reads up to one granule behind
        if (!t.start(ns(I)))
            sim::fail("C18", "start() returned false although a callback is set");
        i64 hi = sim::now();
        sleep_to(hi + periods * I);
        sim::no_faults(true);
        sim::set(DONE, 1);
        // what is delayed now ends, and the slowest callback too
        sleep_to(sim::now() + sim::cfg.stall_max * (timefaults ? 1 : 0) + 12 * I);
        i64 c0 = sim::now(), c1 = c0 + 6 * I;
        sleep_to(c1);
        t.stop();
        i64 stopped = sim::now();
        i64 n = sim::get(K), inv = (i64)t.invoked_callback_count(), missed = (i64)t.missed_callback_count();
        if (inv != n)
            sim::fail("C17", "%lld callbacks were made, invoked_callback_count() is %lld", (long long)n, (long long)inv);
        if (n > MAXK)
            return;
        auto st = [](i64 k) { return sim::get(ST + (int)k); };
        auto en = [](i64 k) { return sim::get(EN + (int)k); };
        i64 calm = 0, last = -1;
        for (i64 k = 0; k < n; k++)
        {
            i64 m = sim::get(MI + (int)k);
            // the due time of this tick: k ticks were made and m were missed before it
            i64 due_lo = lo + (k + m + 1) * I, due_hi = hi + (k + m + 1) * I;
            i64 pm = k ? sim::get(MI + (int)k - 1) : 0;
            if (m < pm)
                sim::fail("C17", "missed_callback_count() went from %lld to %lld", (long long)pm, (long long)m);
            if (k == 0 && m)
                sim::fail("C17", "missed_callback_count() is %lld before the first callback", (long long)m);
            if (st(k) < due_lo)
                sim::fail("C17", "interval %lld ns: callback %lld (after %lld missed ones) was made %lld ns before its time", (long long)I, (long long)k, (long long)m, (long long)(due_lo - st(k)));
            i64 slack = (k + 1 < n ? sim::get(SL + (int)k) : sim::total_slack()) - (k ? sim::get(SL + (int)k - 1) : slack0);
            i64 from = due_hi;
            if (st(k) > from + slack + tol)
                sim::fail("C17", "interval %lld ns: callback %lld (after %lld missed ones) was made %lld ns after its time, only %lld ns are explained by delays", (long long)I, (long long)k, (long long)m, (long long)(st(k) - from), (long long)slack);
            if (k)
            {
                // ticks are missed only for the time the previous callback took
                i64 pdue_hi = hi + (k - 1 + pm + 1) * I, pdue_lo = lo + (k - 1 + pm + 1) * I;
                i64 over_hi = en(k - 1) + slack + tol - pdue_lo, over_lo = en(k - 1) - pdue_hi - gran;
                i64 dm = m - pm;
                // due times strictly inside (previous due, end of the callback], each is missed
                i64 max_missed = over_hi <= 0 ? 0 : (over_hi - 1) / I, min_missed = over_lo <= I ? 0 : (over_lo - 1) / I;
                if (dm > max_missed)
                    sim::fail("C17", "interval %lld ns: %lld callbacks counted as missed when the previous one ended %lld ns after its due time", (long long)I, (long long)dm, (long long)(en(k - 1) - pdue_lo));
                if (dm < min_missed)
                    sim::fail("C17", "interval %lld ns: %lld callbacks counted as missed, the previous one ended %lld ns after its due time", (long long)I, (long long)dm, (long long)(en(k - 1) - pdue_hi));
            }
            if (st(k) >= c0 && st(k) <= c1)
            {
                calm++;
                if (last >= 0 && gran == 0 && (st(k) - last < I - tol || st(k) - last > I + tol))
                    sim::fail("C17", "interval %lld ns: two callbacks %lld ns apart although nothing disturbs the timer any more", (long long)I, (long long)(st(k) - last));
                last = st(k);
            }
        }
        if (calm < (gran ? 4 : 5) || calm > (gran ? 8 : 7))
            sim::fail("C17", "interval %lld ns: %lld callbacks in 6 intervals although nothing disturbs the timer any more", (long long)I, (long long)calm);
        // every due time up to now is accounted for: either invoked or missed
        i64 total = inv + missed;
        if (lo + total * I > stopped || hi + (total + 1) * I + tol < c1)
            sim::fail("C17", "interval %lld ns: %lld invoked and %lld missed callbacks in %lld ns", (long long)I, (long long)inv, (long long)missed, (long long)(stopped - lo));
    });
}
// nothing takes time but the callbacks: every tick and every missed tick is known exactly, also when a callback returns at a due time
SCENARIO(timer_exact, "timer.exact")
{
    static const i64 ivs[] = {10 * MS, MS, 1, 7'777'777, 3, 2 * SEC};
    i64 I = sim::one_of(ivs);
    int n = (int)sim::draw(1, 12), rounds = (int)sim::draw(1, 2);
    i64 dur[12];
    for (auto& d : dur)
    {
        // in quarters of the interval; then one nanosecond more or less
        static const i64 q[] = {0, 4, 8, 2, 6, 40, 20, 4000};
        d = std::max<i64>(0, I * sim::one_of(q) / 4 + sim::draw(0, 2) * (sim::chance(1, 2) ? 1 : -1));
    }
    sim::swarm_schedule_faults();
    sim::cfg.clock_tick = 0;
    sim::nontrivial();
    sim::run([&] {
        high_precision_timer t;
        for (int r = 0; r < rounds; r++)
        {
            std::promise<void> ended;
            i64 due = sim::now() + I, missed = 0;
            int k = 0;
            t.set_callback([&] {
                if (k >= n)
                    return;
                if (sim::now() != due)
                    sim::fail("C17", "interval %lld ns: callback %d was made at %lld ns, its time is %lld ns", (long long)I, k, (long long)sim::now(), (long long)due);
                if ((i64)t.missed_callback_count() != missed || (i64)t.invoked_callback_count() != k)
                    sim::fail("C17", "interval %lld ns: during callback %d %lld invoked and %lld missed callbacks are counted instead of %d and %lld", (long long)I, k, (long long)t.invoked_callback_count(),
                              (long long)t.missed_callback_count(), k, (long long)missed);
                if (dur[k])
                    std::this_thread::sleep_for(ns(dur[k]));
                due += I;
                while (sim::now() > due)
                {
                    due += I;
                    missed++;
                }
                if (++k == n)
                    ended.set_value();
            });
            if (!t.start(ns(I)))
                sim::fail("C18", "start() returned false although a callback is set");
            ended.get_future().wait();
            t.stop();
        }
    });
}
// the counters as another thread sees them
SCENARIO(timer_counters, "timer.counters")
{
    static const i64 ivs[] = {10 * MS, MS, 100 * MS};
    i64 I = sim::one_of(ivs);
    bool slow = sim::chance(1, 2);
    int periods = (int)sim::draw(2, 12), reads = (int)sim::draw(2, 40);
    sim::swarm_schedule_faults();
    i64 at[40];
    for (auto& a : at)
        a = sim::draw(0, 100);
    if (sim::chance(1, 6))
        sim::cfg.clock_granularity = I / 5;
    sim::nontrivial();
    sim::run([&] {
        high_precision_timer t;
        t.set_callback([&] {
            i64 k = sim::add(K) - 1;
            if (slow && k % 3 == 1)
                std::this_thread::sleep_for(ns(I * 250 / 100));
            sim::set(DONE, k + 1);
        });
        if (t.invoked_callback_count() || t.missed_callback_count())
            sim::fail("C18", "the counters of a new timer are not zero");
        i64 b = sim::now();
        t.start(ns(I));
        clients c;
        c.go([&] {
            i64 pi = 0, pm = 0;
            for (int r = 0; r < reads; r++)
            {
                // close to the due times, where the counters change
                sleep_to(b + (r * periods / reads) * I + (at[r] < 70 ? I : at[r] * I / 100));
                for (int x = 0; x < 3; x++)
                {
                    i64 done = sim::get(DONE);
                    i64 i = (i64)t.invoked_callback_count(), m = (i64)t.missed_callback_count();
                    i64 started = sim::get(K);
                    if (i > started || i < done - 1)
                        sim::fail("C17", "invoked_callback_count() is %lld when between %lld and %lld callbacks were made", (long long)i, (long long)done, (long long)started);
                    if (i < pi || m < pm)
                        sim::fail("C17", "a counter went backwards: invoked %lld -> %lld, missed %lld -> %lld", (long long)pi, (long long)i, (long long)pm, (long long)m);
                    if (!slow && m)
                        sim::fail("C17", "missed_callback_count() is %lld although every callback returned at once", (long long)m);
                    pi = i;
                    pm = m;
                }
            }
        });
        sleep_to(b + periods * I + I / 2);
        c.join();
        t.stop();
        i64 i = (i64)t.invoked_callback_count();
        if (i != sim::get(K))
            sim::fail("C17", "%lld callbacks were made, invoked_callback_count() is %lld", (long long)sim::get(K), (long long)i);
    });
}

// ---- C18: start, stop, restart, destroy ------------------------------------------------------------------------------------
SCENARIO(timer_lifecycle, "timer.lifecycle")
{
    int n = (int)sim::draw(1, 8);
    struct cmd
    {
        int kind;
        i64 gap, interval;
    };
    std::vector<cmd> cs;
    static const i64 ivs[] = {10 * MS, 2 * MS, 1000 * HOUR, 35 * MS};
    static const i64 gaps[] = {0, 10 * MS, 5 * MS, 21 * MS, 10 * MS + 1};
    for (int i = 0; i < n; i++)
        cs.push_back({(int)sim::draw(0, 3), sim::one_of(gaps), sim::one_of(ivs)});
    bool slow = sim::chance(1, 3), destroy = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    static const i64 scales[] = {MS, 20 * MS};
    sim::swarm_time_faults(sim::one_of(scales));
    sim::nontrivial();
    enum { GEN = 1, RUNNING = 2, N = 3, BEGUN = 4, INTERVAL = 5, IN = 6 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            auto t = std::make_unique<high_precision_timer>();
            if (t->start(ns(MS)))
                sim::fail("C18", "start() without a callback returned true");
            t->stop();
            if (sim::threads_alive() != 1)
                sim::fail("C18", "start() without a callback started a thread");
            t->set_callback([c = tracked(3), slow] {
                if (!sim::get(RUNNING))
                    sim::fail("C18", "a callback was made after stop() had returned");
                i64 g = sim::get(GEN);
                i64 k = sim::add(N);
                sim::add(IN);
                if (sim::now() < sim::get(BEGUN) + k * sim::get(INTERVAL))
                    sim::fail("C18", "callback %lld after the last start() was made %lld ns after it, the interval is %lld ns", (long long)k, (long long)(sim::now() - sim::get(BEGUN)), (long long)sim::get(INTERVAL));
                if (slow)
                    std::this_thread::sleep_for(ns(3 * MS));
                c.get();
                if (!sim::get(RUNNING) || sim::get(GEN) != g)
                    sim::fail("C18", "a callback was still running after stop() or start() had returned");
                sim::add(IN, -1);
            });
            auto stop = [&](bool kill) {
                i64 a = sim::now(), s = sim::total_slack();
                if (kill)
                    t.reset();
                else
                    t->stop();
                sim::set(RUNNING, 0);
                i64 took = sim::now() - a, allowed = sim::total_slack() - s + (slow ? 6 * MS : 0) + TOL;  // a late callback and the next one
                // after a delay the timer catches up with callbacks that follow one another at once: stop() competes with each
                if (slow && sim::get(INTERVAL) > 0)
                    allowed += sim::total_slack() / sim::get(INTERVAL) * 3 * MS;
                // a callback longer than the interval is followed by the next one at once: then stop() competes for the lock with each
                bool back_to_back = slow && sim::get(INTERVAL) <= 3 * MS;
                if (took > allowed && !back_to_back)
                    sim::fail("C18", "stopping the timer took %lld ns of which %lld ns are explained by delays and a running callback", (long long)took, (long long)allowed);
                if (sim::get(IN))
                    sim::fail("C18", "the timer was stopped while a callback is running");
            };
            bool run = false;
            for (auto& c : cs)
            {
                if (c.kind == 0 || c.kind == 3)
                {
                    if (run)
                    {
                        // a restart: nothing of the first run may leak into the second one
                        stop(false);
                    }
                    sim::set(GEN, sim::get(GEN) + 1);
                    sim::set(N, 0);
                    sim::set(INTERVAL, c.interval);
                    sim::set(BEGUN, sim::now());
                    sim::set(RUNNING, 1);
                    if (!t->start(ns(c.interval)))
                        sim::fail("C18", "start() returned false although a callback is set");
                    run = true;
                    i64 i = (i64)t->invoked_callback_count();
                    if (i > sim::get(N))
                        sim::fail("C18", "invoked_callback_count() is %lld right after start(), %lld callbacks were made since", (long long)i, (long long)sim::get(N));
                    if (t->missed_callback_count() && sim::now() - sim::get(BEGUN) < 2 * c.interval)
                        sim::fail("C18", "missed_callback_count() is %llu right after start()", (unsigned long long)t->missed_callback_count());
                }
                else if (c.kind == 1)
                {
                    i64 before = run ? -1 : sim::get(N);
                    stop(false);
                    run = false;
                    i64 k = sim::get(N);
                    if (before >= 0 && k != before)
                        sim::fail("C18", "a stopped timer made a callback");
                    if ((i64)t->invoked_callback_count() != k)
                        sim::fail("C18", "invoked_callback_count() is %llu after stop(), %lld callbacks were made", (unsigned long long)t->invoked_callback_count(), (long long)k);
                }
                sleep_to(sim::now() + c.gap);
            }
            if (run && sim::get(INTERVAL) <= 35 * MS)
            {
                // still alive
                i64 k = sim::get(N);
                sim::no_faults(true);
                sleep_to(sim::now() + sim::cfg.stall_max + 3 * sim::get(INTERVAL) + 4 * MS);
                if (sim::get(N) == k)
                    sim::fail("C18", "a restarted timer makes no callbacks");
                sim::no_faults(false);
            }
            stop(destroy);
        }
        if (sim::threads_alive() != 1)
            sim::fail("C18", "a destroyed timer left a thread behind");
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed timer leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// start() of a running timer restarts it
SCENARIO(timer_restart, "timer.restart")
{
    static const i64 ivs[] = {10 * MS, 2 * MS, 1000 * HOUR, 35 * MS};
    i64 i1 = sim::one_of(ivs), i2 = sim::one_of(ivs);
    i64 gap = sim::draw(0, 12) * MS * 5 / 2;
    bool change = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { A = 1, B = 2, SECOND = 3 };
    sim::run([&] {
        high_precision_timer t;
        t.set_callback([] {
            if (sim::get(SECOND))
                sim::add(B);
            else
                sim::add(A);
        });
        t.start(ns(i1));
        i64 b1 = sim::now();
        sleep_to(b1 + gap);
        if (!change)
            i2 = i1;
        t.start(ns(i2));
        i64 b2 = sim::now();
        sim::set(SECOND, 1);
        if (t.invoked_callback_count() || t.missed_callback_count())
            sim::fail("C18", "the counters are not reset by a restart");
        i64 a = sim::get(A);
        sleep_to(b2 + 50 * MS + MS / 2);
        i64 want = (50 * MS + MS / 2) / i2, got = sim::get(B);
        if (got != want)
            sim::fail("C18", "after a restart with interval %lld ns, %lld callbacks were made in 50.5 ms", (long long)i2, (long long)got);
        if (sim::get(A) != a)
            sim::fail("C18", "a callback of the first run was made after the restart");
        if (sim::threads_alive() != 2)
            sim::fail("C18", "a restarted timer has %d threads", sim::threads_alive() - 1);
        t.stop();
        if ((i64)t.invoked_callback_count() != want)
            sim::fail("C18", "invoked_callback_count() is %llu after stop(), %lld callbacks were made", (unsigned long long)t.invoked_callback_count(), (long long)want);
    });
}

// ---- C19: replacing the callback ----------------------------------------------------------------------------------------------------
SCENARIO(timer_replace, "timer.replace")
{
    static const i64 ivs[] = {2 * MS, 10 * MS};
    i64 I = sim::one_of(ivs);
    int n = (int)sim::draw(1, 6);
    i64 gaps[6];
    for (auto& g : gaps)
        g = sim::draw(0, 6) * I / 2;
    bool slow = sim::chance(1, 3);
    int clients_n = sim::chance(1, 4) ? 2 : 1;
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::cfg.stall_max = 5 * MS;
    sim::nontrivial();
    enum { SETTING = 1, CURRENT = 2, CALLS = 3, PER = 10, STALE = 50 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            high_precision_timer t;
            auto set = [&](int id) {
                t.set_callback(
                    [id, slow, two = clients_n == 2](const tracked& v, const std::string& s) {
                        // once set_callback() has returned, only the call that was just being made may still reach the old callback
                        if (!two && id < sim::get(CURRENT) && sim::add(STALE + id) > 1)
                            sim::fail("C19", "callback %d was called again after it had been replaced by %lld", id, (long long)sim::get(CURRENT));
                        if (id > sim::get(SETTING))
                            sim::fail("C19", "callback %d was called before it was set", id);
                        sim::add(CALLS);
                        sim::add(PER + id);
                        if (slow)
                            std::this_thread::sleep_for(ns(MS));
                        if (v.get() != id || s != "callback number " + std::to_string(id) + " has an argument on the heap")
                            sim::fail("C19", "callback %d was called with the arguments of another one", id);
                    },
                    tracked(id), "callback number " + std::to_string(id) + " has an argument on the heap");
            };
            sim::set(SETTING, 0);
            set(0);
            t.start(ns(I));
            clients c;
            sim::set(SETTING, clients_n * n);
            for (int k = 0; k < clients_n; k++)
                c.go([&, k] {
                    for (int i = 1; i <= n; i++)
                    {
                        std::this_thread::sleep_for(ns(gaps[(i - 1 + k) % 6]));
                        int id = k * n + i;
                        if (clients_n == 1)
                            sim::set(SETTING, id);
                        set(id);
                        if (clients_n == 1)
                            sim::set(CURRENT, id);
                    }
                });
            c.join();
            sim::no_faults(true);
            sleep_to(sim::now() + 5 * MS + 2 * MS);
            i64 before = clients_n == 1 ? sim::get(PER + n) : 0;
            sleep_to(sim::now() + 4 * I);
            if (clients_n == 1 && sim::get(PER + n) - before < 3)
                sim::fail("C19", "the last callback that was set was called %lld times in 4 intervals", (long long)(sim::get(PER + n) - before));
            if (tracked::live() > 1)
                sim::fail("C30", "%lld replaced callbacks were not released", (long long)tracked::live() - 1);
            t.stop();
            if ((i64)t.invoked_callback_count() != sim::get(CALLS))
                sim::fail("C17", "%lld callbacks were made, invoked_callback_count() is %llu", (long long)sim::get(CALLS), (unsigned long long)t.invoked_callback_count());
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed timer leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C07 ----------------------------------------------------------------------------------------------------------------------------
SCENARIO(timer_create, "timer.createfail")
{
    int tries = (int)sim::draw(1, 4);
    bool running_before = sim::chance(1, 3), dtor = sim::chance(1, 4);
    sim::swarm_schedule_faults();
    static const i64 rates[] = {2, 1, 3};
    sim::cfg.rate[sim::F_CREATE_FAIL] = (int)sim::one_of(rates);
    enum { N = 1, DEAD = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            high_precision_timer t;
            t.set_callback([c = tracked(1)] {
                c.get();
                if (sim::get(DEAD))
                    sim::fail("C07", "a timer makes callbacks after start() threw");
                sim::add(N);
            });
            if (running_before)
                t.start(ns(MS));
            bool ok = false;
            for (int i = 0; i < tries && !ok; i++)
            {
                sim::set_create_faults(true);
                try
                {
                    ok = t.start(ns(2 * MS));
                    sim::set_create_faults(false);
                    if (!ok)
                        sim::fail("C07", "start() returned false although a callback is set");
                }
                catch (const std::system_error&)
                {
                    sim::set_create_faults(false);
                    sim::nontrivial();
                    sim::set(DEAD, 1);
                    if (sim::threads_alive() != 1)
                        sim::fail("C07", "start() of a timer threw and left %d threads behind", sim::threads_alive() - 1);
                    sleep_to(sim::now() + 5 * MS);
                    if (t.invoked_callback_count())
                        sim::fail("C07", "start() of a timer threw, and the timer counts callbacks");
                    if (i % 2)
                        t.stop();
                    sim::set(DEAD, 0);
                }
            }
            if (!ok && dtor)
                return;
            if (!ok && !t.start(ns(2 * MS)))
                sim::fail("C07", "start() after a failed start() returned false");
            i64 k = sim::get(N);
            i64 b = sim::now();
            sleep_to(b + 9 * MS);
            if (sim::get(N) - k != 4)
                sim::fail("C07", "a timer started after a failed start() made %lld callbacks in 4.5 intervals", (long long)(sim::get(N) - k));
            t.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed timer leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C32: callbacks that use their timer ------------------------------------------------------------------------------------------
SCENARIO(timer_reentrant, "timer.reentrant")
{
    int mode = (int)sim::draw(0, 2), when = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { A = 1, B = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            high_precision_timer t, u;
            u.set_callback([c = tracked(2)] {
                c.get();
                sim::add(B);
            });
            t.set_callback([&, c = tracked(1)] {
                i64 k = sim::add(A);
                if (k == when)
                    switch (mode)
                    {
                    case 0:
                        t.set_callback([d = tracked(3)] {
                            d.get();
                            sim::add(B);
                        });
                        break;
                    case 1: u.start(ns(5 * MS)); break;
                    case 2:
                        if ((i64)t.invoked_callback_count() != k - 1 || t.missed_callback_count())
                            sim::fail("C32", "the counters are wrong inside a callback");
                        break;
                    }
                c.get();
            });
            i64 b = sim::now();
            t.start(ns(5 * MS));
            sleep_to(b + 51 * MS);
            if (sim::get(A) != (mode == 0 ? when : 10))
                sim::fail("C32", "callback A was made %lld times", (long long)sim::get(A));
            if (mode == 0 && sim::get(B) != 10 - when)
                sim::fail("C32", "the callback set from within a callback was made %lld times instead of %d", (long long)sim::get(B), 10 - when);
            if (mode == 1 && sim::get(B) != 10 - when)
                sim::fail("C32", "the timer started from a callback made %lld callbacks instead of %d", (long long)sim::get(B), 10 - when);
            t.stop();
            u.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed timer leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// callbacks that use their timer while it is being stopped or destroyed
SCENARIO(timer_busystop, "timer.busystop")
{
    int rounds = (int)sim::draw(1, 2), n = (int)sim::draw(1, 3);
    bool destroy = sim::chance(1, 3), replace = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    enum { BUSY = 1, STARTED = 2, STOPPED = 3, STOPPING = 4 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            high_precision_timer t;
            for (int r = 0; r < rounds; r++)
            {
                sim::set(STARTED, 0);
                sim::set(STOPPED, 0);
                sim::set(STOPPING, 0);
                auto body = [&](int k, const tracked& c) {
                    if (sim::get(STOPPED))
                        sim::fail("C18", "a callback was made after stop() had returned");
                    sim::add(BUSY);
                    sim::add(STARTED);
                    for (int i = 0; i < n || (!sim::get(STOPPING) && i < 1000); i++)
                    {
                        uint64_t a = t.invoked_callback_count(), b = t.missed_callback_count();
                        if (t.invoked_callback_count() != a || t.missed_callback_count() != b)
                            sim::fail("C17", "the counters change during a callback");
                        if (replace && i == 0 && k == 0)
                            t.set_callback([&, d = tracked(6)] {
                                if (sim::get(STOPPED))
                                    sim::fail("C18", "a callback was made after stop() had returned");
                                d.get();
                            });
                        std::this_thread::sleep_for(ns(2 * US));
                    }
                    c.get();
                    sim::add(BUSY, -1);
                };
                t.set_callback(body, 0, tracked(5));
                if (!t.start(ns(5 * US)))
                    sim::fail("C18", "start() returned false");
                while (!sim::get(STARTED))
                    std::this_thread::sleep_for(ns(US));
                sim::set(STOPPING, 1);
                if (destroy && r == rounds - 1)
                    break;
                t.stop();
                sim::set(STOPPED, 1);
                if (sim::get(BUSY))
                    sim::fail("C18", "stop() returned while a callback was running");
            }
        }
        if (sim::get(BUSY))
            sim::fail("C18", "the timer was destroyed while a callback was running");
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed timer leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
}

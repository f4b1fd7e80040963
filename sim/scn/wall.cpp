// C23: steps of the wall clock change nothing for delays, intervals, cadences. The wall clock steps by up to years, forwards
// and backwards, at arbitrary points; nothing else delays anybody, so that every time is known exactly.
#include "scn.h"

#include <teiacare/sdk/clock.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/task_scheduler.hpp>

#include <atomic>
#include <chrono>
#include <future>
#include <memory>
#include <optional>
#include <string>

using namespace scn;
using ns = std::chrono::nanoseconds;
using clk = tc::sdk::clock;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS, HOUR = 3600 * SEC, DAY = 24 * HOUR;
constexpr i64 TOL = 20 * US;  // clock reads cost 1 ns each

void sleep_to(i64 t)
{
    while (sim::now() < t)
        std::this_thread::sleep_for(ns(t - sim::now()));
}
void jumpy()
{
    static const int rates[] = {3, 8, 30, 100};
    static const i64 maxs[] = {HOUR, 10 * MS, SEC, 400 * DAY, 20 * 365 * DAY};
    sim::cfg.rate[sim::F_WALL_JUMP] = rates[sim::draw(0, 3)];
    sim::cfg.wall_jump_max = sim::one_of(maxs);
    sim::nontrivial();
}
// somebody sets the clock at times of his own choosing, also while everybody sleeps
struct setter
{
    std::atomic<bool> stop{false};
    std::thread t;
    setter(i64 step, i64 delta)
        : t([this, step, delta] {
            for (int k = 0; !stop && k < 200; k++)
            {
                std::this_thread::sleep_for(ns(step));
                sim::set_wall_jump(k % 2 ? -delta : delta);
            }
        })
    {
    }
    ~setter()
    {
        stop = true;
        t.join();
    }
};

SCENARIO(wall_sched, "wall.scheduler")
{
    int n = (int)sim::draw(1, 6), workers = (int)sim::draw(1, 3);
    struct job
    {
        i64 delay, interval;
        int api;
    };
    static const i64 delays[] = {5 * MS, 0, 1 * MS, 10 * MS, 40 * MS, 300 * MS};
    static const i64 intervals[] = {10 * MS, 7 * MS, 25 * MS, 100 * MS};
    std::vector<job> jobs;
    for (int i = 0; i < n; i++)
        jobs.push_back({sim::one_of(delays), sim::one_of(intervals), (int)sim::draw(0, 4)});
    i64 step = sim::draw(1, 60) * MS / 2, delta = sim::draw(1, 100) * SEC * sim::draw(1, 1000);
    bool update = sim::chance(1, 4);
    jumpy();
    enum { K = 100, H = 1000, HM = 500 };
    sim::run([&] {
        tc::sdk::task_scheduler s;
        s.start(workers);
        std::vector<i64> t0(n), t1(n), slack(n);
        i64 begin = sim::now();
        {
            setter st(step, delta);
            for (int i = 0; i < n; i++)
            {
                job& j = jobs[i];
                auto f = [i] {
                    i64 k = sim::add(K + i) - 1;
                    if (k < HM)
                        sim::set(H + i * HM + (int)k, sim::now());
                };
                t0[i] = sim::now();
                bool ok;
                std::string id = "job " + std::to_string(i);
                switch (j.api)
                {
                case 0: ok = s.in(ns(j.delay), f).has_value(); break;
                case 1: ok = s.at(clk::now() + ns(j.delay), f).has_value(); break;
                case 2: ok = s.in(std::move(id), ns(j.delay), f).has_value(); break;
                case 3: ok = s.every(std::move(id), ns(j.interval), f); break;
                default: ok = s.every(std::move(id), ns(j.interval), ns(j.delay), f); break;
                }
                t1[i] = sim::now();
                if (!ok)
                    sim::fail("C23", "the scheduler refused task %d", i);
            }
            sleep_to(begin + 203 * MS + 500 * US);  // when nothing is due: an update next to a due time may skip it
            if (update)
                for (int i = 0; i < n; i++)
                    if (jobs[i].api >= 3 && !s.update_interval("job " + std::to_string(i), ns(jobs[i].interval)))
                        sim::fail("C23", "task %d is gone after the clock was set", i);
            sleep_to(begin + 500 * MS);
        }
        i64 end = sim::now();
        s.stop();
        for (int i = 0; i < n; i++)
        {
            job& j = jobs[i];
            i64 cnt = sim::get(K + i);
            i64 d = j.api == 3 ? 0 : j.delay;
            if (j.api < 3)
            {
                if (cnt != 1)
                    sim::fail("C23", "the task due in %lld ns was executed %lld times in %lld ns while the wall clock was being set", (long long)d, (long long)cnt, (long long)(end - begin));
                i64 st = sim::get(H + i * HM);
                if (st < t0[i] + d || st > t1[i] + d + TOL)
                    sim::fail("C23", "the task due in %lld ns was started after %lld ns while the wall clock was being set", (long long)d, (long long)(st - t0[i]));
                continue;
            }
            for (i64 k = 0; k < cnt && k < HM; k++)
            {
                i64 st = sim::get(H + i * HM + (int)k), due = d + k * j.interval;
                if (st < t0[i] + due || st > t1[i] + due + TOL)
                    sim::fail("C23", "start %lld of the task due every %lld ns happened after %lld ns while the wall clock was being set", (long long)k, (long long)j.interval, (long long)(st - t0[i]));
            }
            i64 expect = end - TOL - t1[i] < d ? 0 : (end - TOL - t1[i] - d) / j.interval + 1;
            if (cnt < expect)
                sim::fail("C23", "the task due every %lld ns was started %lld times instead of %lld while the wall clock was being set", (long long)j.interval, (long long)cnt, (long long)expect);
        }
    });
}

SCENARIO(wall_timer, "wall.timer")
{
    static const i64 ivs[] = {10 * MS, MS, 16'666'667, 100 * MS};
    i64 I = sim::one_of(ivs);
    int periods = (int)sim::draw(3, 30);
    i64 step = I * sim::draw(1, 30) / 10, delta = sim::draw(1, 100) * SEC * sim::draw(1, 1000);
    jumpy();
    enum { K = 100, H = 1000, HM = 200 };
    sim::run([&] {
        setter* st = new setter(step, delta);
        tc::sdk::high_precision_timer t;
        t.set_callback([&] {
            i64 k = sim::add(K) - 1;
            if (k < HM)
                sim::set(H + (int)k, sim::now());
        });
        i64 lo = sim::now();
        t.start(ns(I));
        i64 hi = sim::now();
        sleep_to(hi + periods * I + I / 2);
        t.stop();
        delete st;
        i64 n = sim::get(K);
        for (i64 k = 0; k < n && k < HM; k++)
        {
            i64 at = sim::get(H + (int)k);
            if (at < lo + (k + 1) * I || at > hi + (k + 1) * I + TOL)
                sim::fail("C23", "callback %lld of a timer with an interval of %lld ns came after %lld ns while the wall clock was being set", (long long)k, (long long)I, (long long)(at - lo));
        }
        if (n != periods || (i64)t.invoked_callback_count() != n || t.missed_callback_count() != 0)
            sim::fail("C23", "a timer with an interval of %lld ns made %lld callbacks (%llu missed) in %d intervals while the wall clock was being set", (long long)I, (long long)n,
                      (unsigned long long)t.missed_callback_count(), periods);
    });
}

SCENARIO(wall_rate, "wall.rate")
{
    static const i64 rates[] = {60, 1000, 1, 50, 144, 7};
    i64 rate = sim::one_of(rates), P = SEC / rate;
    int frames = (int)sim::draw(1, 40), skip = (int)sim::draw(0, 3);
    i64 step = P * sim::draw(1, 30) / 10, delta = sim::draw(1, 100) * SEC * sim::draw(1, 1000);
    jumpy();
    sim::run([&] {
        setter st(step, delta);
        i64 lo = sim::now();
        tc::sdk::rate_limiter r((size_t)rate);
        i64 hi = sim::now();
        for (int k = 1; k <= frames; k++)
        {
            if (skip && k % 5 == skip)
                std::this_thread::sleep_for(ns(P * skip));
            i64 due = (i64)((__int128)k * SEC / rate);
            i64 call = sim::now();
            r.sync();
            i64 ret = sim::now();
            if (ret < lo + due - US || ret > std::max(hi + due, call) + TOL)
                sim::fail("C23", "sync() number %d at %lld per second returned after %lld ns while the wall clock was being set", k, (long long)rate, (long long)(ret - lo));
        }
    });
}
}

// rate_limiter, stopwatch, the current date and time
#include "scn.h"

#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/stopwatch.hpp>

#include <chrono>

using namespace scn;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS, HOUR = 3600 * SEC, DAY = 24 * HOUR;

// ---- C22: rate_limiter -------------------------------------------------------------------------------------------
SCENARIO(rate_cadence, "rate.cadence")
{
    static const i64 rates[] = {60, 1000, 1, 50, 144, 7, 333, 100000, 30};
    int nt = (int)sim::draw(1, 3);
    i64 rate[3];
    int frames[3];
    i64 work[3][8];
    bool cpu[3];
    for (int t = 0; t < nt; t++)
    {
        rate[t] = sim::one_of(rates);
        frames[t] = (int)sim::draw(1, 40);
        cpu[t] = sim::chance(1, 2);
        for (auto& w : work[t])
        {
            // percent of the period
            static const i64 pct[] = {0, 30, 90, 100, 150, 400, 1030, 6000, 150000};
            w = SEC / rate[t] * sim::one_of(pct) / 100;
        }
    }
    sim::swarm_schedule_faults();
    if (sim::chance(2, 3))
        sim::swarm_time_faults(SEC / rate[0] * 3);
    else
        sim::enable(sim::F_WALL_JUMP, 1, 3);
    i64 gran = 0;
    if (sim::chance(1, 6))
        gran = sim::cfg.clock_granularity = SEC / rate[0] / 3 + 1;
    sim::nontrivial();
    sim::run([&] {
        clients c;
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                // rates: the k-th sync() returns at b + k/rate, computed exactly
                i64 tol = 200;
                i64 b0 = sim::now() - gran;
                tc::sdk::rate_limiter r((size_t)rate[t]);
                i64 b1 = sim::now();
                for (int k = 1; k <= frames[t]; k++)
                {
                    i64 w = work[t][k % 8];
                    if (w)
                    {
                        sim::count(sim::F_USER_SLOW);
                        if (cpu[t])
                            sim::work(w);
                        else
                            std::this_thread::sleep_for(ns(w));
                    }
                    i64 due = (i64)((__int128)k * SEC / rate[t]);
                    i64 call = sim::now(), s0 = sim::total_slack();
                    r.sync();
                    i64 ret = sim::now(), slack = sim::total_slack() - s0;
                    if (ret < b0 + due - tol)
                        sim::fail("C22", "rate %lld: sync() number %d returned %lld ns early", (long long)rate[t], k, (long long)(b0 + due - ret));
                    i64 latest = std::max(call, b1 + due);
                    // what happened between the creation and its clock read is within [b0, b1]
                    if (ret > latest + slack + tol + 2 * gran)
                        sim::fail("C22", "rate %lld: sync() number %d returned %lld ns after it was due (called %lld ns before or after that), %lld ns are explained by delays", (long long)rate[t], k, (long long)(ret - b1 - due), (long long)(call - b1 - due), (long long)slack);
                }
            });
        c.join();
    });
}

// ---- C23: intervals are measured on the monotonic clock --------------------------------------------------------------
SCENARIO(wall_stopwatch, "wall.stopwatch")
{
    int n = (int)sim::draw(1, 20), nt = (int)sim::draw(1, 2);
    i64 gap[20];
    int what[20];
    for (int i = 0; i < 20; i++)
    {
        static const i64 gaps[] = {0, 1, 999, US, MS, 16 * MS, SEC, 60 * SEC, HOUR, 36 * HOUR, 2000 * HOUR};
        gap[i] = sim::one_of(gaps);
        what[i] = (int)sim::draw(0, 5);
    }
    sim::cfg.rate[sim::F_WALL_JUMP] = (int)sim::draw(2, 12);
    static const i64 jumps[] = {HOUR, SEC, 24 * 400 * HOUR, MS};
    sim::cfg.wall_jump_max = sim::one_of(jumps);
    sim::enable(sim::F_PROCESS_PAUSE, 1, 3);
    static const i64 ticks[] = {1, 25, 1000};
    sim::cfg.clock_tick = sim::one_of(ticks);
    sim::nontrivial();
    sim::run([&] {
        i64 a0 = sim::now();
        tc::sdk::stopwatch w;
        i64 a1 = sim::now();
        for (int i = 0; i < n; i++)
        {
            if (gap[i])
                std::this_thread::sleep_for(ns(gap[i]));
            if (what[i] == 0)
            {
                a0 = sim::now();
                w.reset();
                a1 = sim::now();
                continue;
            }
            if (what[i] == 1)
            {
                i64 s = w.start_time().time_since_epoch().count();
                if (s < a0 || s > a1)
                    sim::fail("C23", "start_time() is %lld, the stopwatch was started in [%lld,%lld]", (long long)s, (long long)a0, (long long)a1);
                continue;
            }
            i64 unit = what[i] == 4 ? MS : what[i] == 5 ? SEC : 1;
            i64 r0 = sim::now();
            i64 e = what[i] == 4 ? w.elapsed<std::chrono::milliseconds>().count() : what[i] == 5 ? w.elapsed<std::chrono::seconds>().count() : what[i] == 3 ? w.elapsed<ns>().count() : ns(w.elapsed()).count();
            i64 r1 = sim::now();
            if (e < (r0 - a1) / unit || e > (r1 - a0) / unit)
                sim::fail("C23", "elapsed() returned %lld (unit %lld ns), between %lld and %lld ns had passed", (long long)e, (long long)unit, (long long)(r0 - a1), (long long)(r1 - a0));
        }
        (void)nt;
    });
}

// ---- C24: the current date and time ---------------------------------------------------------------------------------------
i64 at(const tc::sdk::datetime& d) { return d.to_time_point().time_since_epoch().count(); }
SCENARIO(now_consistent, "now.consistent")
{
    static const i64 days[] = {19675, 19781, 19782, 1, 11016, 40000, 24837, 20819};  // around: 2023-11-14, end of February of a leap year, 1970, 2000, 2079, 2038, 2026-12-31
    static const i64 offs[] = {-1, 0, -50, -SEC, -HOUR, -7 * MS, 12 * HOUR, HOUR - 1, HOUR + SEC - 3};
    i64 day = sim::one_of(days), off = sim::one_of(offs);
    sim::cfg.wall_start = day * DAY + off;
    // the clock moves on by this much with each read
    static const i64 ticks[] = {1, 40, US, MS, SEC, 61 * SEC, HOUR, 25 * HOUR};
    sim::cfg.clock_tick = sim::one_of(ticks);
    int nt = (int)sim::draw(1, 2), n = (int)sim::draw(1, 10);
    int what[2][10];
    i64 jump[2][10];
    for (auto& row : what)
        for (int& x : row)
            x = (int)sim::draw(0, 11);
    for (auto& row : jump)
        for (i64& x : row)
        {
            static const i64 js[] = {0, 0, 0, DAY, -DAY, 1, -1, HOUR, -HOUR, 365 * DAY, SEC, -SEC};
            x = sim::one_of(js);
        }
    sim::enable(sim::F_WALL_JUMP, 1, 3);
    static const i64 wj[] = {SEC, 30 * HOUR, 400 * DAY, MS};
    sim::cfg.wall_jump_max = sim::one_of(wj);
    sim::enable(sim::F_PROCESS_PAUSE, 1, 3);
    sim::enable(sim::F_THREAD_STALL, 1, 4);
    sim::cfg.stall_max = 30 * HOUR;
    sim::nontrivial();
    sim::run([&] {
        clients c;
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                for (int i = 0; i < n; i++)
                {
                    if (jump[t][i] && sim::wall() + jump[t][i] > 0)
                    {
                        sim::set_wall_jump(jump[t][i]);
                        sim::count(sim::F_WALL_JUMP);
                    }
                    // a clock stepped to before 1970 is not considered
                    if (sim::wall() < 500 * DAY)
                        sim::set_wall_jump(2000 * DAY);
                    i64 j0 = sim::wall_jumps(), before = sim::wall(), m0 = sim::now();
                    i64 got, unit = 1, mod = 0;
                    const char* name;
                    using namespace std::chrono;
                    switch (what[t][i])
                    {
                    case 0: got = at(tc::sdk::datetime::utc_now<nanoseconds>()); name = "datetime::utc_now<nanoseconds>"; break;
                    case 1: got = at(tc::sdk::datetime::utc_now<microseconds>()); unit = US; name = "datetime::utc_now<microseconds>"; break;
                    case 2: got = at(tc::sdk::datetime::utc_now()); unit = MS; name = "datetime::utc_now"; break;
                    case 3: got = at(tc::sdk::datetime::utc_now<seconds>()); unit = SEC; name = "datetime::utc_now<seconds>"; break;
                    case 4: got = tc::sdk::time::utc_now<nanoseconds>().to_duration().count(); mod = DAY; name = "time::utc_now<nanoseconds>"; break;
                    case 5: got = tc::sdk::time::utc_now<microseconds>().to_duration().count(); unit = US; mod = DAY; name = "time::utc_now<microseconds>"; break;
                    case 6: got = tc::sdk::time::utc_now().to_duration().count(); unit = MS; mod = DAY; name = "time::utc_now"; break;
                    case 7: got = tc::sdk::time::utc_now<seconds>().to_duration().count(); unit = SEC; mod = DAY; name = "time::utc_now<seconds>"; break;
                    case 8: got = tc::sdk::time::utc_now<minutes>().to_duration().count(); unit = 60 * SEC; mod = DAY; name = "time::utc_now<minutes>"; break;
                    case 9: got = tc::sdk::time::utc_now<hours>().to_duration().count(); unit = HOUR; mod = DAY; name = "time::utc_now<hours>"; break;
                    default: got = tc::sdk::date::today().to_timepoint().time_since_epoch().count() * DAY; unit = DAY; name = "date::today"; break;
                    }
                    i64 after = sim::wall(), took = sim::now() - m0;
                    bool jumped = sim::wall_jumps() != j0;
                    if (got % unit)
                        sim::fail("C24", "%s() returned %lld ns, not a multiple of its unit of %lld ns", name, (long long)got, (long long)unit);
                    if (jumped)
                    {
                        // somewhere between all values the clock had
                        if (nt == 1 && !mod)
                        {
                            i64 lo = std::min(before, after) - took, hi = std::max(before, after) + took;
                            if (sim::wall_jumps() == j0 + 1 && (got + unit <= lo || got > hi))
                                sim::fail("C24", "%s() returned %lld, the wall clock was between %lld and %lld", name, (long long)got, (long long)lo, (long long)hi);
                        }
                        if (mod && (got < 0 || got >= mod))
                            sim::fail("C24", "%s() returned %lld ns, which is no time of the day", name, (long long)got);
                        continue;
                    }
                    i64 lo = before - before % unit, hi = after - after % unit;
                    bool ok;
                    if (!mod)
                        ok = got >= lo && got <= hi;
                    else if (got < 0 || got >= mod)
                        ok = false;
                    else
                    {
                        // some instant in [lo, hi] with that time of the day
                        i64 x = lo - lo % mod + got;
                        if (x < lo)
                            x += mod;
                        ok = x <= hi;
                    }
                    if (!ok)
                        sim::fail("C24", "%s() returned %lld ns, the wall clock went from %lld to %lld ns meanwhile (time of the day %lld to %lld)", name, (long long)got, (long long)before, (long long)after, (long long)(before % DAY), (long long)(after % DAY));
                }
            });
        c.join();
    });
}
}

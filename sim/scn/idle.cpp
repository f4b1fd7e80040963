// Waiting is passive: while nothing is due, no thread of the library does anything.
// Each component is brought into a state by some operations, then simulated hours pass and the synchronisation operations are counted.
#include "scn.h"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <chrono>
#include <condition_variable>
#include <csignal>
#include <future>
#include <latch>
#include <memory>
#include <mutex>
#include <optional>

using namespace scn;
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
const char* const TAG = "C39";
constexpr i64 MS = 1000000, SEC = 1000 * MS, HOUR = 3600 * SEC, FAR = 100000 * HOUR;

// hours pass in which nothing is due
void quiet(const char* what, i64 hours)
{
    sim::no_faults(true);
    std::this_thread::sleep_for(1s);  // what went before comes to its end
    i64 t = sim::now(), p = sim::points(), slack = sim::total_slack();
    std::this_thread::sleep_for(ns(hours * HOUR));
    i64 used = sim::points() - p;
    if (used > 30)
        sim::fail(TAG, "%s: in %lld hours in which nothing was due the threads made %lld synchronisation operations", what, (long long)hours, (long long)used);
    if (sim::total_slack() - slack > MS)
        sim::fail(TAG, "%s: threads were running for %lld ns of the time", what, (long long)(sim::total_slack() - slack));
    if (sim::now() - t < hours * HOUR)
        sim::fail("error", "time did not pass");
    sim::no_faults(false);
}
i64 draw_hours()
{
    static const i64 h[] = {4, 25, 1000, 20000};
    return sim::one_of(h);
}

SCENARIO(idle_pool, "idle.pool")
{
    int w = (int)sim::draw(1, 6), rounds = (int)sim::draw(1, 3), n = (int)sim::draw(0, 6), mode = (int)sim::draw(0, 4);
    i64 hours = draw_hours();
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        tc::sdk::thread_pool p;
        if (mode == 4)  // not running, with tasks held back
        {
            for (int i = 0; i < n; i++)
                p.run([] {});
            quiet("a thread pool that was not started", hours);
        }
        for (int r = 0; r < rounds; r++)
        {
            p.start(w);
            for (int i = 0; i < n; i++)
                p.run([i] {
                    if (i % 3 == 2)
                        throw std::runtime_error("a task fails");
                });
            if (mode == 1)
                quiet("a thread pool without tasks", hours);
            if (mode == 2)
            {
                // some workers are busy, and in the second case more tasks wait for them
                std::mutex m;
                std::condition_variable cv;
                bool go = false;
                int blocked = (int)std::min<i64>(w, 1 + n);
                std::vector<std::future<void>> f;
                for (int i = 0; i < blocked + (blocked == w ? n : 0); i++)
                    f.push_back(p.run([&] {
                        std::unique_lock l(m);
                        cv.wait(l, [&] { return go; });
                    }));
                quiet("a thread pool whose tasks wait", hours);
                {
                    std::lock_guard l(m);
                    go = true;
                }
                cv.notify_all();
                for (auto& x : f)
                    x.get();
                quiet("a thread pool whose tasks have ended", hours);
            }
            p.stop();
            if (mode == 3)
                quiet("a thread pool that was stopped", hours);
        }
    });
}
SCENARIO(idle_events, "idle.events")
{
    int w = (int)sim::draw(1, 3), nh = (int)sim::draw(0, 3), n = (int)sim::draw(0, 5);
    bool stop = sim::chance(1, 3);
    i64 hours = draw_hours();
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        tc::sdk::event_dispatcher d;
        d.start(w);
        for (int h = 0; h < nh; h++)
            d.add_handler<int>("x", [](int) {});
        for (int i = 0; i < n; i++)
            d.emit("x", i);
        quiet("an event dispatcher to which nothing is emitted", hours);
        d.emit("x", 1);
        d.remove_event("x");
        d.emit("x", 1);
        if (stop)
            d.stop();
        quiet("an event dispatcher without handlers", hours);
    });
}
SCENARIO(idle_sched, "idle.sched")
{
    enum { NONE, ONCE, EVERY, LATER, DISABLED, REMOVED, UPDATED, SOON, KINDS };
    int w = (int)sim::draw(1, 3), n = (int)sim::draw(0, 6);
    std::vector<int> sc;
    for (int i = 0; i < n; i++)
        sc.push_back((int)sim::draw(0, KINDS - 1));
    bool stop = sim::chance(1, 4);
    i64 hours = draw_hours();
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        tc::sdk::task_scheduler s;
        s.start(w);
        for (int round = 0; round < 2; round++)
        {
            for (int i = 0; i < n; i++)
            {
                const std::string name = "task " + std::to_string(i + 100 * round);
                switch (sc[i])
                {
                case ONCE: s.in(std::string(name), ns(FAR), [] {}); break;
                case EVERY: s.every(std::string(name), ns(FAR), [] {}); break;
                case LATER: s.every(std::string(name), ns(FAR), ns(FAR / 2), [] {}); break;
                case DISABLED:
                    s.every(std::string(name), ns(FAR), [] {});
                    s.set_enabled(name, false);
                    break;
                case REMOVED:
                    s.in(std::string(name), 100ms, [] {});
                    s.remove_task(name);
                    break;
                case UPDATED:
                    s.every(std::string(name), 10ms, [] {});
                    std::this_thread::sleep_for(25ms);
                    s.update_interval(name, ns(FAR));
                    break;
                case SOON: s.in(10ms, [] { throw std::runtime_error("a task fails"); }); break;
                }
            }
            quiet("a task scheduler with nothing due", hours);
        }
        if (stop)
        {
            s.stop();
            quiet("a task scheduler that was stopped", hours);
        }
    });
}
SCENARIO(idle_timer, "idle.timer")
{
    int restarts = (int)sim::draw(0, 2), ticks = (int)sim::draw(0, 4);
    bool replace = sim::chance(1, 2), stop = sim::chance(1, 3);
    i64 hours = draw_hours();
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        tc::sdk::high_precision_timer t;
        t.set_callback([] {});
        for (int i = 0; i < restarts; i++)
        {
            t.start(5ms);
            std::this_thread::sleep_for(ns(ticks * 5 * MS));
        }
        t.start(ns(FAR));
        if (replace)
            t.set_callback([](int) {}, 3);
        quiet("a timer between two callbacks", hours);
        if (stop)
        {
            t.stop();
            quiet("a timer that was stopped", hours);
        }
    });
}
SCENARIO(idle_waits, "idle.waits")
{
    int mode = (int)sim::draw(0, 3), k = (int)sim::draw(1, 4), cap = (int)sim::draw(1, 3);
    bool before = sim::chance(1, 2);
    i64 hours = draw_hours();
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        tc::sdk::blocking_queue<int> q(cap);
        clients c;
        if (mode == 0)  // consumers wait
        {
            for (int i = 0; i < k; i++)
                c.go([&] {
                    if (q.pop() != 7)
                        sim::fail("C01", "wrong item");
                });
            if (before)
            {
                q.push(7);
                c.go([&] { q.pop(); });
            }
            quiet("consumers of an empty queue", hours);
            for (int i = 0; i < k; i++)
                q.push(7);
        }
        else if (mode == 1)  // producers wait
        {
            for (int i = 0; i < cap; i++)
                q.push(7);
            if (before)
                q.try_push(3);
            for (int i = 0; i < k; i++)
                c.go([&] { q.push(7); });
            quiet("producers of a full queue", hours);
            for (int i = 0; i < cap + k; i++)
                if (q.pop() != 7)
                    sim::fail("C01", "wrong item");
        }
        else if (mode == 2)
        {
            tc::sdk::install_signal_handlers();
            if (before)
            {
                tc::sdk::quit("first");
                tc::sdk::wait_for_quit();
            }
            c.go([] { tc::sdk::wait_for_quit(); });
            quiet("a thread that waits for quit", hours);
            tc::sdk::quit("second");
        }
        else
        {
            std::latch created(1);
            c.go([&] {
                // the next frame is about two years away
                tc::sdk::rate_limiter r(1);
                created.count_down();
                for (int i = 0; i < k; i++)
                    r.sync();
            });
            created.wait();
            c.join();
            quiet("a rate limiter that is not used", hours);
        }
        c.join();
    });
}
}

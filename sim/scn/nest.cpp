// Components used from inside the callbacks, handlers and tasks of other components.
#include "scn.h"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <chrono>
#include <functional>
#include <future>
#include <memory>
#include <mutex>

using namespace scn;
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
const char* const TAG = "C32";
constexpr i64 MS = 1000000;

SCENARIO(nest_chains, "nest.chains")
{
    // Each chain goes through the components in a drawn order; what one of them runs hands on to the next.
    enum { POOL, EMIT, ONE_EVENT, IN, EVERY, OBSERVE, QUEUE, TIMER, RESULT, RENEW, KINDS };
    static const char* const names[] = {"pool task", "event handler", "handler that removes itself", "scheduled task", "periodic task that removes itself", "callback of an observable", "consumer of a queue", "timer callback", "task awaited by another", "task that replaces a timer callback"};
    int nchains = (int)sim::draw(1, 6), w = (int)sim::draw(1, 3);
    std::vector<std::vector<int>> chains(nchains);
    for (auto& c : chains)
    {
        int n = (int)sim::draw(1, 8);
        for (int i = 0; i < n; i++)
            c.push_back((int)sim::draw(0, KINDS - 1));
    }
    int order = (int)sim::draw(0, 5);
    sim::swarm_schedule_faults();
    if (sim::chance(1, 2))
        sim::swarm_time_faults(MS);
    sim::nontrivial();
    enum { REACHED = 100 };  // + chain * 20 + level
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        i64 t0 = sim::now();
        {
            tc::sdk::blocking_queue<std::pair<int, int>> queue(1000);
            std::mutex mail_mutex;
            std::vector<std::pair<int, int>> mail;
            std::function<void(int, int)> go;
            tc::sdk::thread_pool pool, leaves;
            tc::sdk::event_dispatcher events;
            tc::sdk::task_scheduler sched;
            tc::sdk::high_precision_timer timer;
            auto tick = [&] {
                std::vector<std::pair<int, int>> all;
                {
                    std::lock_guard l(mail_mutex);
                    all.swap(mail);
                }
                for (auto& x : all)
                    go(x.first, x.second);
            };
            go = [&](int c, int level) {
                if (sim::add(REACHED + c * 20 + level) != 1)
                    sim::fail(TAG, "a %s was run twice", level ? names[chains[c][level - 1]] : "thread");
                if (level == (int)chains[c].size())
                    return;
                const int next = level + 1;
                switch (chains[c][level])
                {
                case POOL: pool.run(go, c, next); break;
                case EMIT:
                    if (!events.emit<int, int>("go", int(c), int(next)))
                        sim::fail(TAG, "emit() returned false");
                    break;
                case ONE_EVENT:
                {
                    const std::string name = "chain " + std::to_string(c) + " level " + std::to_string(level);
                    auto id = std::make_shared<std::promise<unsigned long>>();
                    auto when = std::make_shared<std::shared_future<unsigned long>>(id->get_future().share());
                    id->set_value(events.add_handler<int>(name, [&, c, when](int n) {
                        if (!events.remove_handler(when->get()))
                            sim::fail(TAG, "a handler could not remove itself");
                        go(c, n);
                    }));
                    if (!events.emit<int>(name, int(next)))
                        sim::fail(TAG, "emit() returned false");
                    break;
                }
                case IN:
                    if (!sched.in(ns((c + level) % 4 * 3 * MS), [&, c, next] { go(c, next); }))
                        sim::fail(TAG, "a task was refused");
                    break;
                case EVERY:
                {
                    const std::string name = "chain " + std::to_string(c) + " level " + std::to_string(level);
                    auto once = std::make_shared<std::once_flag>();
                    if (!sched.every(std::string(name), ns(100 * MS), [&, c, next, name, once] {
                            std::call_once(*once, [&] {
                                if (!sched.remove_task(name))
                                    sim::fail(TAG, "a periodic task could not remove itself");
                                go(c, next);
                            });
                        }))
                        sim::fail(TAG, "a task was refused");
                    break;
                }
                case OBSERVE:
                {
                    tc::sdk::observable<int> o(0, [&, c](int n) { go(c, n); });
                    o = next;
                    break;
                }
                case QUEUE: queue.push({c, next}); break;
                case TIMER:
                case RENEW:
                {
                    {
                        std::lock_guard l(mail_mutex);
                        mail.emplace_back(c, next);
                    }
                    if (chains[c][level] == RENEW)
                        timer.set_callback(tick);
                    break;
                }
                case RESULT:
                    if (leaves.run([](int n) { return n + 1; }, level).get() != next)
                        sim::fail("C04", "wrong result");
                    go(c, next);
                    break;
                }
            };
            events.add_handler<int, int>("go", [&](int c, int n) { go(c, n); });
            timer.set_callback(tick);
            pool.start(w);
            leaves.start(1);
            events.start(w);
            sched.start(w);
            timer.start(1ms);
            std::thread consumer([&] {
                for (;;)
                {
                    auto x = queue.pop();
                    if (x.first < 0)
                        return;
                    go(x.first, x.second);
                }
            });
            clients c;
            for (int i = 0; i < nchains; i++)
                c.go([&, i] { go(i, 0); });
            c.join();
            auto done = [&] {
                for (int i = 0; i < nchains; i++)
                    if (!sim::get(REACHED + i * 20 + (int)chains[i].size()))
                        return false;
                return true;
            };
            sim::wait_idle();
            while (!done() && sim::now() - t0 < 300 * MS + 4 * sim::total_slack())
                std::this_thread::sleep_for(1ms);
            for (int i = 0; i < nchains; i++)
                for (int l = 1; l <= (int)chains[i].size(); l++)
                    if (!sim::get(REACHED + i * 20 + l))
                        sim::fail(TAG, "a %s, called for by a %s, was not run", names[chains[i][l - 1]], l > 1 ? names[chains[i][l - 2]] : "thread");
            queue.push({-1, 0});
            consumer.join();
            for (int i = 0; i < 3; i++)
                switch ((order + i) % 3)
                {
                case 0: sched.stop(); break;
                case 1: events.stop(); break;
                case 2: order < 3 ? timer.stop() : (void)pool.stop(); break;
                }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "components that use one another leak %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}
}

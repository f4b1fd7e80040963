// Calls that fail for lack of memory: the exception reaches the caller, nothing else has happened, and everything goes on.
// Allocations fail only on the calling thread, in the call under test.
#include "scn.h"

#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <chrono>
#include <csignal>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <vector>

using namespace scn;
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
const char* const TAG = "C36";
constexpr i64 MS = 1000000, HOUR = 3600000 * MS;

// true: the call returned; false: it threw bad_alloc
template <class F>
bool attempt(F&& f, bool only_one = false)
{
    bool ok = true;
    sim::set_alloc_faults(true, only_one);
    try
    {
        f();
    }
    catch (const std::bad_alloc&)
    {
        ok = false;
    }
    sim::set_alloc_faults(false);
    if (!ok)
        sim::nontrivial();
    return ok;
}
void draw_rate()
{
    static const i64 rates[] = {3, 6, 12, 30};
    sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::one_of(rates);
}

SCENARIO(memory_events, "memory.events")
{
    enum { ADD, EMIT, REMOVE, REMOVE_EVENT };
    int nc = (int)sim::draw(1, 2), w = (int)sim::draw(1, 2), names = (int)sim::draw(1, 2);
    struct step
    {
        int kind, name, pick;
    };
    std::vector<std::vector<step>> sc(nc);
    for (auto& v : sc)
    {
        int n = (int)sim::draw(2, 14);
        for (int i = 0; i < n; i++)
        {
            static const i64 k[] = {ADD, EMIT, EMIT, ADD, REMOVE, REMOVE_EVENT};
            int kind = (int)sim::one_of(k);
            v.push_back({kind, (int)sim::draw(0, names - 1), (int)sim::draw(0, 5)});
        }
    }
    draw_rate();
    sim::swarm_schedule_faults();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        enum { HIT = 100 };  // + client*2000 + token*40 + handler
        {
            tc::sdk::event_dispatcher d;
            d.start(w);
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    std::map<int, std::vector<std::pair<unsigned long, int>>> model;
                    int handlers = 0, tokens = 0;
                    std::vector<std::vector<std::pair<int, int>>> expected;  // per token: handler, least number of deliveries
                    for (const step& s : sc[t])
                    {
                        const std::string name = "the event number " + std::to_string(s.name) + " of client " + std::to_string(t);
                        auto& mine = model[s.name];
                        switch (s.kind)
                        {
                        case ADD:
                        {
                            int h = handlers++;
                            std::function<void(tracked, std::string)> f = [t, h, cap = tracked(h)](const tracked& token, const std::string& x) {
                                if (cap.get() != h || x != "a text that belongs to token " + std::to_string(token.get()))
                                    sim::fail("C08", "a handler got %s", x.c_str());
                                sim::add(HIT + t * 2000 + token.get() * 40 + h);
                            };
                            unsigned long id = 0;
                            if (attempt([&] { id = d.add_handler<tracked, std::string>(name, std::move(f)); }))
                            {
                                for (auto& m : model)
                                    for (auto& x : m.second)
                                        if (x.first == id)
                                            sim::fail("C09", "a handler id was given out twice");
                                mine.emplace_back(id, h);
                            }
                            break;
                        }
                        case EMIT:
                        {
                            int token = tokens++;
                            bool found = false;
                            tracked value(token);
                            std::string x = "a text that belongs to token " + std::to_string(token);
                            bool ok = attempt([&] { found = d.emit(name, value, x); }, true);
                            if (ok && found == mine.empty())
                                sim::fail(TAG, "emit() returned %d for an event with %zu handlers", found, mine.size());
                            std::vector<std::pair<int, int>> e;
                            for (auto& m : mine)
                                e.emplace_back(m.second, ok);
                            expected.push_back(e);
                            break;
                        }
                        case REMOVE:
                        {
                            unsigned long id = mine.empty() ? 99999 : mine[s.pick % mine.size()].first;
                            bool found = false;
                            if (attempt([&] { found = d.remove_handler(id); }))
                            {
                                if (found == mine.empty())
                                    sim::fail(TAG, "remove_handler() returned %d", found);
                                if (found)
                                    mine.erase(mine.begin() + s.pick % mine.size());
                            }
                            break;
                        }
                        case REMOVE_EVENT:
                        {
                            bool found = false;
                            if (attempt([&] { found = d.remove_event(name); }))
                            {
                                if (found == mine.empty())
                                    sim::fail(TAG, "remove_event() returned %d for an event with %zu handlers", found, mine.size());
                                mine.clear();
                            }
                            break;
                        }
                        }
                    }
                    sim::wait_idle();
                    for (int token = 0; token < tokens; token++)
                        for (int h = 0; h < handlers; h++)
                        {
                            i64 got = sim::get(HIT + t * 2000 + token * 40 + h);
                            auto e = std::find_if(expected[token].begin(), expected[token].end(), [&](auto& x) { return x.first == h; });
                            if (e == expected[token].end() ? got != 0 : got < e->second || got > 1)
                                sim::fail(TAG, "a handler that was %sregistered was called %lld times by an emit() that %s", e == expected[token].end() ? "not " : "", (long long)got,
                                          e != expected[token].end() && e->second ? "returned" : "returned or threw");
                        }
                });
            c.join();
            d.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a dispatcher some of whose calls failed leaks %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

SCENARIO(memory_sched, "memory.sched")
{
    enum { AT, IN, NAMED_AT, NAMED_IN, EVERY, NAMED_EVERY, NAMED_EVERY_LATER, UPDATE, DISABLE, REMOVE, KINDS };
    int n = (int)sim::draw(2, 14), w = (int)sim::draw(1, 2);
    struct step
    {
        int kind, name;
        bool soon;
    };
    std::vector<step> sc;
    for (int i = 0; i < n; i++)
    {
        int kind = (int)sim::draw(0, KINDS - 1), name = (int)sim::draw(0, 3);
        sc.push_back({kind, name, sim::chance(1, 3)});
    }
    draw_rate();
    sim::swarm_schedule_faults();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        enum { RAN = 100 };
        {
            tc::sdk::task_scheduler s;
            s.start(w);
            std::map<std::string, std::optional<i64>> named;  // far away tasks with an id: interval
            size_t size = 0;
            for (int i = 0; i < n; i++)
            {
                const step& x = sc[i];
                const std::string name = "a task with the long name number " + std::to_string(x.name);
                auto body = [i, cap = tracked(i)] {
                    sim::add(RAN + i);
                    return cap.get();
                };
                std::optional<std::future<int>> f;
                bool accepted = false, ok, once = x.kind <= NAMED_IN, has_name = x.kind == NAMED_AT || x.kind == NAMED_IN || x.kind == NAMED_EVERY || x.kind == NAMED_EVERY_LATER;
                // soon: runs at once, and is awaited; otherwise far away
                bool soon = x.soon && x.kind != NAMED_EVERY_LATER;
                i64 delay = soon ? 0 : 1000 * HOUR;
                const auto due = tc::sdk::clock::now() + ns(delay);
                bool taken = named.count(name);
                // The destructor of a std::promise whose future is awaited allocates, and terminates the process if it cannot:
                // calls that drop such a promise get at most one failure, and none if they will drop it anyway.
                auto call = [&] {
                    switch (x.kind)
                    {
                    case AT: f = s.at(tc::sdk::clock::time_point(due), body); break;
                    case IN: f = s.in(ns(delay), body); break;
                    case NAMED_AT: f = s.at(std::string(name), tc::sdk::clock::time_point(due), body); break;
                    case NAMED_IN: f = s.in(std::string(name), ns(delay), body); break;
                    case EVERY: accepted = s.every(ns(2000 * HOUR), body); break;  // first run is now
                    case NAMED_EVERY: accepted = s.every(std::string(name), ns(2000 * HOUR), body); break;
                    case NAMED_EVERY_LATER: accepted = s.every(std::string(name), ns(2000 * HOUR), ns(delay), body); break;
                    case UPDATE: accepted = s.update_interval(name, ns((3000 + i) * HOUR)); break;
                    case DISABLE: accepted = s.set_enabled(name, false); break;
                    case REMOVE: accepted = s.remove_task(name); break;
                    }
                };
                if (((x.kind == NAMED_AT || x.kind == NAMED_IN) || x.kind == REMOVE) && taken)
                {
                    call();
                    ok = true;
                }
                else
                    ok = attempt(call, once);
                if (once)
                    accepted = f.has_value();
                if (!ok && accepted)
                    sim::fail(TAG, "a call that threw gave a result");
                if (ok)
                {
                    bool want;
                    if (x.kind == UPDATE)
                        want = taken && named[name].has_value();
                    else if (x.kind >= DISABLE)
                        want = taken;
                    else
                        want = !has_name || !taken;
                    if (accepted != want)
                        sim::fail(TAG, "call %d of kind %d returned %d", i, x.kind, accepted);
                }
                if (accepted)
                {
                    if (x.kind == REMOVE)
                    {
                        named.erase(name);
                        size--;
                    }
                    else if (x.kind == UPDATE)
                        named[name] = (3000 + i) * HOUR;
                    else if (x.kind < UPDATE && !(once && soon))
                    {
                        size++;
                        if (has_name)
                            named[name] = once ? std::optional<i64>() : std::optional<i64>(2000 * HOUR);
                    }
                    if (once && soon && f->get() != i)
                        sim::fail("C12", "wrong result");
                }
                sim::wait_idle();
                i64 runs = accepted && x.kind < UPDATE && (soon || x.kind == EVERY || x.kind == NAMED_EVERY) ? 1 : 0;
                if (sim::get(RAN + i) != runs)
                    sim::fail(TAG, "the task of call %d of kind %d, which %s, was run %lld times", i, x.kind, ok ? accepted ? "was accepted" : "was refused" : "threw", (long long)sim::get(RAN + i));
                if (s.tasks_size() != size)
                    sim::fail(TAG, "after call %d of kind %d, which %s, %zu tasks are scheduled instead of %zu", i, x.kind, ok ? "returned" : "threw", s.tasks_size(), size);
                for (int k = 0; k < 4; k++)
                {
                    const std::string other = "a task with the long name number " + std::to_string(k);
                    auto m = named.find(other);
                    if (s.is_scheduled(other) != (m != named.end()))
                        sim::fail(TAG, "after call %d of kind %d, which %s, is_scheduled() is %d", i, x.kind, ok ? "returned" : "threw", m == named.end());
                    auto interval = s.get_interval(other);
                    if (m != named.end() && m->second != (interval ? std::optional<i64>(interval->count()) : std::nullopt))
                        sim::fail(TAG, "after call %d of kind %d, which %s, an interval is %lld", i, x.kind, ok ? "returned" : "threw", interval ? (long long)interval->count() : -1);
                }
            }
            s.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a scheduler some of whose calls failed leaks %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

SCENARIO(memory_timer, "memory.timer")
{
    int n = (int)sim::draw(2, 10);
    std::vector<int> sc;
    for (int i = 0; i < n; i++)
        sc.push_back((int)sim::draw(0, 2));
    draw_rate();
    sim::swarm_schedule_faults();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        enum { RAN = 100 };
        {
            tc::sdk::high_precision_timer t;
            int current = -1;
            bool running = false;
            for (int i = 0; i < n; i++)
            {
                i64 before = current < 0 ? 0 : sim::get(RAN + current);
                if (sc[i] == 0)
                {
                    auto f = [i, cap = tracked(i)](const std::string& s) {
                        if (s != "an argument which is longer than the small buffer")
                            sim::fail("C19", "the callback got %s", s.c_str());
                        sim::add(RAN + cap.get());
                    };
                    const std::string arg = "an argument which is longer than the small buffer";
                    if (attempt([&] { t.set_callback(f, arg); }))
                    {
                        current = i;
                        before = 0;
                    }
                }
                else if (sc[i] == 1)
                {
                    bool r = false;
                    if (attempt([&] { r = t.start(2ms); }))
                    {
                        if (r != (current >= 0))
                            sim::fail("C18", "start() returned %d", r);
                        running = running || r;
                    }
                    else
                        running = false;  // start() stops the timer first
                    if (r && (t.invoked_callback_count() || t.missed_callback_count()))
                        sim::fail("C18", "start() does not reset the counters");
                }
                else
                {
                    t.stop();
                    running = false;
                }
                // the callback in force is called while, and only while, the timer runs
                before = current < 0 ? 0 : sim::get(RAN + current);
                std::this_thread::sleep_for(9ms);
                i64 calls = current < 0 ? 0 : sim::get(RAN + current) - before;
                if (running ? calls < 3 || calls > 5 : calls != 0)
                    sim::fail(TAG, "the callback was called %lld times in 9 ms by a timer that is %s", (long long)calls, running ? "running with an interval of 2 ms" : "stopped");
            }
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a timer some of whose calls failed leaks %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

SCENARIO(memory_start, "memory.start")
{
    int which = (int)sim::draw(0, 2), n = (int)sim::draw(1, 6), w = (int)sim::draw(1, 4);
    draw_rate();
    sim::swarm_schedule_faults();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::thread_pool p;
            tc::sdk::task_scheduler s;
            tc::sdk::event_dispatcher d;
            auto start = [&] { return which == 0 ? p.start(w) : which == 1 ? s.start(w) : d.start(w); };
            auto stop = [&] { return which == 0 ? p.stop() : which == 1 ? s.stop() : d.stop(); };
            auto works = [&] {
                if (which == 0)
                    return p.is_running() && p.threads_count() == (size_t)w && p.run([] { return 7; }).get() == 7;
                if (which == 1)
                {
                    auto f = s.in(1ms, [] { return 7; });
                    return f && f->get() == 7;
                }
                auto done = std::make_shared<std::promise<int>>();
                auto f = done->get_future();
                d.add_handler<std::shared_ptr<std::promise<int>>>("x", [](std::shared_ptr<std::promise<int>> q) { q->set_value(7); });
                return d.emit("x", done) && f.get() == 7;
            };
            for (int i = 0; i < n; i++)
            {
                int threads = sim::threads_alive();
                bool r = false;
                if (attempt([&] { r = start(); }))
                {
                    if (!r)
                        sim::fail(TAG, "start() returned false although nothing runs");
                    if (!works())
                        sim::fail(TAG, "a component that was started does not work");
                    bool stopped = false;
                    if (!attempt([&] { stopped = stop(); }))
                        sim::fail(TAG, "stop() needs memory");
                    if (!stopped)
                        sim::fail(TAG, "stop() of a component that runs returned false");
                }
                else if (which == 1 && (s.in(0ms, [] {}) || s.tasks_size()))
                    sim::fail(TAG, "a scheduler that could not be started accepts tasks");
                if (sim::threads_alive() != threads)
                    sim::fail(TAG, "%d threads are left", sim::threads_alive() - threads);
                if (stop())
                    sim::fail(TAG, "stop() of a component that does not run returned true");
            }
            if (!start() || !works())
                sim::fail(TAG, "after start() has failed the component cannot be started any more");
            stop();
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a component whose start() failed leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

SCENARIO(memory_signals, "memory.signals")
{
    int n = (int)sim::draw(2, 8);
    std::vector<int> sc;
    for (int i = 0; i < n; i++)
        sc.push_back((int)sim::draw(0, 2));
    draw_rate();
    sim::run([&] {
        enum { RAN = 100, LAST = 50 };
        int current = -1;
        bool installed = false;
        for (int i = 0; i < n; i++)
        {
            if (sc[i] == 0)
            {
                std::function<void(const char*, int)> f = [i, cap = tracked(i)](const char*, int s) {
                    sim::add(RAN + cap.get());
                    sim::set(LAST, s);
                };
                if (attempt([&] { tc::sdk::install_signal_handlers(f); }))
                {
                    current = i;
                    installed = true;
                }
                for (int s : {SIGINT, SIGTERM, SIGABRT})
                    if (sim::signal_installed(s) != installed)
                        sim::fail(TAG, installed ? "the handlers are gone" : "install_signal_handlers() failed and yet handles signal %d from now on", s);
            }
            else if (sc[i] == 1 || installed)
            {
                i64 before = current < 0 ? 0 : sim::get(RAN + current);
                if (sc[i] == 1)
                    tc::sdk::quit("the reason", 44);
                else
                    sim::deliver_signal(SIGTERM);
                tc::sdk::wait_for_quit();
                if (current >= 0 && (sim::get(RAN + current) != before + 1 || sim::get(LAST) != (sc[i] == 1 ? 44 : SIGTERM)))
                    sim::fail(TAG, "the callback in force was not called");
            }
        }
        tc::sdk::install_signal_handlers();
    });
}
}

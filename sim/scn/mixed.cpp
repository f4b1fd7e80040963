// all concurrent components of the library in one program
#include "scn.h"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <chrono>
#include <csignal>
#include <future>
#include <memory>
#include <set>

using namespace scn;
using ns = std::chrono::nanoseconds;
namespace S = tc::sdk;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US;
struct item
{
    int producer = -1, number = -1;
    S::uuid id;
    std::shared_ptr<tracked> load;
};
// cells
enum { MADE = 10, SEEN = 1000, ORDER = 100, NOTES = 50, LASTNOTE = 51, QUITCB = 52, EVENTS = 53, DONE = 54, TICKS = 55, BAD = 56 };
constexpr int PRODUCERS = 5, MAXITEMS = 60;  // SEEN + producer * 100 + number

struct sink
{
    virtual ~sink() = default;
    virtual void seen(int producer, int number) = 0;
};
struct cell_sink : sink
{
    tracked t{9};
    void seen(int p, int n) override
    {
        t.get();
        if (sim::add(SEEN + p * 100 + n) != 1)
            sim::fail("C31", "item %d of producer %d came out of the pipeline twice", n, p);
        sim::add(EVENTS);
    }
};
struct settings : S::singleton<settings>
{
    std::string name = "settings";
    int limit = MAXITEMS;
};

SCENARIO(mixed_pipeline, "mixed.pipeline")
{
    int rounds = sim::chance(1, 4) ? 2 : 1;
    int nclients = (int)sim::draw(1, 2), per = (int)sim::draw(1, 10);
    int cap = (int)sim::draw(1, 6), consumers = (int)sim::draw(1, 2), pool_n = (int)sim::draw(1, 3), workers = (int)sim::draw(1, 2), sched_n = (int)sim::draw(1, 2);
    bool with_timer = sim::chance(2, 3), with_sched = sim::chance(2, 3), with_signal = sim::chance(1, 2);
    int periods = (int)sim::draw(2, 6);
    sim::swarm_schedule_faults();
    sim::swarm_time_faults(5 * MS);
    sim::enable(sim::F_WALL_JUMP, 1, 4);
    if (with_signal)
        sim::cfg.rate[sim::F_SIGNAL] = (int)sim::draw(20, 300);
    sim::nontrivial();
    sim::run([&] {
        // created once for the whole process
        (void)S::uuid_generator::instance();
        auto& locator = S::service_locator::instance();
        locator.register_service<sink, cell_sink>();
        S::install_signal_handlers([](const char* m, int s) {
            if (!m || (s && s != SIGTERM))
                sim::fail("C26", "the callback of the signal handler got (\"%s\", %d)", m ? m : "(null)", s);
            sim::add(QUITCB);
        });
        size_t blocks = sim::live_blocks();
        for (int round = 0; round < rounds; round++)
        {
            for (int p = 0; p < PRODUCERS; p++)
            {
                sim::set(MADE + p, 0);
                sim::set(ORDER + p, -1);
                for (int i = 0; i < 100; i++)
                    sim::set(SEEN + p * 100 + i, 0);
            }
            sim::set(EVENTS, 0);
            sim::set(NOTES, 0);
            sim::set(DONE, 0);
            {
                S::stopwatch watch;
                i64 t0 = sim::now();
                S::blocking_queue<item> q(cap);
                S::thread_pool pool;
                S::event_dispatcher events;
                S::task_scheduler sched;
                S::high_precision_timer timer;
                S::observable<int> last(-1, [](int v) {
                    sim::add(NOTES);
                    sim::set(LASTNOTE, v);
                });
                bool fifo = consumers == 1 && pool_n == 1 && workers == 1;
                events.add_handler<int, int>("item", [&, fifo](int p, int n) {
                    if (fifo)
                    {
                        if (n <= sim::get(ORDER + p))
                            sim::fail("C31", "item %d of producer %d came out of the pipeline after item %lld", n, p, (long long)sim::get(ORDER + p));
                        sim::set(ORDER + p, n);
                    }
                    locator.get<sink>()->seen(p, n);
                    last = p * 100 + n;
                });
                auto make = [](int p, int n) {
                    item x;
                    x.producer = p;
                    x.number = n;
                    x.id = S::uuid_generator::instance().create();
                    x.load = std::make_shared<tracked>(p * 100 + n);
                    if (settings::instance().limit != MAXITEMS)
                        sim::fail("C28", "the singleton was not completely constructed");
                    return x;
                };
                events.start(workers);
                pool.start(pool_n);
                clients cons, prod;
                std::vector<std::future<int>> futures[2];
                for (int k = 0; k < consumers; k++)
                    cons.go([&, k] {
                        for (;;)
                        {
                            item x = q.pop();
                            if (x.producer < 0)
                                break;
                            futures[k].push_back(pool.run(
                                [&events](item y) {
                                    if (y.load->get() != y.producer * 100 + y.number)
                                        sim::fail("C31", "item %d of producer %d was damaged in the pipeline", y.number, y.producer);
                                    if (!events.emit<int, int>("item", y.producer, y.number))
                                        sim::fail("C31", "emit() found no handler");
                                    return y.producer * 100 + y.number;
                                },
                                x));
                        }
                    });
                auto offer = [&](int p) {
                    i64 n = sim::get(MADE + p);
                    if (n < MAXITEMS && q.try_push(make(p, (int)n)))
                        sim::add(MADE + p);
                };
                if (with_timer)
                {
                    timer.set_callback([&] { offer(3); });
                    timer.start(ns(2 * MS));
                }
                if (with_sched)
                {
                    sched.start(sched_n);
                    std::string task_id = "produce";
                    // one task at a time: the number of the item is its own
                    sched.every(std::move(task_id), ns(3 * MS), [&] {
                        if (sim::add(TICKS) == 1)
                            offer(4);
                        sim::add(TICKS, -1);
                    });
                }
                for (int k = 0; k < nclients; k++)
                    prod.go([&, k] {
                        S::rate_limiter r(1000);
                        for (int i = 0; i < per; i++)
                        {
                            q.push(make(k, i));
                            sim::add(MADE + k);
                            if (i % 3 == 0)
                                r.sync();
                        }
                    });
                if (with_signal)
                {
                    static const int sigs[] = {SIGTERM};
                    sim::arm_signals(sigs, 1, 1);
                }
                prod.go([&] {
                    std::this_thread::sleep_for(ns(periods * 3 * MS));
                    if (with_signal && sim::signals_left())
                        sim::deliver_signal(SIGTERM);
                    else if (!with_signal)
                        S::quit("enough");
                });
                // the main thread of such a program
                S::wait_for_quit();
                sim::arm_signals(nullptr, 0, 0);
                auto started = S::datetime::utc_now();
                (void)started;
                if (with_sched && !sched.stop())
                    sim::fail("C31", "stop() of a running scheduler returned false");
                timer.stop();
                prod.join();
                for (int k = 0; k < consumers; k++)
                    q.push(item());
                cons.join();
                i64 total = 0;
                for (int p = 0; p < PRODUCERS; p++)
                    total += sim::get(MADE + p);
                std::set<int> results;
                for (auto& f : futures)
                    for (auto& x : f)
                        if (!results.insert(x.get()).second)
                            sim::fail("C31", "an item was processed twice");
                if ((i64)results.size() != total)
                    sim::fail("C31", "%lld items went into the queue, %zu were processed", (long long)total, results.size());
                // all events are delivered if nothing stops the dispatcher
                for (int i = 0; i < 100 && sim::get(EVENTS) < total; i++)
                    std::this_thread::sleep_for(ns(MS));
                if (sim::get(EVENTS) != total)
                    sim::fail("C31", "%lld items were emitted as events, %lld were handled", (long long)total, (long long)sim::get(EVENTS));
                for (int p = 0; p < PRODUCERS; p++)
                    for (i64 i = 0; i < sim::get(MADE + p); i++)
                        if (sim::get(SEEN + p * 100 + (int)i) != 1)
                            sim::fail("C31", "item %lld of producer %d came out of the pipeline %lld times", (long long)i, p, (long long)sim::get(SEEN + p * 100 + (int)i));
                if (!events.stop() || !pool.stop())
                    sim::fail("C31", "stop() of a running dispatcher or pool returned false");
                if (sim::get(NOTES) != total)
                    sim::fail("C20", "%lld different values were assigned to an observable, it made %lld notifications", (long long)total, (long long)sim::get(NOTES));
                if (total && last.value() != sim::get(LASTNOTE))
                    sim::fail("C20", "the value of an observable is %d, its last notification was for %lld", last.value(), (long long)sim::get(LASTNOTE));
                i64 e = watch.elapsed().count(), real = sim::now() - t0;
                if (e > real + US || e < real - US - sim::cfg.clock_granularity)
                    sim::fail("C23", "a stopwatch measured %lld ns instead of %lld", (long long)e, (long long)real);
            }
            if (sim::threads_alive() != 1)
                sim::fail("C31", "%d threads were left behind", sim::threads_alive() - 1);
            if (sim::leaked(blocks) || tracked::live() > 1)
                sim::fail("C30", "%lld blocks and %lld captured values were left behind", (long long)(sim::live_blocks() - blocks), (long long)tracked::live() - 1);
        }
        if (sim::get(QUITCB) < rounds)
            sim::fail("C26", "%d quits made %lld callbacks", rounds, (long long)sim::get(QUITCB));
    });
}
}

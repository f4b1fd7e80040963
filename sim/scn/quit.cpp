// signal_handler: quit(), wait_for_quit(), signals
#include "scn.h"

#include <teiacare/sdk/signal_handler.hpp>

#include <array>
#include <csignal>
#include <cstring>
#include <chrono>
#include <memory>

using namespace scn;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr i64 US = 1000, MS = 1000 * US;
enum { QUIT = 1, QUITS_ENDED = 2, RETURNED = 3, CALLS = 4, BYKIND = 10, OTHER = 30, INFLIGHT = 31, ARG = 100 };
const char* const messages[] = {"quit requested", "a", "", "another message that is longer than a small string buffer"};

// ---- C25 ------------------------------------------------------------------------------------------------------------
SCENARIO(quit_handoff, "quit.handoff")
{
    int rounds = (int)sim::draw(1, 5);
    i64 wdelay[5], qdelay[5][3];
    int msg[5][3], sig[5][3];
    for (int r = 0; r < 5; r++)
    {
        static const i64 ds[] = {0, 0, US, 50 * US, MS};
        wdelay[r] = sim::one_of(ds);
        for (int q = 0; q < 3; q++)
        {
            qdelay[r][q] = sim::one_of(ds);
            msg[r][q] = (int)sim::draw(0, 3);
            sig[r][q] = (int)sim::draw(0, 3) * 7;
        }
    }
    bool cb = sim::chance(3, 4), slow = sim::chance(1, 4), reinstall = sim::chance(1, 4);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 4);
    sim::cfg.stall_max = 100 * US;
    sim::nontrivial();
    sim::run([&] {
        auto install = [&] {
            tc::sdk::install_signal_handlers([slow, cap = std::make_shared<tracked>(7)](const char* m, int s) {
                cap->get();
                sim::add(INFLIGHT);
                // who called?
                i64 a = sim::get(ARG + sim::self());
                if (!a)
                    sim::fail("C25", "the callback was called by a thread that did not call quit()");
                a--;
                if (!m || strcmp(m, messages[a % 4]) || s != a / 4)
                    sim::fail("C25", "quit(\"%s\", %d) called the callback with (\"%s\", %d)", messages[a % 4], (int)(a / 4), m ? m : "(null)", s);
                sim::set(ARG + sim::self(), 0);
                if (slow)
                    std::this_thread::sleep_for(ns(20 * US));
                else
                    sim::point();
                sim::add(CALLS);
                sim::add(INFLIGHT, -1);
            });
        };
        if (cb)
            install();
        i64 all = 0;
        for (int r = 0; r < rounds; r++)
        {
            if (r && cb && reinstall)
                install();
            sim::set(QUIT, 0);
            sim::set(RETURNED, 0);
            sim::set(QUITS_ENDED, 0);
            clients c;
            c.go([&, r] {
                if (wdelay[r])
                    std::this_thread::sleep_for(ns(wdelay[r]));
                tc::sdk::wait_for_quit();
                if (!sim::get(QUIT))
                    sim::fail("C25", "wait_for_quit() returned before anybody called quit() (round %d)", r);
                if (cb && sim::get(CALLS) == all)
                    sim::fail("C25", "wait_for_quit() returned before the callback of quit() had been called");
                sim::set(RETURNED, 1);
            });
            {
                const int q = 0;
                c.go([&, r, q] {
                    if (qdelay[r][q])
                        std::this_thread::sleep_for(ns(qdelay[r][q]));
                    sim::set(ARG + sim::self(), 1 + msg[r][q] + 4 * sig[r][q]);
                    sim::add(QUIT);
                    tc::sdk::quit(messages[msg[r][q]], sig[r][q]);
                    if (cb && sim::get(ARG + sim::self()))
                        sim::fail("C25", "quit() returned without having called the callback");
                    sim::add(QUITS_ENDED);
                });
            }
            // quit() is never lost, whether the waiter is already there or not
            i64 limit = sim::now() + 100 * MS;
            while (!(sim::get(RETURNED) && sim::get(QUITS_ENDED)) && sim::now() < limit)
                std::this_thread::sleep_for(ns(MS));
            if (!sim::get(RETURNED))
                sim::fail("C25", "wait_for_quit() did not return after quit() (round %d)", r);
            if (!sim::get(QUITS_ENDED))
                sim::fail("C25", "quit() did not return (round %d)", r);
            c.join();
            all++;
            if (sim::get(CALLS) != (cb ? all : 0))
                sim::fail("C25", "%lld quits made %lld callbacks", (long long)all, (long long)sim::get(CALLS));
        }
    });
}
// several quits at the same time
SCENARIO(quit_many, "quit.many")
{
    int nq = (int)sim::draw(2, 4);
    bool late = sim::chance(1, 3), cb = sim::chance(3, 4);
    i64 delay[4];
    for (auto& d : delay)
    {
        static const i64 ds[] = {0, 0, US, 50 * US};
        d = sim::one_of(ds);
    }
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        if (cb)
            tc::sdk::install_signal_handlers([](const char* m, int s) {
                if (!m || strcmp(m, "bye") || s != sim::self())
                    sim::fail("C25", "quit(\"bye\", %d) called the callback with (\"%s\", %d)", sim::self(), m ? m : "(null)", s);
                sim::add(CALLS);
            });
        clients c;
        auto waiter = [&] {
            tc::sdk::wait_for_quit();
            if (!sim::get(QUIT))
                sim::fail("C25", "wait_for_quit() returned before anybody called quit()");
            sim::set(RETURNED, 1);
        };
        if (!late)
            c.go(waiter);
        for (int q = 0; q < nq; q++)
            c.go([&, q] {
                if (delay[q])
                    std::this_thread::sleep_for(ns(delay[q]));
                sim::add(QUIT);
                tc::sdk::quit("bye", sim::self());
                sim::add(QUITS_ENDED);
            });
        sim::wait_idle();
        std::this_thread::sleep_for(ns(MS));
        sim::wait_idle();
        if (late)
        {
            c.go(waiter);
            sim::wait_idle();
        }
        if (sim::get(QUITS_ENDED) != nq)
            sim::fail("C25", "%lld of %d concurrent calls of quit() did not return", (long long)(nq - sim::get(QUITS_ENDED)), nq);
        if (!sim::get(RETURNED))
            sim::fail("C25", "wait_for_quit() did not return after %d concurrent calls of quit()", nq);
        if (sim::get(CALLS) != (cb ? nq : 0))
            sim::fail("C25", "%d calls of quit() made %lld callbacks", nq, (long long)sim::get(CALLS));
        c.join();
    });
}

// ---- C26 ---------------------------------------------------------------------------------------------------------------------
SCENARIO(quit_signals, "quit.signals")
{
    static const int sigs[] = {SIGINT, SIGTERM, SIGABRT};
    int use[3], nuse = (int)sim::draw(1, 3);
    for (int& u : use)
        u = sigs[sim::draw(0, 2)];
    int count = (int)sim::draw(1, 4);
    int nt = (int)sim::draw(0, 3);
    bool cb = sim::chance(4, 5), raised = sim::chance(1, 3), quitter = sim::chance(1, 5), slow = sim::chance(1, 4);
    int work = (int)sim::draw(1, 30);
    sim::swarm_schedule_faults();
    static const i64 rates[] = {20, 3, 60, 150};
    sim::cfg.rate[sim::F_SIGNAL] = (int)sim::one_of(rates);
    sim::run([&] {
        if (cb)
            // larger than what std::function keeps without memory of its own
            tc::sdk::install_signal_handlers([slow, big = std::array<i64, 6>{1, 2, 3, 4, 5, 6}](const char* m, int s) {
                if (big[0] + big[5] != 7)
                    sim::fail("C26", "the callback is damaged");
                const char* want = s == SIGINT ? "SIGINT" : s == SIGTERM ? "SIGTERM" : s == SIGABRT ? "SIGABRT" : s == 0 ? "by hand" : nullptr;
                if (!want)
                    sim::fail("C26", "the callback was called with signal %d, which was not sent", s);
                if (!m || strcmp(m, want))
                    sim::fail("C26", "signal %d (%s) called the callback with \"%s\"", s, want, m ? m : "(null)");
                if (slow)
                    std::this_thread::sleep_for(ns(10 * US));
                else
                    sim::point();
                sim::add(BYKIND + s);
            });
        else
            tc::sdk::install_signal_handlers();
        for (int s : sigs)
            if (!sim::signal_installed(s))
                sim::fail("C26", "install_signal_handlers() installed nothing for signal %d", s);
        if (sim::signals_handled(SIGINT) + sim::signals_handled(SIGTERM) + sim::signals_handled(SIGABRT))
            sim::fail("C26", "install_signal_handlers() raised a signal");
        sim::arm_signals(use, nuse, count);
        clients c;
        auto handled = [] { return sim::signals_handled(SIGINT) + sim::signals_handled(SIGTERM) + sim::signals_handled(SIGABRT); };
        c.go([&] {
            tc::sdk::wait_for_quit();
            if (!handled() && !sim::get(QUIT))
                sim::fail("C26", "wait_for_quit() returned although there was neither a signal nor a quit()");
            sim::set(RETURNED, 1);
        });
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                for (int i = 0; i < work; i++)
                {
                    switch ((i + t) % 4)
                    {
                    case 0: sim::point(); break;
                    case 1: std::this_thread::sleep_for(ns(3 * US)); break;
                    case 2: std::this_thread::yield(); break;
                    case 3: delete new int(i); break;
                    }
                }
            });
        if (quitter)
            c.go([&] {
                std::this_thread::sleep_for(ns(20 * US));
                sim::add(QUIT);
                tc::sdk::quit("by hand");
            });
        if (raised)
        {
            std::this_thread::sleep_for(ns(5 * US));
            sim::deliver_signal(use[0]);
        }
        for (int i = 0; i < work; i++)
            std::this_thread::sleep_for(ns(2 * US));
        sim::no_faults(true);
        std::this_thread::sleep_for(ns(MS));
        sim::wait_idle();
        if (handled() == 0 && !quitter)
        {
            if (sim::get(RETURNED))
                sim::fail("C26", "wait_for_quit() returned although there was no signal");
            sim::deliver_signal(use[0]);
            sim::wait_idle();
        }
        else
            sim::nontrivial();
        if (!sim::get(RETURNED))
            sim::fail("C26", "wait_for_quit() did not return after %d signals", handled());
        for (int s : sigs)
            if (cb && sim::get(BYKIND + s) != sim::signals_handled(s))
                sim::fail("C26", "signal %d was handled %d times, the callback was called %lld times for it", s, sim::signals_handled(s), (long long)sim::get(BYKIND + s));
        if (cb && sim::get(BYKIND) != (quitter ? 1 : 0))
            sim::fail("C26", "quit() called the callback %lld times", (long long)sim::get(BYKIND));
        // the handlers stay installed
        for (int s : sigs)
        {
            if (!sim::signal_installed(s))
                sim::fail("C26", "the handler of signal %d is gone after a signal", s);
            i64 before = sim::get(BYKIND + s);
            sim::deliver_signal(s);
            if (cb && sim::get(BYKIND + s) != before + 1)
                sim::fail("C26", "a later signal %d called the callback %lld times", s, (long long)(sim::get(BYKIND + s) - before));
        }
        c.join();
    });
}
}

// Objects that a caller lends to the library for the time of a call only: as soon as the call has returned they are changed or
// destroyed. Whatever the library does later must not notice.
#include "scn.h"

#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/task.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <chrono>
#include <csignal>
#include <functional>
#include <future>
#include <memory>
#include <string>
#include <utility>
#include <vector>

using namespace scn;
using namespace std::chrono_literals;

namespace
{
const char* const TAG = "C35";
std::string text_of(int id) { return "the text number " + std::to_string(id) + ", which no small buffer holds"; }

// what is lent: remembers what it should be
struct thing
{
    tracked v;
    std::string text;
    thing() : v(-1) {}
    explicit thing(int id) : v(id), text(text_of(id)) {}
    bool is(int id) const { return v.get() == id && text == text_of(id); }
    bool operator==(const thing& o) const { return v.get() == o.v.get() && text == o.text; }
    void change()
    {
        v.v = -7;
        text.assign(text.size(), '#');
    }
};
struct work
{
    thing t;
    int id;
    int cell;
    work(int i, int c) : t(i), id(i), cell(c) {}
    int operator()() const
    {
        if (!t.is(id))
            sim::fail(TAG, "what is called is not what was passed in (number %d): %s", id, t.text.c_str());
        sim::add(cell);
        return id;
    }
    int operator()(const thing& a) const
    {
        if (!a.is(id + 1))
            sim::fail(TAG, "the argument is not what was passed in (number %d): %s", id, a.text.c_str());
        return (*this)();
    }
    int operator()(const thing& a, const std::string& s) const
    {
        if (s != text_of(id + 2))
            sim::fail(TAG, "the argument is not the text that was passed in (number %d): %s", id, s.c_str());
        return (*this)(a);
    }
};

// an object lent to a call
template <class T>
class lent
{
    std::unique_ptr<T> p;

public:
    template <class... A>
    explicit lent(A&&... a) : p(std::make_unique<T>(std::forward<A>(a)...)) {}
    T& operator*() { return *p; }
    T* operator->() { return p.get(); }
    const T& as_const() { return *p; }
    void gone() { p.reset(); }
};
// afterwards: the caller's own object must be as it was; then it is changed and destroyed
enum end { DESTROY, CHANGE, KEEP };
void after(lent<work>& w, int id, end e)
{
    if (!w->t.is(id))
        sim::fail(TAG, "the caller's function object (number %d) was changed by the call: %s", id, w->t.text.c_str());
    if (e != KEEP)
        w->t.change();
    if (e == DESTROY)
        w.gone();
}
void after(lent<thing>& t, int id, end e)
{
    if (!t->is(id))
        sim::fail(TAG, "the caller's object (number %d) was changed by the call: %s", id, t->text.c_str());
    if (e != KEEP)
        t->change();
    if (e == DESTROY)
        t.gone();
}
void after(lent<std::string>& s, int id, end e)
{
    if (*s != text_of(id))
        sim::fail(TAG, "the caller's text (number %d) was changed by the call: %s", id, s->c_str());
    if (e != KEEP)
        s->assign(s->size(), '#');
    if (e == DESTROY)
        s.gone();
}
end draw_end() { return (end)sim::draw(0, 2); }
int ran_by_function = 0;
void plain_function() { ran_by_function++; }

void no_leak(size_t blocks, const char* what)
{
    if (tracked::live() || sim::leaked(blocks))
        sim::fail("C30", "%s leaks %lld values and %lld blocks", what, (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
}

enum { RAN = 100 };

SCENARIO(own_task, "own.task")
{
    int n = (int)sim::draw(1, 6), times = (int)sim::draw(0, 3);
    std::vector<int> how;
    std::vector<end> ends;
    for (int i = 0; i < n; i++)
    {
        how.push_back((int)sim::draw(0, 5));
        ends.push_back(draw_end());
    }
    bool elsewhere = sim::chance(1, 2), moved = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        ran_by_function = 0;
        int functions = 0;
        {
            std::vector<tc::sdk::task> tasks;
            tasks.reserve(n);
            for (int i = 0; i < n; i++)
            {
                int id = i * 10;
                lent<work> w(id, RAN + i);
                switch (how[i])
                {
                case 0: tasks.emplace_back(w.as_const()); break;
                case 1: tasks.emplace_back(work(id, RAN + i)); break;
                case 2:
                {
                    const auto call = [w = *w] { w(); };
                    tasks.emplace_back(call);
                    break;
                }
                case 3:
                {
                    const std::function<void()> f = *w;
                    tasks.emplace_back(f);
                    break;
                }
                case 4: tasks.emplace_back([w = *w] { w(); }); break;
                case 5:
                    tasks.emplace_back(plain_function);
                    functions++;
                    break;
                }
                after(w, id, ends[i]);
            }
            if (moved)
            {
                std::vector<tc::sdk::task> others;
                for (auto& t : tasks)
                    others.push_back(std::move(t));
                tasks.swap(others);
            }
            auto use = [&] {
                for (int k = 0; k < times; k++)
                    for (auto& t : tasks)
                        if (k % 2)
                            t.invoke();
                        else
                            t();
            };
            if (elsewhere)
            {
                clients c;
                c.go(use);
                c.join();
            }
            else
                use();
        }
        if (ran_by_function != functions * times)
            sim::fail(TAG, "a function was called %d times instead of %d", ran_by_function, functions * times);
        for (int i = 0; i < n; i++)
            if (how[i] != 5 && sim::get(RAN + i) != times)
                sim::fail(TAG, "a task was run %lld times instead of %d", (long long)sim::get(RAN + i), times);
        no_leak(blocks, "a destroyed task");
    });
}

SCENARIO(own_pool, "own.pool")
{
    int workers = (int)sim::draw(1, 3), nc = (int)sim::draw(1, 3), n = (int)sim::draw(1, 5);
    std::vector<int> how;
    std::vector<end> ends;
    for (int i = 0; i < n * nc * 3; i++)
    {
        how.push_back((int)sim::draw(0, 3));
        ends.push_back(draw_end());
    }
    bool early = sim::chance(1, 3), shared = sim::chance(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::thread_pool p;
            if (!early)
                p.start((unsigned)workers);
            const work common(7000, 7000);
            const thing common_arg(7001);
            std::vector<std::vector<std::future<int>>> results(nc);
            {
                clients c;
                for (int t = 0; t < nc; t++)
                    c.go([&, t] {
                        for (int i = 0; i < n; i++)
                        {
                            int k = t * n + i, id = k * 10;
                            lent<work> w(id, RAN + k);
                            lent<thing> a(id + 1);
                            lent<std::string> s(text_of(id + 2));
                            switch (how[k])
                            {
                            case 0: results[t].push_back(p.run(*w)); break;
                            case 1: results[t].push_back(p.run(*w, *a)); break;
                            case 2: results[t].push_back(p.run(w.as_const(), a.as_const(), s.as_const())); break;
                            case 3: results[t].push_back(p.run(std::as_const(*w), thing(id + 1), *s)); break;
                            }
                            if (shared)
                                p.run(common, common_arg);
                            after(s, id + 2, ends[3 * k]);
                            after(a, id + 1, ends[3 * k + 1]);
                            after(w, id, ends[3 * k + 2]);
                        }
                    });
                c.join();
            }
            if (early)
                p.start((unsigned)workers);
            for (int t = 0; t < nc; t++)
                for (int i = 0; i < n; i++)
                    if (results[t][i].get() != (t * n + i) * 10)
                        sim::fail("C04", "wrong result");
            results.clear();
            p.stop();
            for (int k = 0; k < n * nc; k++)
                if (sim::get(RAN + k) != 1)
                    sim::fail("C04", "task %d was executed %lld times", k, (long long)sim::get(RAN + k));
        }
        no_leak(blocks, "a destroyed pool");
    });
}

SCENARIO(own_sched, "own.sched")
{
    int workers = (int)sim::draw(1, 2), n = (int)sim::draw(1, 6);
    std::vector<int> how;
    std::vector<end> ends;
    for (int i = 0; i < n * 3; i++)
    {
        how.push_back((int)sim::draw(0, 8));
        ends.push_back(draw_end());
    }
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::task_scheduler s;
            s.start((unsigned)workers);
            std::vector<std::future<int>> results;
            auto keep = [&](std::optional<std::future<int>> f) {
                if (!f)
                    sim::fail("C14", "a task was refused");
                results.push_back(std::move(*f));
            };
            auto accepted = [&](bool b) {
                if (!b)
                    sim::fail("C14", "a task was refused");
            };
            for (int k = 0; k < n; k++)
            {
                int id = k * 10;
                lent<work> w(id, RAN + k);
                lent<thing> a(id + 1);
                lent<std::string> x(text_of(id + 2)), name(text_of(id + 3));
                auto due = std::make_unique<tc::sdk::clock::time_point>(tc::sdk::clock::now() + 3ms);
                auto delay = std::make_unique<tc::sdk::clock::duration>(2ms);
                switch (how[k])
                {
                case 0: keep(s.at(std::move(*due), *w)); break;
                case 1: keep(s.at(std::move(*due), *w, *a)); break;
                case 2: keep(s.at(std::string(*name), std::move(*due), w.as_const(), a.as_const(), x.as_const())); break;
                case 3: keep(s.in(std::move(*delay), w.as_const())); break;
                case 4: keep(s.in(std::move(*delay), *w, *a, *x)); break;
                case 5: keep(s.in(std::string(*name), std::move(*delay), *w, a.as_const())); break;
                case 6: accepted(s.every(std::move(*delay), *w)); break;
                case 7: accepted(s.every(std::string(*name), std::move(*delay), *w, *a, x.as_const())); break;
                case 8: accepted(s.every(std::string(*name), std::move(*delay), std::chrono::nanoseconds(1ms), w.as_const(), *a)); break;
                }
                *due = {};
                *delay = {};
                due.reset();
                delay.reset();
                if (how[k] >= 7)
                    if (!s.is_scheduled(*name))
                        sim::fail("C14", "a task with a name is not found by its name");
                after(x, id + 2, ends[3 * k]);
                after(a, id + 1, ends[3 * k + 1]);
                after(w, id, ends[3 * k + 2]);
            }
            for (auto& f : results)
                if (f.get() % 10)
                    sim::fail("C12", "wrong result");
            results.clear();
            std::this_thread::sleep_for(9ms);
            s.stop();
            for (int k = 0; k < n; k++)
                if (how[k] < 6 && sim::get(RAN + k) != 1)
                    sim::fail("C12", "task %d was executed %lld times", k, (long long)sim::get(RAN + k));
        }
        no_leak(blocks, "a destroyed scheduler");
    });
}

SCENARIO(own_timer, "own.timer")
{
    int n = (int)sim::draw(1, 4);
    std::vector<int> how;
    std::vector<end> ends;
    for (int i = 0; i < n * 3; i++)
    {
        how.push_back((int)sim::draw(0, 3));
        ends.push_back(draw_end());
    }
    bool running = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::high_precision_timer t;
            for (int k = 0; k < n; k++)
            {
                int id = k * 10;
                lent<work> w(id, RAN + k);
                lent<thing> a(id + 1);
                lent<std::string> x(text_of(id + 2));
                switch (how[k])
                {
                case 0: t.set_callback(*w); break;
                case 1: t.set_callback(w.as_const(), *a); break;
                case 2: t.set_callback(*w, a.as_const(), *x); break;
                case 3: t.set_callback(w.as_const(), thing(id + 1), x.as_const()); break;
                }
                after(x, id + 2, ends[3 * k]);
                after(a, id + 1, ends[3 * k + 1]);
                after(w, id, ends[3 * k + 2]);
                if (k == 0 || !running)
                {
                    auto interval = std::make_unique<tc::sdk::clock::duration>(1ms);
                    if (!t.start(std::move(*interval)))
                        sim::fail("C18", "start() returned false");
                    *interval = {};
                }
                std::this_thread::sleep_for(3500us);
                if (!running)
                    t.stop();
            }
            t.stop();
        }
        no_leak(blocks, "a destroyed timer");
    });
}

SCENARIO(own_events, "own.events")
{
    int workers = (int)sim::draw(1, 2), n = (int)sim::draw(1, 6), nh = (int)sim::draw(1, 3), nc = (int)sim::draw(1, 2);
    std::vector<end> ends;
    for (int i = 0; i < n * nc * 2 + nh; i++)
        ends.push_back(draw_end());
    bool late = sim::chance(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            tc::sdk::event_dispatcher d;
            if (!late)
                d.start((unsigned)workers);
            for (int h = 0; h < nh; h++)
            {
                lent<std::string> name(text_of(1));
                lent<work> w(5000 + 10 * h, 7500);
                std::function<void(thing, std::string, int)> f = [w = *w](const thing& a, const std::string& s, int id) {
                    w();
                    if (!a.is(id) || s != text_of(id + 1))
                        sim::fail(TAG, "an event was delivered with values which are not those that were emitted (number %d): %s %s", id, a.text.c_str(), s.c_str());
                    sim::add(RAN + id / 10);
                };
                d.add_handler<thing, std::string, int>(*name, std::move(f));
                f = nullptr;
                after(name, 1, ends[n * nc * 2 + h]);
                after(w, 5000 + 10 * h, ends[n * nc * 2 + h]);
            }
            {
                clients c;
                for (int t = 0; t < nc; t++)
                    c.go([&, t] {
                        for (int i = 0; i < n; i++)
                        {
                            int k = t * n + i, id = 10 * k;
                            lent<std::string> name(text_of(1)), s(text_of(id + 1));
                            lent<thing> a(id);
                            if (!d.emit(*name, *a, *s, id))
                                sim::fail("C09", "an event with handlers was not found by its name");
                            after(a, id, ends[2 * k]);
                            after(s, id + 1, ends[2 * k + 1]);
                            after(name, 1, ends[2 * k + 1]);
                        }
                    });
                c.join();
            }
            if (late)
                d.start((unsigned)workers);
            for (int tries = 0; tries < 2000; tries++)
            {
                bool all = true;
                for (int k = 0; k < n * nc; k++)
                    all = all && sim::get(RAN + k) == nh;
                if (all)
                    break;
                std::this_thread::sleep_for(1ms);
            }
            for (int k = 0; k < n * nc; k++)
                if (sim::get(RAN + k) != nh)
                    sim::fail("C08", "event %d was delivered %lld times to %d handlers", k, (long long)sim::get(RAN + k), nh);
            d.stop();
        }
        no_leak(blocks, "a destroyed dispatcher");
    });
}

SCENARIO(own_values, "own.values")
{
    int n = (int)sim::draw(1, 8), cap = (int)sim::draw(1, 3);
    std::vector<int> how;
    std::vector<end> ends;
    for (int i = 0; i < n + 1; i++)
    {
        how.push_back((int)sim::draw(0, 3));
        ends.push_back(draw_end());
    }
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            // an observable keeps its value and its callback
            lent<thing> first(9000);
            std::vector<int> seen;
            auto f = std::make_unique<std::function<void(thing)>>([&seen, w = work(40, 7000)](const thing& t) {
                w();
                seen.push_back(t.v.get());
            });
            tc::sdk::observable<thing> o(*first, *f);
            if (!*f)
                sim::fail(TAG, "the caller's callback was changed by the constructor");
            *f = nullptr;
            f.reset();
            after(first, 9000, ends[n]);
            if (!o.value().is(9000))
                sim::fail(TAG, "the value of the observable changed with the object it was made from");
            for (int i = 0; i < n; i++)
            {
                lent<thing> t(i);
                if (how[i] % 2)
                    o = *t;
                else
                    o = t.as_const();
                after(t, i, ends[i]);
                thing v = o;
                if (!v.is(i))
                    sim::fail(TAG, "the value of the observable changed with the object it was assigned from");
                v.change();
                if (!o.value().is(i))
                    sim::fail(TAG, "the value of the observable changed with a copy of it");
            }
            if ((int)seen.size() != n)
                sim::fail("C20", "%zu notifications instead of %d", seen.size(), n);
        }
        {
            // a queue holds copies
            tc::sdk::blocking_queue<thing> q((size_t)cap);
            clients c;
            c.go([&] {
                for (int i = 0; i < n; i++)
                {
                    lent<thing> t(i);
                    if (how[i] < 2)
                        q.push(t.as_const());
                    else
                        while (!q.try_push(*t))
                            std::this_thread::sleep_for(10us);
                    after(t, i, ends[i]);
                }
            });
            c.go([&] {
                for (int i = 0; i < n; i++)
                {
                    thing got = q.pop();
                    if (!got.is(i))
                        sim::fail(TAG, "an item changed with the object that was pushed (number %d): %s", i, got.text.c_str());
                }
            });
            c.join();
        }
        no_leak(blocks, "a destroyed observable or queue");
    });
}

struct greeter
{
    virtual ~greeter() = default;
    virtual bool ok() const = 0;
};
struct polite : greeter
{
    thing t;
    int id;
    polite(const thing& a, int i) : t(a), id(i) {}
    bool ok() const override { return t.is(id); }
};

// the values an argument parser describes live with the caller, its names and descriptions do not
SCENARIO(own_names, "own.names")
{
    int n = (int)sim::draw(1, 4);
    std::vector<end> ends;
    for (int i = 0; i < 2 * n + 2; i++)
        ends.push_back(draw_end());
    bool assigned = sim::chance(1, 2), again = sim::chance(1, 2), by_env = sim::chance(1, 3), by_word = sim::chance(1, 2);
    sim::nontrivial();
    static const char* const env = "THE_ENVIRONMENT_VARIABLE_OF_THE_FIRST_OPTION";
    sim::set_env(env, "value of the environment, also rather long");
    sim::run([&] {
        std::vector<std::string> options(n), positionals(n);
        std::unique_ptr<tc::sdk::argument_parser> p;
        {
            lent<std::string> name(text_of(1)), version(text_of(2)), description(text_of(3));
            p = std::make_unique<tc::sdk::argument_parser>(*name, *version, *description);
            after(name, 1, ends[2 * n]);
            after(version, 2, ends[2 * n]);
            after(description, 3, ends[2 * n + 1]);
        }
        const char *word = nullptr, *place = nullptr;
        std::vector<const char*> list;
        p->add_option<const char*>("the-word", word, "no word");
        p->add_option<std::vector<const char*>>("the-list", list);
        p->add_positional<const char*>("the-place", place);
        for (int i = 0; i < n; i++)
        {
            lent<std::string> d(text_of(10 + i)), s(text_of(20 + i));
            auto variable = std::make_unique<std::string>(by_env && i == 0 ? env : "");
            auto name = std::make_unique<std::string>("the-rather-long-name-of-option-" + std::to_string(i));
            p->add_option<std::string>(*name, options[i], d.as_const(), s.as_const(), false, *variable);
            name->assign(name->size(), '#');
            name.reset();
            variable.reset();
            after(d, 10 + i, ends[i]);
            auto pos = std::make_unique<std::string>("the-rather-long-name-of-positional-" + std::to_string(i));
            p->add_positional<std::string>(*pos, positionals[i], s.as_const());
            pos->assign(pos->size(), '#');
            pos.reset();
            after(s, 20 + i, ends[n + i]);
        }
        for (int round = 0; round < 1 + again; round++)
        {
            {
                // the command line
                std::vector<std::string> words{"program", text_of(60 + round), "--the-list", text_of(71) + "!" + text_of(72 + round)};
                for (char& c : words[3])
                    if (c == ',')
                        c = ';';
                    else if (c == '!')
                        c = ',';
                if (by_word)
                    words.push_back("--the-word=" + text_of(62 + round));
                for (int i = 0; i < n; i++)
                {
                    std::string key = "--the-rather-long-name-of-option-" + std::to_string(i);
                    if (i % 2 == 0 && assigned)
                        words.push_back(key + "=" + text_of(30 + i + round));
                    else if (i % 2)
                    {
                        words.push_back(key);
                        words.push_back(text_of(30 + i + round));
                    }
                    words.push_back(text_of(40 + i + round));
                }
                std::vector<char*> argv;
                for (auto& w : words)
                    argv.push_back(w.data());
                if (p->parse((int)argv.size(), argv.data()) != tc::sdk::parse_result::success)
                    sim::fail(TAG, "a command line was refused");
                for (auto& w : words)
                    w.assign(w.size(), '#');
            }
            if (!place || place != text_of(60 + round) || !word || word != (by_word ? text_of(62 + round) : "no word"))
                sim::fail(TAG, "an argument is %s, an option %s", place, word);
            auto item = [](int i) {
                std::string s = text_of(i);
                for (char& c : s)
                    if (c == ',')
                        c = ';';
                return s;
            };
            if (list.size() != 2 || list[0] != item(71) || list[1] != item(72 + round))
                sim::fail(TAG, "a list has %zu items, from %s", list.size(), list.empty() ? "" : list[0]);
            for (int i = 0; i < n; i++)
            {
                bool given = i % 2 || assigned;
                std::string want = given ? text_of(30 + i + round) : by_env && i == 0 ? "value of the environment, also rather long" : text_of(10 + i);
                if (options[i] != want)
                    sim::fail(TAG, "an option has the value '%s' instead of '%s'", options[i].c_str(), want.c_str());
                if (positionals[i] != text_of(40 + i + round))
                    sim::fail(TAG, "a positional argument has the value '%s'", positionals[i].c_str());
            }
        }
    });
}

SCENARIO(own_services, "own.services")
{
    int n = (int)sim::draw(1, 3);
    end e = draw_end(), e2 = draw_end();
    bool by_instance = sim::chance(1, 2), by_signal = sim::chance(1, 2);
    sim::nontrivial();
    sim::run([&] {
        auto& l = tc::sdk::service_locator::instance();
        for (int i = 0; i < n; i++)
        {
            lent<thing> t(50 + i);
            if (by_instance)
            {
                std::shared_ptr<greeter> g = std::make_shared<polite>(*t, 50 + i);
                if (!l.register_instance<greeter>(g) || !g || g.use_count() != 2)
                    sim::fail(TAG, "register_instance() failed, or took the caller's pointer");
                g.reset();
            }
            else if (!l.register_service<greeter, polite>(*t, 50 + i))
                sim::fail("C29", "register_service() failed");
            after(t, 50 + i, e);
            if (auto g = l.get<greeter>(); !g || !g->ok())
                sim::fail(TAG, "a registered service changed with what it was made from");
            l.unregister<greeter>();
            if (tracked::live() != 0 + (e != DESTROY))
                sim::fail("C30", "an unregistered service is kept");
        }
        lent<work> w(60, 7600);
        auto called = std::make_unique<std::function<void(const char*, int)>>([w = *w](const char*, int s) {
            w();
            sim::add(7601, s);
        });
        tc::sdk::install_signal_handlers(*called);
        if (!*called)
            sim::fail(TAG, "the caller's callback was changed");
        *called = nullptr;
        called.reset();
        after(w, 60, e2);
        if (by_signal)
            sim::deliver_signal(SIGTERM);
        else
        {
            auto m = std::make_unique<std::string>("a reason, and a rather long one");
            tc::sdk::quit(m->c_str(), SIGTERM);
            m->assign(m->size(), '#');
        }
        tc::sdk::wait_for_quit();
        if (sim::get(7600) != 1 || sim::get(7601) != SIGTERM)
            sim::fail("C26", "the callback was called %lld times", (long long)sim::get(7600));
        tc::sdk::install_signal_handlers();
    });
}
}

// observable
#include "scn.h"

#include <teiacare/sdk/observable.hpp>

#include <chrono>
#include <memory>

using namespace scn;
using tc::sdk::observable;
using ns = std::chrono::nanoseconds;

namespace
{
template <class T>
struct conv;
template <>
struct conv<int>
{
    static int make(int v) { return v; }
    static int get(const int& v) { return v; }
};
template <>
struct conv<std::string>
{
    static std::string make(int v) { return "observed value number " + std::to_string(v) + " is too long for the small string buffer"; }
    static int get(const std::string& s)
    {
        int v = -1;
        if (sscanf(s.c_str(), "observed value number %d is", &v) != 1 || s != make(v))
            sim::fail("C20", "a torn value was read from an observable: \"%s\"", s.c_str());
        return v;
    }
};
template <>
struct conv<risky>
{
    static risky make(int v) { return risky(v); }
    static int get(const risky& r) { return r.get(); }
};
// a value of several words, equal only if all of them are
struct wide
{
    int w[5];
    bool operator==(const wide& o) const
    {
        for (int i = 0; i < 5; i++)
            if (w[i] != o.w[i])
                return false;
        return true;
    }
};
template <>
struct conv<wide>
{
    static wide make(int v) { return {{v, v + 1, v + 2, v + 3, v + 4}}; }
    static int get(const wide& x)
    {
        for (int i = 1; i < 5; i++)
            if (x.w[i] != x.w[0] + i)
                sim::fail("C20", "a torn value was read from an observable: {%d,%d,%d,%d,%d}", x.w[0], x.w[1], x.w[2], x.w[3], x.w[4]);
        return x.w[0];
    }
};

// equal although not made of the same bytes
struct loose
{
    int key;
    unsigned noise;
    double zero;
    bool operator==(const loose& o) const { return key == o.key && zero == o.zero; }
};
template <>
struct conv<loose>
{
    static loose make(int v)
    {
        unsigned n = (unsigned)sim::add(5);
        return {v, n, n & 1 ? 0.0 : -0.0};
    }
    static int get(const loose& x) { return x.key; }
};

enum kind { SET = 1, SET_RV, GET, GET_CAST, ENABLE, DISABLE, ENABLED };
const char* const names[] = {"", "=", "=&&", "value", "cast", "enable", "disable", "enabled?"};
// results of SET: 0 no notification, k: it made the k-th notification; THREW_NOTE + k: it made the k-th one, whose callback threw; THREW: nothing was notified, an exception came out
constexpr i64 THREW = -1, THREW_NOTE = 1000;
// cells
enum { INSIDE = 1, NOTES = 2, MYNOTE = 10, MYVAL = 100, MYTHROW = 200, ON_OTHER = 300, VALUES = 1000 };

struct model
{
    int value;
    int enabled;
    int notes;
};
bool step(model& m, const op& o, bool pending, int alt)
{
    if (pending)
        return true;  // never: all operations end
    switch (o.kind)
    {
    case SET:
    case SET_RV:
        if (o.res == THREW)
        {
            if (alt)
                m.value = (int)o.a;
            return true;
        }
        if (alt)
            return false;
        if (m.value == (int)o.a)
            return o.res == 0;
        m.value = (int)o.a;
        if (!m.enabled)
            return o.res == 0;
        m.notes++;
        return o.res == m.notes || o.res == THREW_NOTE + m.notes;
    case GET:
    case GET_CAST:
        return !alt && (o.res == THREW || o.res == m.value);
    case ENABLE: m.enabled = 1; return !alt;
    case DISABLE: m.enabled = 0; return !alt;
    case ENABLED: return !alt && o.res == m.enabled;
    }
    return false;
}
std::string opname(const op& o)
{
    std::string s = names[o.kind];
    if (o.kind <= SET_RV)
        s += std::to_string(o.a);
    return s;
}
template <class T>
void perform(observable<T>& x, int k, int v, bool faulty, const char* tag)
{
    int t = sim::self();
    T val = conv<T>::make(v);
    sim::set(MYNOTE + t, 0);
    sim::set(MYVAL + t, v);
    sim::set(MYTHROW + t, 0);
    if (faulty)
    {
        risky::arm(true);
        sim::set_alloc_faults(true);
    }
    int i = sim::op_begin(k, v);
    i64 r = 0;
    try
    {
        switch (k)
        {
        case SET: x = (const T&)val; break;
        case SET_RV: x = std::move(val); break;
        case GET: r = conv<T>::get(x.value()); break;
        case GET_CAST:
        {
            T got = v & 1 ? (T)x : (T) const_cast<const observable<T>&>(x);
            r = conv<T>::get(got);
            break;
        }
        case ENABLE: x.callback_enabled(true); break;
        case DISABLE: x.callback_enabled(false); break;
        case ENABLED: r = x.callback_enabled(); break;
        }
        if (sim::get(MYTHROW + t))
            sim::fail("C21", "the exception of a callback did not reach the assignment that made it");
        if (k <= SET_RV)
            r = sim::get(MYNOTE + t);
    }
    catch (const oops& e)
    {
        sim::set_alloc_faults(false);
        if (!faulty)
            sim::fail("C21", "an unexpected exception");
        r = THREW;
        if (k <= SET_RV && sim::get(MYNOTE + t))
        {
            if (!sim::get(MYTHROW + t))
                sim::fail(tag, "an assignment threw something else after its callback was made");
            r = THREW_NOTE + sim::get(MYNOTE + t);
        }
    }
    catch (const std::bad_alloc&)
    {
        sim::set_alloc_faults(false);
        r = THREW;
        if (!faulty || (k <= SET_RV && sim::get(MYNOTE + t)))
            sim::fail(tag, "an unexpected std::bad_alloc");
    }
    sim::op_end(i, r);
    risky::arm(false);
    sim::set_alloc_faults(false);
}

template <class T>
void lin_scenario(bool toggles, bool faulty, const char* tag)
{
    int nt = (int)sim::draw(2, 4);
    int domain = (int)sim::draw(1, 4);
    struct script
    {
        int kind, val;
        i64 pause;
    };
    std::vector<std::vector<script>> sc(nt);
    for (int t = 0; t < nt; t++)
    {
        int n = (int)sim::draw(1, 6);
        for (int i = 0; i < n; i++)
        {
            static const i64 plain[] = {SET, GET, SET_RV, SET, GET_CAST, SET};
            static const i64 tog[] = {SET, DISABLE, ENABLE, SET_RV, GET, ENABLED, DISABLE, SET};
            int k = toggles ? (int)sim::one_of(tog) : (int)sim::one_of(plain);
            sc[t].push_back({k, (int)sim::draw(0, domain), sim::chance(1, 6) ? sim::draw(1, 5) * 100 : 0});
        }
    }
    bool slow = sim::chance(1, 4), rv_ctor = sim::chance(1, 2), off_first = toggles && sim::chance(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    if (faulty)
    {
        sim::enable(sim::F_USER_THROW, 3, 4);
        sim::enable(sim::F_ALLOC_FAIL, 1, 2);
    }
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            std::unique_ptr<observable<T>> x;
            std::function<void(T)> cb = [&, cap = tracked(5)](T v) {
                int t = sim::self();
                cap.get();
                bool armed = sim::get(CELL_COPY_ARMED + t);
                risky::arm(false);
                sim::set_alloc_faults(false);
                if (sim::add(INSIDE) != 1)
                    sim::fail("C20", "two notifications overlap");
                i64 n = sim::add(NOTES);
                int got = conv<T>::get(v);
                if (sim::get(MYNOTE + t))
                    sim::fail("C20", "one assignment made two notifications");
                sim::set(MYNOTE + t, n);
                if (got != sim::get(MYVAL + t))
                    sim::fail("C20", "the assignment of %lld notified the value %d", (long long)sim::get(MYVAL + t), got);
                if (n < 200)
                    sim::set(VALUES + (int)n, got);
                if (slow)
                {
                    sim::count(sim::F_USER_SLOW);
                    std::this_thread::sleep_for(ns(300));
                }
                else
                    sim::point();
                sim::add(INSIDE, -1);
                if (armed && sim::fault_now(sim::F_USER_THROW))
                {
                    sim::set(MYTHROW + t, 1);
                    throw oops(got);
                }
            };
            T init = conv<T>::make(0);
            if (rv_ctor)
                x = std::make_unique<observable<T>>(std::move(init), cb);
            else
                x = std::make_unique<observable<T>>((const T&)init, cb);
            if (!x->callback_enabled())
                sim::fail("C21", "the callback of a new observable is disabled");
            if (sim::get(NOTES))
                sim::fail("C20", "the constructor made a notification");
            if (off_first)
                perform(*x, DISABLE, 0, false, tag);
            clients c;
            for (int t = 0; t < nt; t++)
                c.go([&, t] {
                    for (auto& o : sc[t])
                    {
                        if (o.pause)
                            std::this_thread::sleep_for(ns(o.pause));
                        perform(*x, o.kind, o.val, faulty, tag);
                    }
                });
            c.join();
            // still in working order
            perform(*x, GET, 0, false, tag);
            perform(*x, ENABLE, 0, false, tag);
            perform(*x, SET, 77, false, tag);
            perform(*x, GET, 0, false, tag);
            perform(*x, SET, 77, false, tag);
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed observable leaks %lld values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
    const op* ops = sim::ops();
    int n = sim::op_count();
    if (overlapping(ops, n))
        sim::nontrivial();
    model m;
    memset(&m, 0, sizeof m);
    m.enabled = 1;
    if (n <= 60 && !linearizable(ops, n, m, step))
        sim::fail(tag, "no order of these operations on an observable (first value 0; an assignment returns the number of the notification it made, 0 for none) explains their results:%s", history(ops, n, opname).c_str());
}
SCENARIO(o_lin_int, "observable.lin.int") { lin_scenario<int>(false, false, "C20"); }
SCENARIO(o_lin_str, "observable.lin.string") { lin_scenario<std::string>(false, false, "C20"); }
SCENARIO(o_lin_wide, "observable.lin.wide") { lin_scenario<wide>(false, false, "C20"); }
SCENARIO(o_lin_loose, "observable.lin.loose") { lin_scenario<loose>(false, false, "C20"); }
SCENARIO(o_tog_int, "observable.toggle.int") { lin_scenario<int>(true, false, "C21"); }
SCENARIO(o_tog_str, "observable.toggle.string") { lin_scenario<std::string>(true, false, "C21"); }
SCENARIO(o_fault, "observable.fault.risky") { lin_scenario<risky>(true, true, "C21"); }
SCENARIO(o_fault_s, "observable.fault.string") { lin_scenario<std::string>(true, true, "C21"); }

// many assignments: the sequence of notifications is the sequence of changes
SCENARIO(o_stream, "observable.stream")
{
    int nt = (int)sim::draw(1, 6), each = (int)sim::draw(5, 60), domain = (int)sim::draw(1, 40);
    bool reader = sim::chance(1, 2);
    uint64_t seed = sim::fresh_seed();
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    enum { LAST = 5, COUNT = 6, MINE = 100 };
    sim::run([&] {
        observable<int> x(0, [&](int v) {
            if (v == sim::get(LAST))
                sim::fail("C20", "the value %d was notified twice in a row", v);
            sim::point();
            sim::set(LAST, v);
            sim::add(COUNT);
            if (sim::get(MINE + sim::self()) != v)
                sim::fail("C20", "thread %d assigned %lld and was notified of %d", sim::self(), (long long)sim::get(MINE + sim::self()), v);
        });
        clients c;
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                uint64_t r = seed + t * 7919 + 1;
                for (int i = 0; i < each; i++)
                {
                    r = r * 6364136223846793005ull + 1442695040888963407ull;
                    int v = 1 + (int)((r >> 33) % domain);
                    sim::set(MINE + sim::self(), v);
                    x = v;
                }
            });
        if (reader)
            c.go([&] {
                for (int i = 0; i < 30; i++)
                {
                    int v = x.value();
                    if (v < 0 || v > domain)
                        sim::fail("C20", "value() returned %d, which nobody assigned", v);
                }
            });
        c.join();
        if (x.value() != sim::get(LAST))
            sim::fail("C20", "the value is %d, the last notification was for %lld", x.value(), (long long)sim::get(LAST));
        if (domain > 1 && nt == 1 && sim::get(COUNT) < 1)
            sim::fail("C20", "no notification at all");
    });
    sim::nontrivial();
}
}

// uuid_generator, singletons, service_locator
#include "scn.h"

#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <array>
#include <chrono>
#include <memory>
#include <set>

using namespace scn;
using ns = std::chrono::nanoseconds;
using tc::sdk::service_locator;

namespace
{
// ---- C27 ---------------------------------------------------------------------------------------------------------------
int nibble(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
struct bits
{
    uint64_t hi, lo;
};
bits parse(const std::string& s)
{
    bits b{0, 0};
    int k = 0;
    if (s.size() != 36)
        sim::fail("C27", "\"%s\" is not a uuid", s.c_str());
    for (int i = 0; i < 36; i++)
    {
        if (i == 8 || i == 13 || i == 18 || i == 23)
        {
            if (s[i] != '-')
                sim::fail("C27", "\"%s\" is not a uuid", s.c_str());
            continue;
        }
        int v = nibble(s[i]);
        if (v < 0)
            sim::fail("C27", "\"%s\" is not a uuid", s.c_str());
        (k < 16 ? b.hi : b.lo) = (k < 16 ? b.hi : b.lo) << 4 | (uint64_t)v;
        k++;
    }
    if (s[14] != '4')
        sim::fail("C27", "uuid %s is not of version 4", s.c_str());
    if ((nibble(s[19]) & 0xc) != 0x8)
        sim::fail("C27", "uuid %s is not of the RFC 4122 variant", s.c_str());
    return b;
}
SCENARIO(uuid_unique, "uuid.unique")
{
    int nt = (int)sim::draw(1, 6), each = (int)sim::draw(1, 40);
    bool many = sim::chance(1, 6);
    if (many)
        each = 70;
    bool copies = sim::chance(1, 4);
    bool first = sim::chance(1, 2);  // the generator itself is created concurrently
    sim::enable(sim::F_THREAD_STALL, 1, 4);
    sim::enable(sim::F_RDEV_REPEAT, 1, 2);
    if (sim::chance(1, 3))
    {
        // nothing may depend on a clock that tells two threads or two calls apart
        sim::cfg.clock_granularity = sim::chance(1, 2) ? 1'000'000 : 1'000'000'000;
        sim::count(sim::F_COARSE_CLOCK);
    }
    enum { ADDR = 1 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            std::vector<std::vector<tc::sdk::uuid>> got(nt);
            std::vector<std::vector<bits>> raw(nt);
            if (!first)
                tc::sdk::uuid_generator::instance();
            clients c;
            for (int t = 0; t < nt; t++)
                c.go([&, t] {
                    for (int i = 0; i < each; i++)
                    {
                        auto& g = tc::sdk::uuid_generator::instance();
                        i64 a = (i64)(uintptr_t)&g;
                        if (sim::get(ADDR) && sim::get(ADDR) != a)
                            sim::fail("C28", "uuid_generator::instance() returned two different generators");
                        sim::set(ADDR, a);
                        got[t].push_back(g.create());
                    }
                    if (copies)
                    {
                        auto mine = tc::sdk::uuid_generator::instance();
                        for (int i = 0; i < 4; i++)
                            got[t].push_back(mine.create());
                    }
                    for (auto& u : got[t])
                        raw[t].push_back(parse(u.to_string()));
                });
            c.join();
            std::set<std::pair<uint64_t, uint64_t>> all;
            uint64_t or_hi = 0, or_lo = 0, and_hi = ~0ull, and_lo = ~0ull;
            for (int t = 0; t < nt; t++)
                for (int i = 0; i < (int)raw[t].size(); i++)
                {
                    bits b = raw[t][i];
                    or_hi |= b.hi, or_lo |= b.lo, and_hi &= b.hi, and_lo &= b.lo;
                    if (!all.insert({b.hi, b.lo}).second)
                        sim::fail("C27", "uuid %s was generated twice (%d threads, %d uuids each)", got[t][i].to_string().c_str(), nt, each);
                    // a created uuid survives its text
                    if (i < 3 && !(tc::sdk::uuid_generator::instance().from_string(got[t][i].to_string()) == got[t][i]))
                        sim::fail("C27", "uuid %s changes when it is read back", got[t][i].to_string().c_str());
                }
            if (nt * each >= 70)
            {
                // each of the 122 random bits takes both values (a fair bit fails this once in 2^69 runs)
                uint64_t fixed_hi = 0xf000, fixed_lo = 0xc000000000000000ull;
                uint64_t stuck_hi = ~(or_hi & ~and_hi) & ~fixed_hi, stuck_lo = ~(or_lo & ~and_lo) & ~fixed_lo;
                if (stuck_hi || stuck_lo)
                    sim::fail("C27", "of %d uuids, all have the same value in some of the 122 random bits (mask %016llx-%016llx)", nt * each, (unsigned long long)stuck_hi, (unsigned long long)stuck_lo);
            }
        }
        (void)blocks;
    });
    if (nt > 1)
        sim::nontrivial();
}

// ---- C28 -------------------------------------------------------------------------------------------------------------------
enum { CTOR = 1, CTOR_DONE = 2, THREW = 3, CTOR2 = 4, GOT = 5, IN_CTOR = 6, PTR = 20, SLOW = 50, THROWS = 51, SLOWNS = 52 };
template <int N>
struct single : tc::sdk::singleton<single<N>>
{
    int a = 1;
    std::string s;
    int b = 2;
    single()
    {
        sim::add(CTOR + N * 100);
        if (sim::add(IN_CTOR + N * 100) != 1)
            sim::fail("C28", "two threads construct a singleton at the same time");
        if (sim::get(SLOW))
        {
            sim::count(sim::F_USER_SLOW);
            std::this_thread::sleep_for(ns(sim::get(SLOWNS)));
        }
        else
            sim::point();
        sim::add(IN_CTOR + N * 100, -1);
        if (sim::get(THROWS) && sim::fault_now(sim::F_USER_THROW))
        {
            sim::add(THREW + N * 100);
            throw oops(N);
        }
        s = "constructed with a text that lives on the heap";
        a = 11;
        b = 12;
        sim::add(CTOR_DONE + N * 100);
    }
};
template <int N>
void use_single(bool may_throw)
{
    for (int tries = 0; tries < 50; tries++)
        try
        {
            auto& x = single<N>::instance();
            if (x.a != 11 || x.b != 12 || x.s != "constructed with a text that lives on the heap")
                sim::fail("C28", "instance() returned a singleton that was not completely constructed");
            i64 p = (i64)(uintptr_t)&x;
            if (sim::get(PTR + N) && sim::get(PTR + N) != p)
                sim::fail("C28", "instance() returned two different objects of one type");
            sim::set(PTR + N, p);
            sim::add(GOT);
            return;
        }
        catch (const oops& e)
        {
            if (!may_throw || e.id != N)
                sim::fail("C28", "instance() threw something else than the constructor");
        }
        catch (const std::bad_alloc&)
        {
            if (!may_throw)
                sim::fail("C28", "instance() threw std::bad_alloc");
        }
    sim::fail("C28", "instance() threw 50 times in a row");
}
SCENARIO(single_first, "singleton.first")
{
    int nt = (int)sim::draw(2, 8);
    bool throws = sim::chance(1, 3), alloc = sim::chance(1, 4);
    static const i64 slows[] = {0, 0, 1, 1000, 50000, 0, 1'000'000'000, 61'000'000'000, 3'700'000'000'000};
    i64 slow = sim::one_of(slows);
    int mode[8];
    i64 delay[8];
    for (int t = 0; t < 8; t++)
    {
        mode[t] = (int)sim::draw(0, 3);
        static const i64 ds[] = {0, 0, 1, 500, 20000};
        delay[t] = sim::one_of(ds);
    }
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 4);
    sim::cfg.stall_max = 100000;
    if (throws)
        sim::cfg.rate[sim::F_USER_THROW] = (int)sim::draw(2, 4);
    if (alloc)
        sim::cfg.rate[sim::F_ALLOC_FAIL] = 3;
    sim::nontrivial();
    sim::run([&] {
        sim::set(SLOW, slow != 0);
        sim::set(SLOWNS, slow);
        sim::set(THROWS, throws);
        clients c;
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                if (delay[t])
                    std::this_thread::sleep_for(ns(delay[t]));
                sim::set_alloc_faults(alloc);
                switch (mode[t])
                {
                case 0: use_single<0>(throws || alloc); break;
                case 1:
                    use_single<1>(throws || alloc);
                    use_single<0>(throws || alloc);
                    break;
                case 2:
                {
                    use_single<0>(throws || alloc);
                    i64 p = (i64)(uintptr_t)&service_locator::instance();
                    if (sim::get(PTR + 8) && sim::get(PTR + 8) != p)
                        sim::fail("C28", "service_locator::instance() returned two different objects");
                    sim::set(PTR + 8, p);
                    break;
                }
                case 3:
                {
                    sim::set_alloc_faults(false);
                    i64 p = (i64)(uintptr_t)&tc::sdk::uuid_generator::instance();
                    if (sim::get(PTR + 9) && sim::get(PTR + 9) != p)
                        sim::fail("C28", "uuid_generator::instance() returned two different objects");
                    sim::set(PTR + 9, p);
                    use_single<0>(throws);
                    break;
                }
                }
                sim::set_alloc_faults(false);
            });
        c.join();
        for (int n = 0; n < 2; n++)
        {
            i64 done = sim::get(CTOR_DONE + n * 100), tried = sim::get(CTOR + n * 100), threw = sim::get(THREW + n * 100);
            if (sim::get(PTR + n) && done != 1)
                sim::fail("C28", "a singleton was constructed %lld times", (long long)done);
            if (!alloc && tried != done + threw)
                sim::fail("C28", "%lld constructions of a singleton, %lld completed, %lld threw", (long long)tried, (long long)done, (long long)threw);
        }
    });
}

// ---- C29 ---------------------------------------------------------------------------------------------------------------------
struct alpha
{
    virtual ~alpha() = default;
    virtual int who() const = 0;
};
struct beta
{
    virtual ~beta() = default;
    virtual int what() const = 0;
    virtual const std::string& text() const = 0;
};
struct gamma_i
{
    virtual ~gamma_i() = default;
    virtual i64 number() const = 0;
};
enum { CELL_SVC_THROW = 60 };
struct alpha_impl : alpha
{
    tracked v;
    explicit alpha_impl(int x) : v(x)
    {
        if (sim::get(CELL_SVC_THROW) && sim::fault_now(sim::F_USER_THROW))
            throw oops(x);
    }
    int who() const override { return v.get(); }
};
struct other_alpha : alpha
{
    std::string pad;
    tracked v;
    explicit other_alpha(int x) : pad("a text that lives on the heap, surely"), v(x) {}
    int who() const override { return v.get() + 1000; }
};
// beta is not the first base
struct both : alpha, beta
{
    tracked v;
    std::string t;
    both(int x, const std::string& s) : v(x), t(s + " and some more text so that it is on the heap")
    {
        if (sim::get(CELL_SVC_THROW) && sim::fault_now(sim::F_USER_THROW))
            throw oops(x);
    }
    int who() const override { return v.get() + 2000; }
    int what() const override { return v.get() + 3000; }
    const std::string& text() const override { return t; }
};
struct virt : virtual gamma_i
{
    tracked v;
    explicit virt(int x) : v(x) {}
    i64 number() const override { return v.get() + 4000; }
};
struct plain
{
    tracked v;
    int extra;
};
// what the model knows of one registered type
struct slot
{
    bool present;
    int kind;  // implementation
    int v;
    void* p;
};
SCENARIO(locator_model, "locator.model")
{
    int n = (int)sim::draw(1, 25);
    struct o
    {
        int kind, type, v;
        bool fault;
    };
    std::vector<o> prog;
    for (int i = 0; i < n; i++)
        prog.push_back({(int)sim::draw(0, 5), (int)sim::draw(0, 3), (int)sim::draw(1, 3), sim::chance(1, 2)});
    bool faults = sim::chance(2, 3);
    int readers = sim::chance(1, 3) ? (int)sim::draw(1, 3) : 0;
    if (faults)
    {
        static const i64 rates[] = {3, 2, 6};
        sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::one_of(rates);
        sim::cfg.rate[sim::F_USER_THROW] = 3;
    }
    sim::enable(sim::F_THREAD_STALL, 1, 4);
    sim::nontrivial();
    sim::run([&] {
        {
            auto& L = service_locator::instance();
            slot m[4] = {};
            std::vector<std::shared_ptr<void>> held;
            auto check = [&](const char* when) {
                if (L.is_registered<alpha>() != m[0].present || L.is_registered<beta>() != m[1].present || L.is_registered<gamma_i>() != m[2].present || L.is_registered<plain>() != m[3].present)
                    sim::fail("C29", "%s: is_registered() says {%d,%d,%d,%d}, registered are {%d,%d,%d,%d}", when, L.is_registered<alpha>(), L.is_registered<beta>(), L.is_registered<gamma_i>(), L.is_registered<plain>(), m[0].present, m[1].present, m[2].present, m[3].present);
            };
            auto lookup = [&](int type, const slot& s, bool hold) {
                switch (type)
                {
                case 0:
                {
                    auto p = L.get<alpha>();
                    if (!p != !s.present)
                        sim::fail("C29", "get() returned %s, the service is %sregistered", p ? "a service" : "nothing", s.present ? "" : "not ");
                    if (p && p->who() != s.v + 1000 * s.kind)
                        sim::fail("C29", "get() returned service %d instead of %d", p->who(), s.v + 1000 * s.kind);
                    if (p && s.p && s.p != (void*)p.get())
                        sim::fail("C29", "get() returned another pointer than the one that was registered");
                    if (p && hold)
                        held.push_back(p);
                    break;
                }
                case 1:
                {
                    auto p = L.get<beta>();
                    if (!p != !s.present)
                        sim::fail("C29", "get() returned %s, the service is %sregistered", p ? "a service" : "nothing", s.present ? "" : "not ");
                    if (p && (p->what() != s.v + 3000 || p->text() != "service text " + std::to_string(s.v) + " and some more text so that it is on the heap"))
                        sim::fail("C29", "get() of a service whose interface is not its first base class returned a wrong object (%d instead of %d)", p->what(), s.v + 3000);
                    if (p && s.p && s.p != (void*)p.get())
                        sim::fail("C29", "get() returned another pointer than the one that was registered");
                    break;
                }
                case 2:
                {
                    auto p = L.get<gamma_i>();
                    if (!p != !s.present)
                        sim::fail("C29", "get() returned %s, the service is %sregistered", p ? "a service" : "nothing", s.present ? "" : "not ");
                    if (p && p->number() != s.v + 4000)
                        sim::fail("C29", "get() of a service with a virtual base returned a wrong object (%lld instead of %d)", (long long)p->number(), s.v + 4000);
                    break;
                }
                case 3:
                {
                    auto p = L.get<plain>();
                    if (!p != !s.present)
                        sim::fail("C29", "get() returned %s, the service is %sregistered", p ? "a service" : "nothing", s.present ? "" : "not ");
                    if (p && (p->v.get() != s.v || p->extra != s.v * 3))
                        sim::fail("C29", "get() returned instance %d instead of %d", p->v.get(), s.v);
                    if (p && s.p && s.p != (void*)p.get())
                        sim::fail("C29", "get() returned another pointer than the one that was registered");
                    if (p && hold)
                        held.push_back(p);
                    break;
                }
                }
            };
            for (auto& x : prog)
            {
                bool on = faults && x.fault;
                bool had = m[x.type].present, did = false, threw = false;
                slot nw{true, 0, x.v, nullptr};
                std::string text = "service text " + std::to_string(x.v);
                std::shared_ptr<plain> inst;
                std::shared_ptr<alpha> ainst;
                if (x.kind == 1)
                {
                    inst = std::make_shared<plain>(plain{tracked(x.v), x.v * 3});
                    ainst = std::make_shared<other_alpha>(x.v);
                }
                sim::set(CELL_SVC_THROW, on);
                sim::set_alloc_faults(on);
                try
                {
                    switch (x.kind)
                    {
                    case 0:
                    case 1:
                        switch (x.type)
                        {
                        case 0:
                            if (x.kind == 1)
                            {
                                nw.kind = 1;
                                nw.p = ainst.get();
                                did = L.register_instance<alpha>(ainst);
                            }
                            else if (x.v == 1)
                                did = L.register_service<alpha, alpha_impl>(x.v);
                            else if (x.v == 2)
                            {
                                nw.kind = 1;
                                did = L.register_service<alpha, other_alpha>(x.v);
                            }
                            else
                            {
                                nw.kind = 2;
                                did = L.register_service<alpha, both>(x.v, text);
                            }
                            break;
                        case 1: did = L.register_service<beta, both>(x.v, text); break;
                        case 2: did = L.register_service<gamma_i, virt>(x.v); break;
                        case 3:
                            nw.p = inst ? inst.get() : nullptr;
                            did = inst ? L.register_instance<plain>(std::move(inst)) : had ? false : (nw.present = false);
                            break;
                        }
                        break;
                    case 2:
                        switch (x.type)
                        {
                        case 0: did = L.unregister<alpha>(); break;
                        case 1: did = L.unregister<beta>(); break;
                        case 2: did = L.unregister<gamma_i>(); break;
                        case 3: did = L.unregister<plain>(); break;
                        }
                        break;
                    default: break;
                    }
                }
                catch (const oops&)
                {
                    threw = true;
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                }
                sim::set_alloc_faults(false);
                sim::set(CELL_SVC_THROW, 0);
                bool skip = x.kind <= 1 && x.type == 3 && !nw.present;
                if (threw && !on)
                    sim::fail("C29", "an unexpected exception");
                if (!threw && !skip && x.kind <= 1)
                {
                    if (did == had)
                        sim::fail("C29", "registering a service returned %d, one was %sregistered already", did, had ? "" : "not ");
                    if (did)
                        m[x.type] = nw;
                }
                if (!threw && x.kind == 2)
                {
                    if (did != had)
                        sim::fail("C29", "unregister() returned %d, the service was %sregistered", did, had ? "" : "not ");
                    m[x.type].present = false;
                }
                if (threw && x.kind == 2)
                    sim::fail("C29", "unregister() threw");
                check(threw ? "after a registration that threw" : "after an operation");
                if (x.kind >= 3 || threw)
                    lookup(x.type, m[x.type], x.kind == 4 && x.v == 1);
                if (x.kind == 5)
                    held.clear();
            }
            // lookups by several threads at once
            clients c;
            for (int r = 0; r < readers; r++)
                c.go([&] {
                    for (int t = 0; t < 4; t++)
                        lookup(t, m[t], false);
                });
            c.join();
            // what clients hold outlives the registration
            std::vector<std::shared_ptr<alpha>> mine;
            if (m[0].present)
                mine.push_back(L.get<alpha>());
            L.unregister<alpha>();
            L.unregister<beta>();
            L.unregister<gamma_i>();
            L.unregister<plain>();
            if (m[0].present && mine[0]->who() != m[0].v + 1000 * m[0].kind)
                sim::fail("C29", "a service that is still in use changed when it was unregistered");
            memset(m, 0, sizeof m);
            check("at the end");
        }
        if (tracked::live())
            sim::fail("C29", "%lld services were not released, or released twice", (long long)tracked::live());
    });
}
// many interfaces at once, against a map from interface to instance
constexpr int MANY = 320;
template <int N>
struct iface
{
    virtual ~iface() = default;
    virtual int value() const = 0;
};
template <int N>
struct impl final : iface<N>
{
    explicit impl(int v) : _v(v) {}
    int value() const override { return _v.get() * MANY + N; }
    tracked _v;
};
struct iface_ops
{
    bool (*add)(int, bool);
    bool (*remove)();
    bool (*has)();
    int (*value)(); // -1: none
};
template <int N>
constexpr iface_ops ops_of()
{
    return {[](int v, bool in_place) { return in_place ? service_locator::instance().register_service<iface<N>, impl<N>>(v) : service_locator::instance().register_instance<iface<N>>(std::make_shared<impl<N>>(v)); },
            [] { return service_locator::instance().unregister<iface<N>>(); },
            [] { return service_locator::instance().is_registered<iface<N>>(); },
            [] {
                auto p = service_locator::instance().get<iface<N>>();
                return p ? p->value() : -1;
            }};
}
template <int... N>
constexpr std::array<iface_ops, sizeof...(N)> all_ops(std::integer_sequence<int, N...>)
{
    return {ops_of<N>()...};
}
constexpr auto ifaces = all_ops(std::make_integer_sequence<int, MANY>());
SCENARIO(locator_many, "locator.many")
{
    static const i64 ranges[] = {MANY, 5, 40, MANY};
    const int range = (int)sim::one_of(ranges);
    const int n = (int)sim::draw(1, 3) * range;
    const int removal = (int)sim::draw(1, 6), first = (int)sim::draw(0, MANY - range);
    const bool faults = sim::chance(1, 2);
    if (faults)
        sim::cfg.rate[sim::F_ALLOC_FAIL] = 8;
    std::vector<std::pair<int, int>> prog;
    for (int i = 0; i < n; i++)
        prog.push_back({(int)sim::draw(0, 11), first + (int)sim::draw(0, range - 1)});
    sim::nontrivial();
    sim::run([&] {
        std::vector<int> model(MANY, -1);
        auto look = [&](int t) {
            if (ifaces[t].has() != (model[t] >= 0))
                sim::fail("C29", "interface %d of %d: is_registered() is %d, expected %d", t, MANY, ifaces[t].has(), model[t] >= 0);
            int got = ifaces[t].value(), want = model[t] < 0 ? -1 : model[t] * MANY + t;
            if (got != want)
                sim::fail("C29", "interface %d of %d: get() finds %d, expected %d", t, MANY, got, want);
        };
        int serial = 0;
        for (auto [kind, t] : prog)
        {
            bool did = false, threw = false, add = kind >= removal;
            i64 f = sim::fault_fired(sim::F_ALLOC_FAIL);
            sim::set_alloc_faults(faults);
            try
            {
                did = add ? ifaces[t].add(++serial, kind & 1) : ifaces[t].remove();
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            sim::set_alloc_faults(false);
            if (threw && sim::fault_fired(sim::F_ALLOC_FAIL) == f)
                sim::fail("C29", "an unexpected exception");
            if (!threw && did != (add ? model[t] < 0 : model[t] >= 0))
                sim::fail("C29", "interface %d of %d: %s returned %d", t, MANY, add ? "register" : "unregister", did);
            if (did)
                model[t] = add ? serial : -1;
            look(t);
            look(first + (t * 7 + serial) % range);
        }
        i64 present = 0;
        for (int t = 0; t < MANY; t++)
        {
            look(t);
            present += model[t] >= 0;
        }
        if (tracked::live() != present)
            sim::fail("C29", "%lld services are alive, %lld are registered", (long long)tracked::live(), (long long)present);
        for (int t = 0; t < MANY; t++)
            if (ifaces[t].remove() != (model[t] >= 0))
                sim::fail("C29", "interface %d of %d: unregister() returned %d", t, MANY, model[t] < 0);
        if (tracked::live())
            sim::fail("C29", "%lld services were not released", (long long)tracked::live());
    });
}
}

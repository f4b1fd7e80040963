// event_dispatcher
#include "scn.h"

#include <teiacare/sdk/event_dispatcher.hpp>

#include <chrono>
#include <memory>
#include <system_error>

using namespace scn;
using tc::sdk::event_dispatcher;
using namespace std::chrono_literals;

namespace
{
// signatures of the events
enum sig { S_INT, S_STRING, S_INT_DOUBLE, S_DOUBLE_INT, S_TRACKED, S_VOID, S_LONG, S_INT_INT, S_STRING_INT, S_SHARED, S_COUNT };
const char* const sig_names[] = {"int", "string", "int,double", "double,int", "tracked", "", "long", "int,int", "string,int", "shared_ptr"};

const char pre[] = "payload text that does not fit into the small buffer ";
std::string text(int v) { return pre + std::to_string(v); }
int untext(const std::string& s)
{
    if (s.size() <= sizeof pre - 1 || s.compare(0, sizeof pre - 1, pre) != 0)
        sim::fail("C08", "a handler got a damaged payload: \"%.90s\"", s.c_str());
    return atoi(s.c_str() + sizeof pre - 1);
}

// body of all handlers: f(token)
using body = std::function<void(int)>;

unsigned long add(event_dispatcher& d, const std::string& name, int s, body f)
{
    switch (s)
    {
    case S_INT: return d.add_handler<int>(name, [f](int v) { f(v); });
    case S_STRING: return d.add_handler<std::string>(name, [f](std::string v) { f(untext(v)); });
    case S_INT_DOUBLE: return d.add_handler<int, double>(name, [f](int v, double w) {
            if (w != v + 0.5)
                sim::fail("C08", "a handler got %d with %f", v, w);
            f(v); });
    case S_DOUBLE_INT: return d.add_handler<double, int>(name, [f](double w, int v) {
            if (w != v + 0.25)
                sim::fail("C08", "a handler got %f with %d", w, v);
            f(v); });
    case S_TRACKED: return d.add_handler<tracked>(name, [f](tracked v) { f(v.get()); });
    case S_VOID: return d.add_handler(name, [f]() { f(-1); });
    case S_LONG: return d.add_handler<long>(name, [f](long v) { f((int)(v >> 33)); });
    case S_INT_INT: return d.add_handler<int, int>(name, [f](int v, int w) {
            if (w != v + 9)
                sim::fail("C08", "a handler got %d with %d", v, w);
            f(v); });
    case S_STRING_INT: return d.add_handler<std::string, int>(name, [f](std::string t, int v) {
            if (untext(t) != v)
                sim::fail("C08", "a handler got %s with %d", t.c_str(), v);
            f(v); });
    case S_SHARED: return d.add_handler<std::shared_ptr<tracked>>(name, [f](std::shared_ptr<tracked> p) { f(p->get()); });
    }
    return 0;
}
bool emit(event_dispatcher& d, const std::string& name, int s, int v)
{
    switch (s)
    {
    case S_INT: return d.emit(name, v);
    case S_STRING: return d.emit(name, text(v));
    case S_INT_DOUBLE: return d.emit(name, v, v + 0.5);
    case S_DOUBLE_INT: return d.emit(name, v + 0.25, v);
    case S_TRACKED: return d.emit(name, tracked(v));
    case S_VOID: return d.emit(name);
    case S_LONG: return d.emit(name, ((long)v << 33) + 5);
    case S_INT_INT: return d.emit(name, v, v + 9);
    case S_STRING_INT: return d.emit(name, text(v), v);
    case S_SHARED: return d.emit(name, std::make_shared<tracked>(v));
    }
    return false;
}

// ---- C08: linearizable delivery -----------------------------------------------------------------------------------------
enum { ADD = 1, REMOVE, REMOVE_EVENT, EMIT, STOP };
constexpr int MAXH = 24;
constexpr i64 NOID = 99999999;
enum : int { ID_OF = 100, HIT = 1000, STAMP = 3000, BEGUN = 10, RETURNED, ADD_STOPS = 200, EMIT_STOPS = 300 };  // ID_OF + h: id; HIT + token*MAXH + h: deliveries

struct table
{
    uint32_t present;
};
struct lin_op
{
    int kind, name, sig, h, token;
};
void lin(bool stops)
{
    static const char* const names[] = {"alpha", "beta"};
    int nc = (int)sim::draw(2, 3);
    int workers = (int)sim::draw(1, 3);
    std::vector<std::vector<lin_op>> sc(nc + 1);
    static int hname[MAXH], hsig[MAXH];
    int nh = 0, tokens = 0;
    auto gen = [&](std::vector<lin_op>& out, int n, bool adds_only) {
        for (int i = 0; i < n; i++)
        {
            static const i64 kinds[] = {EMIT, ADD, EMIT, REMOVE, EMIT, REMOVE_EVENT, ADD};
            static const i64 sigs[] = {S_INT, S_STRING, S_INT_DOUBLE, S_TRACKED, S_SHARED, S_STRING_INT, S_DOUBLE_INT, S_LONG};
            static int pair[2];
            if (!tokens && !nh)
            {
                pair[0] = (int)sim::one_of(sigs);
                pair[1] = (int)sim::one_of(sigs);
            }
            lin_op o{};
            o.kind = adds_only ? ADD : (int)sim::one_of(kinds);
            o.name = (int)sim::draw(0, 3) == 3;
            o.sig = pair[(int)sim::draw(0, 3) == 3];
            if (o.kind == ADD)
            {
                if (nh >= MAXH)
                    continue;
                o.h = nh++;
                hname[o.h] = o.name;
                hsig[o.h] = o.sig;
            }
            if (o.kind == REMOVE)
                o.h = nh ? (int)sim::draw(0, nh - 1) : -1;
            if (o.kind == EMIT)
                o.token = tokens++;
            out.push_back(o);
        }
    };
    gen(sc[nc], (int)sim::draw(0, 3), true);
    for (int t = 0; t < nc; t++)
        gen(sc[t], (int)sim::draw(1, 4), false);
    int thrower = sim::chance(1, 3) ? (int)sim::draw(0, 3) : -1;
    int slow = sim::chance(1, 3) ? (int)sim::draw(0, 3) : -1;
    int cycles = stops ? (int)sim::draw(1, 2) : 0;
    i64 pause = stops ? sim::draw(0, 30) : 0;
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            if (!d.start(workers))
                sim::fail("C11", "start() returned false");
            auto exec = [&](const lin_op& o) {
                std::string name = names[o.name];
                int h = o.h;
                switch (o.kind)
                {
                case ADD:
                {
                    body f = [h, thrower, slow, t = tracked(h)](int token) {
                        t.get();
                        if (h == slow)
                        {
                            sim::count(sim::F_USER_SLOW);
                            std::this_thread::sleep_for(20us);
                        }
                        sim::ev(1, token, h);
                        // stops that have returned before this call, against those begun when the registration or the emit was over
                        if (sim::get(RETURNED) > sim::get(ADD_STOPS + h))
                            sim::fail("C11", "handler %d was called after a stop() that was made after its registration had returned", h);
                        if (sim::get(RETURNED) > sim::get(EMIT_STOPS + token))
                            sim::fail("C11", "emission %d was delivered after a stop() that was made after it had returned", token);
                        if (sim::add(HIT + token * MAXH + h) != 1)
                            sim::fail("C08", "handler %d was called twice for emission %d", h, token);
                        if (h == thrower)
                        {
                            sim::count(sim::F_USER_THROW);
                            throw oops(h);
                        }
                    };
                    int i = sim::op_begin(ADD, h);
                    sim::set(ADD_STOPS + h, 1000);
                    unsigned long id = add(d, name, o.sig, std::move(f));
                    sim::set(ID_OF + h, (i64)id);
                    sim::op_end(i, (i64)id);
                    sim::set(ADD_STOPS + h, sim::get(BEGUN));
                    break;
                }
                case REMOVE:
                {
                    i64 id = h >= 0 ? sim::get(ID_OF + h) : 0;
                    int i = sim::op_begin(REMOVE, id ? h : -1);
                    bool r = d.remove_handler(id ? (unsigned long)id : (unsigned long)NOID);
                    sim::op_end(i, r);
                    break;
                }
                case REMOVE_EVENT:
                {
                    int i = sim::op_begin(REMOVE_EVENT, o.name);
                    bool r = d.remove_event(name);
                    sim::op_end(i, r);
                    break;
                }
                case EMIT:
                {
                    int i = sim::op_begin(EMIT, o.name * 100 + o.sig, o.token);
                    sim::set(EMIT_STOPS + o.token, 1000);
                    bool r = emit(d, name, o.sig, o.token);
                    sim::op_end(i, r);
                    sim::set(EMIT_STOPS + o.token, sim::get(BEGUN));
                    break;
                }
                }
            };
            for (auto& o : sc[nc])
                exec(o);
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (auto& o : sc[t])
                        exec(o);
                });
            for (int k = 0; k < cycles; k++)
            {
                if (pause)
                    std::this_thread::sleep_for(std::chrono::microseconds(pause));
                sim::add(BEGUN);
                int i = sim::op_begin(STOP);
                bool r = d.stop();
                sim::op_end(i, r);
                sim::add(RETURNED);
                if (!r)
                    sim::fail("C11", "stop() returned false on a running dispatcher");
                if (!d.start(workers))
                    sim::fail("C11", "start() returned false on a stopped dispatcher");
            }
            c.join();
            sim::no_faults(true);  // all handlers that will ever run have run (slow ones sleep, and no stall lengthens that any more)
            for (int k = 0; k < 2; k++)
            {
                sim::wait_idle();
                std::this_thread::sleep_for(1ms);
            }
            sim::no_faults(false);
            d.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "handlers or payloads of a destroyed dispatcher leak: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
    op* ops = sim::ops();
    int n = sim::op_count();
    if (overlapping(ops, n))
        sim::nontrivial();
    int last_stop = -1;
    for (int i = 0; i < n; i++)
        if (ops[i].kind == STOP)
            last_stop = i;
    for (int i = 0; i < n; i++)
        if (ops[i].kind == EMIT)
        {
            i64 m = 0;
            for (int h = 0; h < nh; h++)
                if (sim::get(HIT + (int)ops[i].b * MAXH + h))
                    m |= 1ll << h;
            ops[i].res = ops[i].res | m << 1;
        }
        else if (ops[i].kind == ADD)
            for (int j = 0; j < i; j++)
                if (ops[j].kind == ADD && ops[j].res == ops[i].res)
                    sim::fail("C09", "handlers %lld and %lld were given the same id %lld", (long long)ops[j].a, (long long)ops[i].a, (long long)ops[i].res);
    table s0;
    memset(&s0, 0, sizeof s0);
    auto step = [&](table& s, const op& o, bool) {
        switch (o.kind)
        {
        case ADD: s.present |= 1u << o.a; return true;
        case REMOVE:
        {
            bool there = o.a >= 0 && (s.present >> o.a & 1);
            if (there != (o.res != 0))
                return false;
            if (there)
                s.present &= ~(1u << o.a);
            return true;
        }
        case STOP: s.present = 0; return true;
        case REMOVE_EVENT:
        {
            uint32_t m = 0;
            for (int h = 0; h < nh; h++)
                if (hname[h] == o.a)
                    m |= 1u << h;
            if (((s.present & m) != 0) != (o.res != 0))
                return false;
            s.present &= ~m;
            return true;
        }
        case EMIT:
        {
            uint32_t m = 0;
            for (int h = 0; h < nh; h++)
                if (hname[h] == o.a / 100 && hsig[h] == o.a % 100)
                    m |= 1u << h;
            m &= s.present;
            // a stop() made after or during the emit may discard deliveries
            if (last_stop >= 0 && o.inv < ops[last_stop].ret)
                return (o.res & 1) == (m != 0) && !(o.res >> 1 & ~(i64)m);
            return o.res == ((i64)m << 1 | (m != 0));
        }
        }
        return false;
    };
    if (!linearizable(ops, n, s0, step))
        sim::fail(stops ? "C11" : "C08", "no order of these operations explains which handlers were called (result of emit: called handlers as a bit set * 2 + returned value):%s",
                  history(ops, n, [&](const op& o) {
                      switch (o.kind)
                      {
                      case ADD: return "add handler " + std::to_string(o.a) + " to " + names[hname[o.a]] + "(" + sig_names[hsig[o.a]] + ")";
                      case REMOVE: return "remove handler " + std::to_string(o.a);
                      case REMOVE_EVENT: return std::string("remove event ") + names[o.a];
                      case STOP: return std::string("stop");
                      }
                      return std::string("emit ") + names[o.a / 100] + "(" + sig_names[o.a % 100] + ")";
                  }).c_str());
}
SCENARIO(ev_lin, "events.lin") { lin(false); }
// C11: the same while the dispatcher is stopped and started again
SCENARIO(ev_stoplin, "events.stoplin") { lin(true); }
// many emissions at once: each handler gets each payload exactly once
SCENARIO(ev_storm, "events.storm")
{
    int nc = (int)sim::draw(1, 4), nh = (int)sim::draw(1, 6);
    static const i64 counts[] = {1, 3, 10, 30};
    int per = (int)sim::one_of(counts);
    int workers = (int)sim::draw(1, 4);
    int s = (int)sim::draw(0, S_COUNT - 1);
    if (s == S_VOID)
        s = S_INT;
    bool throwing = sim::chance(1, 3), churn = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            d.start(workers);
            for (int h = 0; h < nh; h++)
                add(d, "storm", s, [h, throwing, t = tracked(h)](int token) {
                    sim::add(100 + h * 200 + token);
                    t.get();
                    if (throwing && (token + h) % 3 == 0)
                    {
                        sim::count(sim::F_USER_THROW);
                        throw oops(token);
                    }
                });
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (int i = 0; i < per; i++)
                        if (!emit(d, "storm", s, t * per + i))
                            sim::fail("C08", "emit() returned false although handlers are registered");
                });
            if (churn)
                c.go([&] {
                    // other handlers of other events come and go
                    for (int i = 0; i < 5; i++)
                    {
                        unsigned long a = add(d, "other", S_INT, [](int) { sim::fail("C08", "a handler of another event was called"); });
                        unsigned long b = add(d, "storm", s == S_INT ? S_LONG : S_INT, [](int) { sim::fail("C08", "a handler with another signature was called"); });
                        if (!d.remove_handler(a) || !d.remove_handler(b))
                            sim::fail("C09", "remove_handler() of a registered handler returned false");
                    }
                });
            c.join();
            sim::wait_idle();
            for (int h = 0; h < nh; h++)
                for (int k = 0; k < nc * per; k++)
                    if (sim::get(100 + h * 200 + k) != 1)
                        sim::fail("C08", "handler %d was called %lld times for emission %d", h, (long long)sim::get(100 + h * 200 + k), k);
            d.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "handlers or payloads of a destroyed dispatcher leak: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C09: ids, names and types -------------------------------------------------------------------------------------------
std::string nasty_name(int k)
{
    switch (k)
    {
    case 0: return "event";
    case 1: return "event1";
    case 2: return "event12";
    case 3: return "ev";
    case 4: return "";
    case 5: return "1";
    case 6: return "event" + std::to_string(typeid(int).hash_code());
    case 7: return "a very long event name, longer than the small buffer of a string";
    case 8: return "a very long event name, longer than the small buffer of a string, and more";
    case 9: return "ev" + std::to_string(typeid(int).hash_code() + typeid(double).hash_code());
    case 10: return std::string("nul\0inside", 10);
    case 11: return "event ";
    case 12: return "Event";
    }
    return same_hash(k - 13);
}
std::string shown_name(int k) { return k < 13 ? nasty_name(k) : "hash<" + std::to_string(k - 12) + ">"; }
constexpr int NAMES = 15;
SCENARIO(ev_names, "events.names")
{
    int nd = (int)sim::draw(1, 3);
    int n = (int)sim::draw(3, 25);
    struct step
    {
        int kind, d, name, sig, which;
    };
    std::vector<step> st;
    int focus = (int)sim::draw(0, NAMES - 1), focus2 = (int)sim::draw(0, NAMES - 1);
    int fs = (int)sim::draw(0, S_COUNT - 1), fs2 = (int)sim::draw(0, S_COUNT - 1);
    for (int i = 0; i < n; i++)
    {
        static const i64 kinds[] = {0, 0, 3, 3, 1, 2, 4};
        step s;
        s.kind = (int)sim::one_of(kinds);
        s.d = (int)sim::draw(0, nd - 1);
        int r = (int)sim::draw(0, 5);
        s.name = r < 2 ? focus : r < 4 ? focus2 : (int)sim::draw(0, NAMES - 1);
        r = (int)sim::draw(0, 5);
        s.sig = r < 2 ? fs : r < 4 ? fs2 : (int)sim::draw(0, S_COUNT - 1);
        s.which = (int)sim::draw(0, 30);
        st.push_back(s);
    }
    sim::enable(sim::F_THREAD_STALL, 1, 8);
    sim::run([&] {
        struct reg
        {
            unsigned long id;
            int name, sig, key;
            bool on;
        };
        struct disp
        {
            std::unique_ptr<event_dispatcher> d;
            std::vector<reg> regs;
        };
        std::vector<disp> ds(nd);
        auto fresh = [&](disp& x) {
            x.d = std::make_unique<event_dispatcher>();
            x.regs.clear();
            if (!x.d->start(1))
                sim::fail("C11", "start() returned false");
        };
        for (auto& x : ds)
            fresh(x);
        int next_key = 0, token = 1;
        for (auto& s : st)
        {
            disp& x = ds[s.d];
            switch (s.kind)
            {
            case 0:
            {
                int key = next_key++;
                unsigned long id = add(*x.d, nasty_name(s.name), s.sig, [key](int v) {
                    sim::add(200 + key);
                    sim::set(4000 + key, v);
                });
                for (auto& r : x.regs)
                    if (r.id == id)
                        sim::fail("C09", "add_handler() returned id %lu twice for one dispatcher", id);
                x.regs.push_back({id, s.name, s.sig, key, true});
                break;
            }
            case 1:
            {
                // some id: of this dispatcher (registered or removed), of another one, or never issued
                unsigned long id = 0;
                bool any = false;
                disp& from = s.which % 4 == 3 ? ds[(size_t)(s.d + 1) % ds.size()] : x;
                if (!from.regs.empty() && s.which % 9 != 8)
                {
                    id = from.regs[(size_t)s.which % from.regs.size()].id;
                    any = true;
                }
                else
                    id = 987654321;
                (void)any;
                bool want = false;
                for (auto& r : x.regs)
                    if (r.on && r.id == id)
                    {
                        want = true;
                        r.on = false;
                    }
                bool got = x.d->remove_handler(id);
                if (got != want)
                    sim::fail("C09", "remove_handler(%lu) returned %d, but the dispatcher %s such a handler", id, got, want ? "has" : "does not have");
                if (x.d->remove_handler(id))
                    sim::fail("C09", "remove_handler(%lu) returned true twice", id);
                break;
            }
            case 2:
            {
                bool want = false;
                for (auto& r : x.regs)
                    if (r.on && r.name == s.name)
                    {
                        want = true;
                        r.on = false;
                    }
                bool got = x.d->remove_event(nasty_name(s.name));
                if (got != want)
                    sim::fail("C09", "remove_event(\"%s\") returned %d, but the dispatcher %s handlers of that event", shown_name(s.name).c_str(), got, want ? "has" : "has no");
                break;
            }
            case 3:
            {
                if (s.which % 2 && !x.regs.empty())
                {
                    // mostly events that somebody handles
                    auto& r = x.regs[(size_t)(s.which / 2) % x.regs.size()];
                    s.name = r.name;
                    if (s.which % 4 == 1)
                        s.sig = r.sig;
                }
                bool want = false;
                for (int k = 0; k < next_key; k++)
                    sim::set(200 + k, 0);
                int tk = token++;
                bool got = emit(*x.d, nasty_name(s.name), s.sig, tk);
                sim::wait_idle();
                for (auto& y : ds)
                    for (auto& r : y.regs)
                    {
                        bool should = &y == &x && r.on && r.name == s.name && r.sig == s.sig;
                        want |= should;
                        i64 hits = sim::get(200 + r.key);
                        if (hits != should)
                            sim::fail("C09", "emit(\"%s\", <%s>) called a handler of \"%s\" with <%s> of %s dispatcher%s %lld times", shown_name(s.name).c_str(), sig_names[s.sig], shown_name(r.name).c_str(),
                                      sig_names[r.sig], &y == &x ? "the same" : "another", r.on ? "" : " (removed)", (long long)hits);
                        if (should && s.sig != S_VOID && sim::get(4000 + r.key) != tk)
                            sim::fail("C08", "a handler got payload %lld instead of %d", (long long)sim::get(4000 + r.key), tk);
                        if (should)
                            sim::nontrivial();
                    }
                if (got != want)
                    sim::fail("C09", "emit(\"%s\", <%s>) returned %d with %s handlers", shown_name(s.name).c_str(), sig_names[s.sig], got, want ? "matching" : "no matching");
                break;
            }
            case 4:
                if (s.which % 3 == 0)
                    fresh(x);  // destroys one dispatcher and creates another
                else if (s.which % 3 == 1)
                {
                    if (!x.d->stop() || !x.d->start(1))
                        sim::fail("C11", "stop() and start() returned false");
                    for (auto& r : x.regs)
                        r.on = false;
                }
                break;
            }
        }
    });
}
// several dispatchers used from several threads: they share nothing
SCENARIO(ev_multi, "events.multi")
{
    int nd = (int)sim::draw(2, 4), n = (int)sim::draw(1, 5);
    bool shared = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        event_dispatcher common;
        common.start(2);
        clients c;
        for (int t = 0; t < nd; t++)
            c.go([&, t] {
                event_dispatcher own;
                own.start(1);
                std::vector<unsigned long> ids, cids;
                for (int i = 0; i < n; i++)
                {
                    ids.push_back(own.add_handler<int>("e", [t, i](int) { sim::add(100 + t * 10 + i); }));
                    if (shared)
                        cids.push_back(common.add_handler<int>("e", [t, i](int) { sim::add(200 + t * 10 + i); }));
                }
                for (int i = 0; i < n; i++)
                    for (int j = 0; j < i; j++)
                        if (ids[i] == ids[j])
                            sim::fail("C09", "one dispatcher issued id %lu twice", ids[i]);
                for (unsigned long id : cids)
                    if (sim::add(1000 + (int)(id % 1000)) != 1)
                        sim::fail("C09", "one dispatcher issued id %lu twice", id);
                // remove every other one; exactly those disappear
                for (int i = 0; i < n; i += 2)
                {
                    if (!own.remove_handler(ids[i]))
                        sim::fail("C09", "remove_handler(%lu) returned false for a registered handler", ids[i]);
                    if (shared && !common.remove_handler(cids[i]))
                        sim::fail("C09", "remove_handler(%lu) returned false for a registered handler", cids[i]);
                }
                own.emit("e", 1);
                sim::add(1);
                while (sim::get(1) != nd)
                    std::this_thread::sleep_for(10us);
                std::this_thread::sleep_for(100us);
                for (int i = 0; i < n; i++)
                    if (sim::get(100 + t * 10 + i) != (i % 2))
                        sim::fail("C09", "handler %d of a dispatcher %s called after others were removed", i, i % 2 ? "was not" : "was");
            });
        c.join();
        if (shared)
        {
            bool r = common.emit("e", 1);
            sim::wait_idle();
            if (r != (n > 1))
                sim::fail("C09", "emit() returned %d", r);
            for (int t = 0; t < nd; t++)
                for (int i = 0; i < n; i++)
                    if (sim::get(200 + t * 10 + i) != (i % 2))
                        sim::fail("C09", "handler %d of thread %d %s called after others were removed", i, t, i % 2 ? "was not" : "was");
        }
    });
}

// ---- C10: order with one worker -------------------------------------------------------------------------------------------
SCENARIO(ev_order, "events.order")
{
    int nc = (int)sim::draw(1, 3), nh = (int)sim::draw(1, 4), events = (int)sim::draw(1, 2);
    static const i64 counts[] = {1, 2, 5, 20};
    int per = (int)sim::one_of(counts);
    bool dflt = sim::chance(1, 2), throwing = sim::chance(1, 3), slow = sim::chance(1, 3), late = sim::chance(1, 4), removed = sim::chance(1, 3);
    int s = (int)sim::draw(0, S_COUNT - 1);
    if (s == S_VOID)
        s = S_TRACKED;
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    enum { BUSY = 1, LAST = 10, SEEN = 20 };  // LAST + client: (emission * 100 + handler) seen last
    sim::run([&] {
        event_dispatcher d;
        if (!late)
            dflt ? d.start() : d.start(1);
        for (int t = 0; t < nc; t++)
            sim::set(LAST + t, -1);
        std::vector<unsigned long> extra;
        for (int h = 0; h < nh; h++)
            for (int e = 0; e < events; e++)
            {
                if (removed)
                    extra.push_back(add(d, "e" + std::to_string(e), s, [](int) { sim::fail("C09", "a removed handler was called"); }));
                add(d, "e" + std::to_string(e), s, [=](int token) {
                    if (sim::add(BUSY) != 1)
                        sim::fail("C10", "two handlers run at once with one worker");
                    int t = token / 1000, i = token % 1000;
                    i64 now = i * 100 + h, before = sim::get(LAST + t);
                    i64 expect = before < 0 ? 0 : before % 100 + 1 < nh ? before + 1 : (before / 100 + 1) * 100;
                    if (i % events != e)
                        sim::fail("C09", "the handler of another event was called");
                    if (now != expect)
                        sim::fail("C10", "one worker: handler %d of emission %d ran when handler %lld of emission %lld was next", h, i, (long long)(expect % 100), (long long)(expect / 100));
                    sim::set(LAST + t, now);
                    sim::add(SEEN);
                    if (slow && i % 3 == 0)
                        std::this_thread::sleep_for(2us);
                    sim::point();
                    sim::add(BUSY, -1);
                    if (throwing && (i + h) % 2 == 0)
                    {
                        sim::count(sim::F_USER_THROW);
                        throw oops(i);
                    }
                });
            }
        for (auto id : extra)
            d.remove_handler(id);
        clients c;
        for (int t = 0; t < nc; t++)
            c.go([&, t] {
                for (int i = 0; i < per; i++)
                    if (!emit(d, "e" + std::to_string(i % events), s, t * 1000 + i))
                        sim::fail("C08", "emit() returned false although handlers are registered");
            });
        c.join();
        if (late)
            dflt ? d.start() : d.start(1);
        for (int i = 0; i < 200 && sim::get(SEEN) != nc * per * nh; i++)
        {
            sim::wait_idle();
            std::this_thread::sleep_for(10us);
        }
        if (sim::get(SEEN) != nc * per * nh)
            sim::fail("C08", "%lld of %d calls of handlers happened", (long long)sim::get(SEEN), nc * per * nh);
        d.stop();
    });
}

// many events, handlers and deliveries at once
SCENARIO(ev_backlog, "events.backlog")
{
    int n = draw_amount(), what = (int)sim::draw(0, 2);  // many emissions, many handlers of one event, many events
    int workers = (int)sim::draw(1, 3);
    int more = (int)sim::draw(1, 3);
    bool held = sim::chance(1, 2);
    int drop = (int)sim::draw(0, 2);  // handlers removed again, one in ...
    if (what == 1)
        n = std::min(n, 1100);
    std::vector<int> order = stride_order(n);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { SEEN = 1, LAST = 2, HITS = 100 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            d.start(workers);
            sim::set(LAST, -1);
            std::atomic_bool go{!held};
            std::vector<unsigned long> held_ids;
            if (held)
            {
                d.add_handler<>("block", [&go]() { go.wait(false); });
                for (int w = 0; w < workers; w++)
                    d.emit("block");
            }
            int nh = what == 1 ? n : 1, ne = what == 2 ? n : 1, nm = what == 0 ? n : what == 1 ? more : 1;
            std::vector<unsigned long> ids;
            for (int e = 0; e < ne; e++)
                for (int h = 0; h < nh; h++)
                    ids.push_back(d.add_handler<int>("event " + std::to_string(what == 2 ? order[e] : e), [=](int v) {
                        sim::add(SEEN);
                        int k = what == 0 ? v : what == 1 ? h : order[e];
                        sim::add(HITS + k);
                        if (workers == 1)
                        {
                            i64 pos = what == 0 ? v : what == 1 ? (i64)v * n + h : v;
                            if (sim::get(LAST) >= pos)
                                sim::fail("C10", "one worker: delivery %lld came after delivery %lld", (long long)pos, (long long)sim::get(LAST));
                            sim::set(LAST, pos);
                        }
                        if (what == 2 && v != k)
                            sim::fail("C09", "the handler of event %d was called for event %d", k, v);
                    }));
            for (size_t i = 1; i < ids.size(); i++)
                if (ids[i] <= ids[i - 1] && (ids[i] == ids[i - 1] || std::count(ids.begin(), ids.end(), ids[i]) != 1))
                    sim::fail("C09", "handler id %lu was given out twice", ids[i]);
            int removed = 0;
            std::vector<char> gone(n, 0);
            if (drop && what)
                for (int i = 0; i < n; i += drop * 2)
                {
                    if (!d.remove_handler(ids[i]))
                        sim::fail("C09", "remove_handler() did not find handler %d of %d", i, n);
                    gone[what == 1 ? i : order[i]] = 1;
                    removed++;
                }
            i64 want = 0;
            for (int m = 0; m < nm; m++)
                for (int e = 0; e < ne; e++)
                {
                    bool r = d.emit("event " + std::to_string(e), what == 0 ? m : what == 1 ? m : e);
                    bool expect = what == 0 ? true : what == 1 ? removed < n : !gone[e];
                    if (r != expect)
                        sim::fail("C09", "emit() returned %d for event %d of %d", r, e, ne);
                }
            want = what == 0 ? n : (i64)(n - removed) * nm;
            go = true;
            go.notify_all();
            for (int i = 0; i < 400 && sim::get(SEEN) != want; i++)
            {
                sim::wait_idle();
                std::this_thread::sleep_for(10us);
            }
            if (sim::get(SEEN) != want)
                sim::fail("C08", "%lld of %lld deliveries happened", (long long)sim::get(SEEN), (long long)want);
            for (int k = 0; k < n; k++)
                if (sim::get(HITS + k) != (what == 0 ? 1 : gone[k] ? 0 : nm))
                    sim::fail("C08", "%s %d of %d: %lld deliveries", what == 0 ? "emission" : what == 1 ? "handler" : "event", k, n, (long long)sim::get(HITS + k));
            if (what == 2)
                for (int e = 0; e < n; e++)
                    if (d.remove_event("event " + std::to_string(e)) == (bool)gone[e])
                        sim::fail("C09", "remove_event() is wrong for event %d of %d", e, n);
            d.stop();
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed dispatcher leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C11: stop and restart ---------------------------------------------------------------------------------------------------
SCENARIO(ev_stop, "events.stop")
{
    int rounds = (int)sim::draw(1, 3), nh = (int)sim::draw(1, 3), per = (int)sim::draw(1, 8), workers = (int)sim::draw(1, 3), nc = (int)sim::draw(1, 2), events = (int)sim::draw(1, 4), others = (int)sim::draw(0, 2);
    bool twice = sim::chance(1, 2);
    bool concurrent = sim::chance(1, 3), slow = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    enum { BUSY = 1, ROUND = 2, STOPPED = 3 };
    auto name = [](int e) { return "e" + std::to_string(e); };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            if (d.stop())
                sim::fail("C11", "stop() of a dispatcher that was not started returned true");
            for (int r = 0; r < rounds; r++)
            {
                sim::set(ROUND, r);
                sim::set(STOPPED, 0);
                if (!d.start(workers))
                    sim::fail("C11", "start() returned false on a stopped dispatcher");
                if (d.start(workers))
                    sim::fail("C11", "start() returned true on a running dispatcher");
                std::vector<unsigned long> ids;
                for (int h = 0; h < nh * events; h++)
                    ids.push_back(add(d, name(h % events), S_TRACKED, [=, t = tracked(h)](int token) {
                        sim::add(BUSY);
                        // even tokens were emitted before stop() was called, odd ones possibly while it ran
                        if (sim::get(STOPPED))
                            sim::fail("C11", "a handler was started after stop() had returned");
                        if (sim::get(ROUND) != r)
                            sim::fail("C11", "an event emitted %s was delivered to a handler of the time before the restart", token % 2 ? "during stop()" : "before stop()");
                        if (slow)
                            std::this_thread::sleep_for(3us);
                        t.get();
                        sim::add(BUSY, -1);
                    }));
                // events of other types, never emitted while running
                for (int e = 0; e < others; e++)
                    ids.push_back(add(d, "o" + std::to_string(e), e % 2 ? S_VOID : S_INT, [](int) {}));
                for (int i = 0; i < per; i++)
                    if (!emit(d, name(i % events), S_TRACKED, i * 2))
                        sim::fail("C08", "emit() returned false although handlers are registered");
                clients c;
                if (concurrent)
                    for (int t = 0; t < nc; t++)
                        c.go([&, t] {
                            for (int i = 0; i < 3; i++)
                                emit(d, name((i + t) % events), S_TRACKED, i * 2 + 1);
                        });
                if (!d.stop())
                    sim::fail("C11", "stop() returned false on a running dispatcher");
                sim::set(STOPPED, 1);
                if (sim::get(BUSY))
                    sim::fail("C11", "stop() returned while %lld handlers were running", (long long)sim::get(BUSY));
                c.join();
                if (twice && d.stop())
                    sim::fail("C11", "stop() returned true on a stopped dispatcher");
                for (int e = 0; e < events; e++)
                    if (emit(d, name(e), S_TRACKED, 0))
                        sim::fail("C11", "emit() found handlers of event %d of %d after stop()", e, events);
                for (int e = 0; e < others; e++)
                    if (emit(d, "o" + std::to_string(e), e % 2 ? S_VOID : S_INT, 0))
                        sim::fail("C11", "emit() found handlers after stop()");
                for (auto id : ids)
                    if (d.remove_handler(id))
                        sim::fail("C11", "remove_handler() found a handler after stop()");
                for (int e = 0; e < events; e++)
                    if (d.remove_event(name(e)))
                        sim::fail("C11", "remove_event() found event %d of %d after stop()", e, events);
                for (int e = 0; e < others; e++)
                    if (d.remove_event("o" + std::to_string(e)))
                        sim::fail("C11", "remove_event() found an event after stop()");
                if (!concurrent && tracked::live())
                    sim::fail("C30", "%lld handlers or payloads outlive stop()", (long long)tracked::live());
                if (d.stop())
                    sim::fail("C11", "stop() returned true on a stopped dispatcher");
            }
            // afterwards it works as new
            d.start(workers);
            add(d, "e", S_INT, [](int v) { sim::set(50, v); });
            if (!emit(d, "e", S_INT, 123))
                sim::fail("C11", "emit() returned false after a restart");
            sim::wait_idle();
            for (int i = 0; i < 20; i++)
            {
                std::this_thread::sleep_for(5us);
                sim::wait_idle();
            }
            if (sim::get(50) != 123)
                sim::fail("C11", "an event emitted after a restart was not delivered");
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "handlers or payloads of a destroyed dispatcher leak: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// start/stop/add/emit from several threads at once
SCENARIO(ev_lifecycle, "events.lifecycle")
{
    int nc = (int)sim::draw(2, 3);
    std::vector<std::vector<int>> sc(nc);
    for (auto& v : sc)
    {
        int n = (int)sim::draw(2, 6);
        for (int i = 0; i < n; i++)
            v.push_back((int)sim::draw(0, 5));
    }
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    unsigned long last = 0;
                    for (int k : sc[t])
                        switch (k)
                        {
                        case 0:
                        {
                            int o = sim::op_begin(1);
                            sim::op_end(o, d.start(2));
                            break;
                        }
                        case 1:
                        {
                            int o = sim::op_begin(2);
                            sim::op_end(o, d.stop());
                            break;
                        }
                        case 2: last = add(d, "x", S_TRACKED, [v = tracked(t)](int) { v.get(); }); break;
                        case 3:
                        case 4: emit(d, "x", S_TRACKED, 3); break;
                        case 5: last ? d.remove_handler(last) : d.remove_event("x"); break;
                        }
                });
            c.join();
            int o = sim::op_begin(2);
            sim::op_end(o, d.stop());
            // whatever happened before, it works now
            if (!d.start(1))
                sim::fail("C11", "start() returned false on a stopped dispatcher");
            add(d, "y", S_INT, [](int v) { sim::set(50, v); });
            emit(d, "y", S_INT, 77);
            sim::wait_idle();
            if (sim::get(50) != 77)
                sim::fail("C11", "the dispatcher does not deliver after concurrent start and stop");
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "handlers or payloads of a destroyed dispatcher leak: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
    struct onoff
    {
        int32_t on;
    } s0{0};
    if (!linearizable(sim::ops(), sim::op_count(), s0, [](onoff& s, const op& o, bool) {
            bool want = o.kind == 1;
            if (!o.res)
                return (s.on != 0) == want;
            if ((s.on != 0) == want)
                return false;
            s.on = want;
            return true;
        }))
        sim::fail("C11", "the results of start and stop have no explanation as a running flag:%s", history(sim::ops(), sim::op_count(), [](const op& o) { return std::string(o.kind == 1 ? "start" : "stop"); }).c_str());
}

// ---- C07 --------------------------------------------------------------------------------------------------------------------------
SCENARIO(ev_create, "events.createfail")
{
    int workers = (int)sim::draw(1, 4), tries = (int)sim::draw(1, 3);
    bool dtor = sim::chance(1, 4);
    sim::swarm_schedule_faults();
    static const i64 rates[] = {2, 3, 5};
    sim::cfg.rate[sim::F_CREATE_FAIL] = (int)sim::one_of(rates);
    sim::run([&] {
        event_dispatcher d;
        add(d, "e", S_INT, [](int v) { sim::set(50, v); });
        bool running = false;
        for (int i = 0; i < tries && !running; i++)
        {
            int before = sim::threads_alive();
            sim::set_create_faults(true);
            try
            {
                running = d.start(workers);
                sim::set_create_faults(false);
                if (!running)
                    sim::fail("C07", "start() returned false on a stopped dispatcher");
            }
            catch (const std::system_error&)
            {
                sim::set_create_faults(false);
                sim::nontrivial();
                if (sim::threads_alive() != before)
                    sim::fail("C07", "start() of a dispatcher threw and left %d threads behind", sim::threads_alive() - before);
            }
        }
        if (dtor)
            return;
        if (!running && !d.start(workers))
            sim::fail("C07", "start() after a failed start() returned false");
        if (!emit(d, "e", S_INT, 5))
            sim::fail("C07", "handlers were lost by a failed start()");
        sim::wait_idle();
        if (sim::get(50) != 5)
            sim::fail("C07", "the dispatcher does not deliver after a failed start()");
        if (!d.stop())
            sim::fail("C07", "stop() returned false");
    });
}

// ---- C32: handlers that use their dispatcher -----------------------------------------------------------------------------------------
SCENARIO(ev_reentrant, "events.reentrant")
{
    int workers = (int)sim::draw(1, 3), depth = (int)sim::draw(1, 6), roots = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    enum { CHAIN = 1, SELF = 2, GROWN = 3 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            d.start(workers);
            // emits the next event from within the handler
            d.add_handler<int>("chain", [&](int k) {
                sim::add(CHAIN);
                if (k > 0 && !d.emit("chain", k - 1))
                    sim::fail("C32", "emit() from within a handler found no handler");
            });
            // removes itself while running
            auto id = std::make_shared<unsigned long>(0);
            *id = d.add_handler<int>("self", [&d, id, t = tracked(5)](int) {
                sim::add(SELF);
                unsigned long me = *id;
                d.remove_handler(me);
                if (t.get() != 5)
                    sim::fail("C32", "the handler lost its captured value");
            });
            // adds handlers from within a handler
            d.add_handler<int>("grow", [&](int k) {
                d.add_handler<int>("grown", [&](int v) { sim::add(GROWN, v); });
                if (k && !d.emit("grown", 1))
                    sim::fail("C32", "a handler added within a handler is not found");
            });
            // removes its own event
            d.add_handler<int>("event", [&, t = tracked(6)](int) {
                d.remove_event("event");
                t.get();
            });
            for (int i = 0; i < roots; i++)
                d.emit("chain", depth);
            d.emit("self", 1);
            d.emit("grow", 1);
            d.emit("event", 1);
            sim::wait_idle();
            if (sim::get(CHAIN) != roots * (depth + 1))
                sim::fail("C32", "handlers that emit: %lld of %d calls happened", (long long)sim::get(CHAIN), roots * (depth + 1));
            if (sim::get(SELF) != 1 || sim::get(GROWN) != 1)
                sim::fail("C32", "handlers that add or remove handlers were called %lld and %lld times", (long long)sim::get(SELF), (long long)sim::get(GROWN));
            if (d.emit("self", 1) || d.emit("event", 1))
                sim::fail("C32", "a handler removed itself and is still there");
            *id = 0;
            id.reset();
            d.stop();
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "handlers or payloads of a destroyed dispatcher leak: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// handlers that use their dispatcher while it is being stopped or destroyed
SCENARIO(ev_busystop, "events.busystop")
{
    int workers = (int)sim::draw(1, 3), emits = (int)sim::draw(1, 4), rounds = (int)sim::draw(1, 2), n = (int)sim::draw(1, 4);
    bool destroy = sim::chance(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    enum { BUSY = 1, STARTED = 2, STOPPED = 3, STOPPING = 4 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            event_dispatcher d;
            for (int r = 0; r < rounds; r++)
            {
                sim::set(STARTED, 0);
                sim::set(STOPPED, 0);
                sim::set(STOPPING, 0);
                d.start(workers);
                d.add_handler<tracked>("e", [&, t = tracked(2)](tracked v) {
                    if (sim::get(STOPPED))
                        sim::fail("C11", "a handler was started after stop() had returned");
                    sim::add(BUSY);
                    sim::add(STARTED);
                    unsigned long last = 0;
                    for (int i = 0; i < n || (!sim::get(STOPPING) && i < 1000); i++)
                    {
                        if (i < n)
                        {
                            d.emit("other", 1);
                            last = d.add_handler<int>("other", [u = tracked(3)](int) { u.get(); });
                            if (i % 2 && last)
                                d.remove_handler(last);
                            d.emit("other", i);
                            if (i % 3 == 2)
                                d.remove_event("other");
                        }
                        std::this_thread::sleep_for(2us);
                    }
                    if (v.get() + t.get() != 9)
                        sim::fail("C08", "a handler lost its captured value or argument");
                    sim::add(BUSY, -1);
                });
                for (int i = 0; i < emits; i++)
                    if (!d.emit("e", tracked(7)))
                        sim::fail("C08", "emit() returned false although a handler is registered");
                while (!sim::get(STARTED))
                    std::this_thread::sleep_for(1us);
                sim::set(STOPPING, 1);
                if (destroy && r == rounds - 1)
                    break;
                if (!d.stop())
                    sim::fail("C11", "stop() returned false on a running dispatcher");
                sim::set(STOPPED, 1);
                if (sim::get(BUSY))
                    sim::fail("C11", "stop() returned while a handler was running");
                if (d.emit("e", tracked(7)))
                    sim::fail("C11", "emit() found a handler after stop()");
            }
        }
        if (sim::get(BUSY))
            sim::fail("C11", "the dispatcher was destroyed while a handler was running");
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "handlers or payloads of a destroyed dispatcher leak: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
}

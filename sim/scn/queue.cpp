// blocking_queue
#include "scn.h"

#include <limits>
#include <teiacare/sdk/blocking_queue.hpp>

using namespace scn;
using tc::sdk::blocking_queue;

namespace
{
enum { PUSH = 1, PUSH_RV, TRYPUSH, TRYPUSH_RV, POP, TRYPOP, SIZE, CAPACITY };
constexpr i64 THROWN = -100, FULL = -101, EMPTY = -102;
std::string opname(const op& o)
{
    static const char* const n[] = {"?", "push", "push(T&&)", "try_push", "try_push(T&&)", "pop", "try_pop", "size", "capacity"};
    std::string s = n[o.kind];
    s += "(";
    if (o.kind <= TRYPUSH_RV)
        s += std::to_string(o.a);
    return s + ")";
}

template <class T> struct conv;
template <> struct conv<int>
{
    static int make(int v) { return v; }
    static int get(int v) { return v; }
};
template <> struct conv<std::string>
{
    static std::string make(int v) { return "item with a text that is long enough to be on the heap " + std::to_string(v); }
    static int get(const std::string& s)
    {
        static const char pre[] = "item with a text that is long enough to be on the heap ";
        if (s.size() <= sizeof pre - 1 || s.compare(0, sizeof pre - 1, pre) != 0)
            sim::fail("C01", "a popped item is not one that was pushed: \"%.80s\"", s.c_str());
        return atoi(s.c_str() + sizeof pre - 1);
    }
};
template <> struct conv<tracked>
{
    static tracked make(int v) { return tracked(v); }
    static int get(const tracked& t) { return t.get(); }
};
template <> struct conv<risky>
{
    static risky make(int v) { return risky(v); }
    static int get(const risky& t) { return t.get(); }
};
struct big
{
    int a[40];
};
template <> struct conv<big>
{
    static big make(int v)
    {
        big b;
        for (int i = 0; i < 40; i++)
            b.a[i] = v * 64 + i;
        return b;
    }
    static int get(const big& b)
    {
        for (int i = 0; i < 40; i++)
            if (b.a[i] != b.a[0] + i)
                sim::fail("C01", "a popped item is not one that was pushed: torn at word %d", i);
        return b.a[0] / 64;
    }
};

constexpr int QMAX = 40;
struct model
{
    int32_t n;
    int32_t cap;
    int16_t it[QMAX];
};
bool step(model& m, const op& o, bool pending)
{
    switch (o.kind)
    {
    case PUSH:
    case PUSH_RV:
    case TRYPUSH:
    case TRYPUSH_RV:
        if (!pending && o.res == FULL)
            return m.n >= m.cap;
        if (!pending && o.res == THROWN)
            return true;
        if (m.n >= m.cap || m.n >= QMAX)
            return false;
        m.it[m.n++] = (int16_t)o.a;
        return true;
    case POP:
    case TRYPOP:
        if (!pending && o.res == EMPTY)
            return m.n == 0;
        if (!pending && o.res == THROWN)
            return true;
        if (!m.n || (!pending && m.it[0] != o.res))
            return false;
        m.n--;
        for (int i = 0; i < m.n; i++)
            m.it[i] = m.it[i + 1];
        m.it[m.n] = 0;
        return true;
    case SIZE:
        return pending || o.res == m.n;
    case CAPACITY:
        return pending || o.res == m.cap;
    }
    return false;
}

struct script
{
    int kind;
    int val;
};

template <class T>
i64 perform(blocking_queue<T>& q, int kind, int val, bool faulty)
{
    auto guard = [&](bool on) {
        if (faulty)
        {
            sim::set_alloc_faults(on);
            risky::arm(on);
        }
    };
    i64 res = 0;
    T* item = nullptr;
    alignas(T) unsigned char space[sizeof(T)];
    if (kind <= TRYPUSH_RV)
        item = new (space) T(conv<T>::make(val));
    int o = sim::op_begin(kind, val);
    try
    {
        switch (kind)
        {
        case PUSH:
            guard(true);
            q.push(*item);
            guard(false);
            break;
        case PUSH_RV:
            guard(true);
            q.push(std::move(*item));
            guard(false);
            break;
        case TRYPUSH:
            guard(true);
            res = q.try_push(*item) ? 0 : FULL;
            guard(false);
            break;
        case TRYPUSH_RV:
            guard(true);
            res = q.try_push(std::move(*item)) ? 0 : FULL;
            guard(false);
            break;
        case POP:
        {
            guard(true);
            T x = q.pop();
            guard(false);
            res = conv<T>::get(x);
            break;
        }
        case TRYPOP:
        {
            guard(true);
            std::optional<T> x = q.try_pop();
            guard(false);
            res = x ? conv<T>::get(*x) : EMPTY;
            break;
        }
        case SIZE: res = (i64)q.size(); break;
        case CAPACITY: res = (i64)q.capacity(); break;
        }
    }
    catch (oops&)
    {
        guard(false);
        res = THROWN;
    }
    catch (std::bad_alloc&)
    {
        guard(false);
        res = THROWN;
    }
    sim::op_end(o, res);
    if (item)
        item->~T();
    return res;
}

// how the check is attributed: the plain queue property or the one about failing items
template <class T>
void lin_scenario(bool faulty, const char* tag)
{
    static const i64 caps[] = {1, 2, 3, 4, 0};
    int cap_arg = (int)sim::one_of(caps);
    int cap = cap_arg ? cap_arg : 1;
    int nt = (int)sim::draw(2, 4);
    std::vector<std::vector<script>> sc(nt);
    int next = 1, total = 0;
    int bias = (int)sim::draw(0, 2);  // 0 mixed, 1 mostly producers, 2 mostly consumers
    for (int t = 0; t < nt; t++)
    {
        int n = (int)sim::draw(1, 4);
        int role = (int)sim::draw(0, 3);
        for (int i = 0; i < n; i++)
        {
            static const i64 prod[] = {PUSH, PUSH_RV, TRYPUSH, TRYPUSH_RV, PUSH, SIZE};
            static const i64 cons[] = {POP, TRYPOP, POP, SIZE};
            static const i64 mix[] = {PUSH, POP, TRYPUSH, TRYPOP, PUSH_RV, TRYPUSH_RV, SIZE, CAPACITY};
            int k = role == 0 ? (int)sim::one_of(prod) : role == 1 ? (int)sim::one_of(cons) : role == 2 ? (int)sim::one_of(mix) : bias == 1 ? (int)sim::one_of(prod) : (int)sim::one_of(cons);
            sc[t].push_back({k, next++});
            total++;
        }
    }
    int prefill = (int)sim::draw(0, cap);
    i64 dormant = draw_dormancy();  // how long blocked callers are left waiting
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    if (faulty)
    {
        sim::enable(sim::F_USER_THROW, 3, 4);
        sim::enable(sim::F_ALLOC_FAIL, 1, 2);
    }
    i64 live0 = 0;
    sim::run([&] {
        blocking_queue<T>* q = new blocking_queue<T>((size_t)cap_arg);
        clients c;
        for (int i = 0; i < prefill; i++)
            perform(*q, PUSH, next++, false);
        for (int t = 0; t < nt; t++)
            c.go([q, &s = sc[t], faulty] {
                for (auto& x : s)
                    perform(*q, x.kind, x.val, faulty);
                sim::add(1);
            });
        // Serve whoever is blocked until all clients are done; whenever nothing can run, nobody may be waiting needlessly.
        for (int round = 0; round < 200; round++)
        {
            sim::wait_idle();
            i64 in = 0, out = 0;
            int wpush = 0, wpop = 0, other = 0;
            for (int i = 0; i < sim::op_count(); i++)
            {
                const op& o = sim::ops()[i];
                bool isin = o.kind <= TRYPUSH_RV, isout = o.kind == POP || o.kind == TRYPOP;
                if (!o.ret)
                {
                    wpush += isin;
                    wpop += isout;
                    other += o.kind != PUSH && o.kind != PUSH_RV && o.kind != POP;
                }
                else if (o.res > THROWN)
                {
                    in += isin;
                    out += isout;
                }
            }
            if (wpop && in > out)
                sim::fail("C02", "%d consumers are blocked in pop() while the queue holds %lld items and nothing else will run", wpop, (long long)(in - out));
            if (wpush && in - out < cap)
                sim::fail("C02", "%d producers are blocked in push() while the queue holds %lld of %d items and nothing else will run", wpush, (long long)(in - out), cap);
            if (other)
                sim::fail("C01", "%d calls other than push() and pop() are blocked while nothing else runs; the queue holds %lld of %d items", other, (long long)(in - out), cap);
            if (sim::get(1) == nt)
                break;
            if (dormant && wpush + wpop)
            {
                std::this_thread::sleep_for(std::chrono::nanoseconds(dormant));
                dormant = 0;
                continue;
            }
            if (wpush)
                perform(*q, TRYPOP, 0, false);
            else if (wpop)
                perform(*q, TRYPUSH, next++, false);
            else
                sim::fail("generic", "a client of the queue is stuck outside push() and pop()");
        }
        c.join();
        i64 sz = perform(*q, SIZE, 0, false);
        for (int i = 0; i < cap + 2; i++)
            if (perform(*q, TRYPOP, 0, false) == EMPTY)
                break;
        if (sz > cap)
            sim::fail(tag, "the queue holds %lld items with capacity %d", (long long)sz, cap);
        delete q;
        live0 = tracked::live();
    });
    const op* ops = sim::ops();
    int n = sim::op_count();
    if (overlapping(ops, n))
        sim::nontrivial();
    if (live0)
        sim::fail(tag, "%lld queued items were leaked or destroyed twice", (long long)live0);
    model m;
    memset(&m, 0, sizeof m);
    m.cap = cap;
    if (n <= 60 && !linearizable(ops, n, m, step))
        sim::fail(tag, "history of a queue with capacity %d has no explanation as a FIFO of that capacity:%s", cap, history(ops, n, opname).c_str());
}

SCENARIO(q_lin_int, "queue.lin.int") { lin_scenario<int>(false, "C01"); }
SCENARIO(q_lin_str, "queue.lin.string") { lin_scenario<std::string>(false, "C01"); }
SCENARIO(q_lin_big, "queue.lin.big") { lin_scenario<big>(false, "C01"); }
SCENARIO(q_fault, "queue.fault.risky") { lin_scenario<risky>(true, "C03"); }
SCENARIO(q_fault_s, "queue.fault.string") { lin_scenario<std::string>(true, "C03"); }

// many items through few slots: every item exactly once, order of each producer kept, bound kept
template <class T>
void stream_scenario()
{
    int np = (int)sim::draw(1, 6), nc = (int)sim::draw(1, 6);
    static const i64 caps[] = {1, 2, 3, 8, 17, 100};
    int cap = (int)sim::one_of(caps);
    static const i64 sizes[] = {3, 12, 40};
    int each = (int)sim::one_of(sizes);
    int total = np * each;
    bool trypush = sim::chance(1, 3), trypop = sim::chance(1, 3), rv = sim::chance(1, 2), watcher = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    enum { TAKEN = 0, MAXSEEN = 1, BAD = 2, POPPED = 100 };  // cells; POPPED + k: k-th popped value
    sim::run([&] {
        blocking_queue<T> q(cap);
        clients c;
        for (int p = 0; p < np; p++)
            c.go([&, p] {
                for (int i = 0; i < each; i++)
                {
                    T x = conv<T>::make(p * 100 + i);
                    if (trypush)
                    {
                        while (!(rv ? q.try_push(std::move(x)) : q.try_push(x)))
                            std::this_thread::yield();
                    }
                    else if (rv)
                        q.push(std::move(x));
                    else
                        q.push(x);
                }
            });
        for (int k = 0; k < nc; k++)
            c.go([&, k] {
                int last[8];
                for (int& l : last)
                    l = -1;
                int share = total / nc + (k < total % nc ? 1 : 0);
                while (share > 0)
                {
                    int v;
                    if (trypop)
                    {
                        std::optional<T> x = q.try_pop();
                        if (!x)
                        {
                            std::this_thread::yield();
                            continue;
                        }
                        v = conv<T>::get(*x);
                    }
                    else
                        v = conv<T>::get(q.pop());
                    share--;
                    int p = v / 100, i = v % 100;
                    if (v < 0 || p >= np || i >= each)
                        sim::fail("C01", "popped %d, which nobody pushed", v);
                    if (sim::add(POPPED + v) != 1)
                        sim::fail("C01", "item %d of producer %d was popped twice", i, p);
                    if (i <= last[p])
                        sim::fail("C01", "one consumer got item %d of producer %d after item %d", i, p, last[p]);
                    last[p] = i;
                    sim::add(TAKEN);
                }
            });
        if (watcher)
            c.go([&] {
                for (int i = 0; i < 20; i++)
                {
                    size_t n = q.size();
                    if (n > (size_t)cap)
                        sim::fail("C01", "size() returned %zu with capacity %d", n, cap);
                    if (q.capacity() != (size_t)cap)
                        sim::fail("C01", "capacity() returned %zu instead of %d", q.capacity(), cap);
                }
            });
        sim::wait_idle();
        if (sim::get(TAKEN) != total)
        {
            bool all = true;
            for (int v = 0; v < np * 100; v++)
                if (v % 100 < each && !sim::get(POPPED + v))
                    all = false;
            sim::fail("C02", "%lld of %d items went through the queue, then producers and consumers all stayed blocked (size %zu of %d)%s", (long long)sim::get(TAKEN), total, q.size(), cap, all ? "" : "");
        }
        c.join();
        if (q.size() != 0)
            sim::fail("C01", "%zu items in the queue after all %d were popped", q.size(), total);
    });
    sim::nontrivial();
}
// large capacities, filled up and emptied, with producers or consumers blocked at the ends
SCENARIO(q_backlog, "queue.backlog")
{
    int cap = draw_amount(), extra = (int)sim::draw(0, 4), rounds = cap > 600 ? 1 : (int)sim::draw(1, 3);
    bool trypush = sim::chance(1, 3), trypop = sim::chance(1, 3);
    // a capacity that no test can fill; 0 means 1
    static const i64 vast[] = {1 << 20, 0, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 1, std::numeric_limits<i64>::max(), -1, 65536, 1 << 24, (1 << 24) + 1};
    const size_t large = (size_t)sim::one_of(vast);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { DONE = 1, SUM = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            blocking_queue<int> w(large);
            const size_t room = std::max<size_t>(large, 1);
            for (size_t i = 0; i < std::min<size_t>(room, 5); i++)
                if (!w.try_push((int)i))
                    sim::fail("C01", "try_push() refused item %zu of a queue with capacity %zu", i, room);
            if (w.capacity() != room || w.size() != std::min<size_t>(room, 5))
                sim::fail("C01", "a queue created with capacity %zu has capacity %zu and holds %zu items", large, w.capacity(), w.size());
            if (room == 1 && w.try_push(9))
                sim::fail("C01", "a queue with capacity 1 takes two items");
            for (size_t i = 0; i < std::min<size_t>(room, 5); i++)
                if (w.pop() != (int)i)
                    sim::fail("C01", "a queue with capacity %zu changes the order", room);
        }
        {
            blocking_queue<std::string> q(cap);
            for (int r = 0; r < rounds; r++)
            {
                sim::set(DONE, 0);
                for (int i = 0; i < cap; i++)
                {
                    if (trypush)
                    {
                        if (!q.try_push("item " + std::to_string(i)))
                            sim::fail("C01", "try_push() refused item %d of a queue with capacity %d", i, cap);
                    }
                    else
                        q.push("item " + std::to_string(i));
                }
                if (q.size() != (size_t)cap || q.try_push("too much"))
                    sim::fail("C01", "a queue with capacity %d holds %zu items and takes another one", cap, q.size());
                clients c;
                for (int e = 0; e < extra; e++)
                    c.go([&, e] {
                        q.push("item " + std::to_string(cap + e));
                        sim::add(DONE);
                    });
                sim::wait_idle();
                if (sim::get(DONE))
                    sim::fail("C01", "push() into a full queue returned");
                std::vector<char> seen(extra, 0);
                for (int i = 0; i < cap + extra; i++)
                {
                    std::string x;
                    if (trypop)
                    {
                        std::optional<std::string> o = q.try_pop();
                        if (!o)
                        {
                            sim::wait_idle();
                            o = q.try_pop();
                        }
                        if (!o)
                            sim::fail("C02", "the queue is empty after %d of %d items", i, cap + extra);
                        x = *o;
                    }
                    else
                        x = q.pop();
                    int k = atoi(x.c_str() + 5);
                    if (x.compare(0, 5, "item ") != 0 || (i < cap ? k != i : k < cap || k >= cap + extra || seen[k - cap]++))
                        sim::fail("C01", "popped \"%s\" as number %d of %d", x.c_str(), i, cap + extra);
                }
                sim::wait_idle();
                if (sim::get(DONE) != extra)
                    sim::fail("C02", "%d producers stay blocked on an empty queue", extra - (int)sim::get(DONE));
                c.join();
                if (q.size() || q.try_pop())
                    sim::fail("C01", "%zu items in the queue after all were popped", q.size());
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed queue leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}
SCENARIO(q_stream_int, "queue.stream.int") { stream_scenario<int>(); }
SCENARIO(q_stream_str, "queue.stream.string") { stream_scenario<std::string>(); }
}

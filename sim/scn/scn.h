// Helpers shared by the scenarios: thread groups, a linearizability checker, instance-counted values.
#pragma once
#include "sim.h"

#include <cstring>
#include <exception>
#include <functional>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

namespace scn
{
using i64 = int64_t;
using sim::op;

// client threads of a scenario
struct clients
{
    std::vector<std::thread> t;
    template <class F>
    void go(F&& f)
    {
        t.emplace_back(std::forward<F>(f));
    }
    void join()
    {
        for (auto& x : t)
            x.join();
        t.clear();
    }
};

// Texts of 16 bytes which are different and have the same std::hash: in libstdc++ the second half undoes what the first one changed.
// (With another library they are just different texts.)
inline std::string same_hash(int i)
{
    const uint64_t m = 0xc6a4a7935bd1e995ull, start = 0xc70f6907ull ^ (16 * m);
    auto mix = [m](uint64_t k) {
        k *= m;
        return (k ^ k >> 47) * m;
    };
    auto unmix = [m](uint64_t k) {
        uint64_t inv = m;
        for (int n = 0; n < 6; n++)
            inv *= 2 - m * inv;
        k *= inv;
        return (k ^ k >> 47) * inv;
    };
    auto half = [](const char* t) {
        uint64_t v;
        std::memcpy(&v, t, 8);
        return v;
    };
    std::string text = "task-number-0001";
    uint64_t first = half(text.data()), second = half(text.data() + 8);
    text[i < 2 ? 0 : 7] += (char)i;
    second = unmix((start ^ mix(first)) * m ^ mix(second) ^ (start ^ mix(half(text.data()))) * m);
    std::memcpy(&text[8], &second, 8);
    return text;
}

// Amounts at which something might be limited, resized, batched or counted in a small type: mostly modest, sometimes large.
inline int draw_amount()
{
    static const i64 sizes[] = {1, 2, 5, 9, 17, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 513, 999, 1000, 1001, 1024, 1025, 1500, 2048, 2500, 4097};
    int most = sim::chance(1, 3) ? 32 : sim::chance(1, 2) ? 24 : 19;
    return (int)sizes[sim::draw(0, most - 1)];
}
// How long nothing happens, for what a limit on a wait or a small representation of a time would show: mostly not at all.
inline i64 draw_long_time()
{
    constexpr i64 ms = 1'000'000, sec = 1000 * ms, hour = 3600 * sec, day = 24 * hour;
    static const i64 times[] = {2 * sec, 300 * ms, 5 * sec + 1, 11 * sec, 31 * sec, 61 * sec, 601 * sec, 36 * 60 * sec, 72 * 60 * sec, 25 * hour, 8 * day, 25 * day, 50 * day, 400 * day, 10 * 365 * day, 69 * 365 * day};
    return sim::one_of(times);
}
inline i64 draw_dormancy() { return sim::chance(1, 5) ? draw_long_time() : 0; }
// Fisher-Yates with the seeded generator, cheap in recorded draws: a stride permutation of 0..n-1
inline std::vector<int> stride_order(int n)
{
    int k = 1 + (int)sim::draw(0, 4) * 2 + n / 3;
    auto gcd = [](int a, int b) {
        while (b)
        {
            int t = a % b;
            a = b;
            b = t;
        }
        return a;
    };
    while (gcd(k, n) != 1)
        k++;
    std::vector<int> v(n);
    for (int i = 0; i < n; i++)
        v[i] = (int)((long long)i * k % n);
    return v;
}

inline bool overlapping(const op* ops, int n)
{
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++)
            if (ops[i].tid != ops[j].tid && (!ops[j].ret || ops[i].inv < ops[j].ret) && (!ops[i].ret || ops[j].inv < ops[i].ret))
                return true;
    return false;
}

// Wing-Gong search with memoisation. State: trivially copyable, no padding that differs (memset first).
// step(state, op, pending) -> false if the operation cannot take effect now with that result.
// A step that takes a further int is tried with 0 and 1: an operation whose effect is not determined by its result.
// fin(state, mask of operations in the linearization) -> false if the end state is not acceptable.
template <class State, class Step, class Fin>
class linearizer
{
public:
    linearizer(const op* o, int count, Step& s, Fin& f) : ops(o), n(count), step(s), fin(f) {}
    bool check(const State& init)
    {
        if (n > 60)
            sim::fail("error", "linearizability check of %d operations", n);
        gen()++;
        nodes = 0;
        return dfs(0, init);
    }
    long nodes = 0;

private:
    const op* ops;
    int n;
    Step& step;
    Fin& fin;
    static constexpr bool two = std::is_invocable_v<Step&, State&, const op&, bool, int>;
    struct ent
    {
        uint64_t key;
        uint64_t gen;
    };
    static constexpr int CAP = 1 << 16;
    static ent* table()
    {
        static ent t[CAP];
        return t;
    }
    static uint64_t& gen()
    {
        static uint64_t g;
        return g;
    }
    static uint64_t hash(uint64_t m, const State& s)
    {
        uint64_t h = m * 0x9E3779B97F4A7C15ull + 0x1234567;
        const unsigned char* p = (const unsigned char*)&s;
        size_t i = 0;
        for (; i + 8 <= sizeof(State); i += 8)
        {
            uint64_t w;
            memcpy(&w, p + i, 8);
            h = (h ^ w) * 0xff51afd7ed558ccdull;
            h ^= h >> 32;
        }
        for (; i < sizeof(State); i++)
        {
            h = (h ^ p[i]) * 0x100000001b3ull;
            h ^= h >> 29;
        }
        return h;
    }
    bool seen(uint64_t k)
    {
        ent* t = table();
        uint64_t i = k & (CAP - 1);
        for (int c = 0; c < CAP; c++, i = (i + 1) & (CAP - 1))
        {
            if (t[i].gen != gen())
            {
                if (c > CAP - 64)
                    break;
                t[i] = {k, gen()};
                return false;
            }
            if (t[i].key == k)
                return true;
        }
        sim::fail("error", "linearizability memo table full");
    }
    bool dfs(uint64_t mask, const State& s)
    {
        uint64_t minret = ~0ull;
        bool done = true;
        for (int i = 0; i < n; i++)
            if (!(mask >> i & 1) && ops[i].ret)
            {
                done = false;
                if (ops[i].ret < minret)
                    minret = ops[i].ret;
            }
        if (done && fin(s, mask))
            return true;
        for (int i = 0; i < n; i++)
        {
            if (mask >> i & 1 || ops[i].inv > minret)
                continue;
            for (int alt = 0; alt < (two ? 2 : 1); alt++)
            {
                State t = s;
                nodes++;
                bool ok;
                if constexpr (two)
                    ok = step(t, ops[i], ops[i].ret == 0, alt);
                else
                    ok = step(t, ops[i], ops[i].ret == 0);
                if (!ok)
                    continue;
                uint64_t m = mask | 1ull << i;
                if (seen(hash(m, t)))
                    continue;
                if (dfs(m, t))
                    return true;
            }
        }
        return false;
    }
};
template <class State, class Step, class Fin>
bool linearizable(const op* ops, int n, const State& init, Step step, Fin fin)
{
    linearizer<State, Step, Fin> l(ops, n, step, fin);
    return l.check(init);
}
template <class State, class Step>
bool linearizable(const op* ops, int n, const State& init, Step step)
{
    return linearizable(ops, n, init, step, [](const State&, uint64_t) { return true; });
}

// text of a history, for messages
template <class Name>
std::string history(const op* ops, int n, Name name)
{
    std::string s;
    for (int i = 0; i < n && s.size() < 3000; i++)
    {
        char b[200];
        snprintf(b, sizeof b, "\n    T%d %s -> %s  [%llu..%s]", ops[i].tid, name(ops[i]).c_str(), ops[i].ret ? std::to_string(ops[i].res).c_str() : "(pending)", (unsigned long long)ops[i].inv,
                 ops[i].ret ? std::to_string(ops[i].ret).c_str() : "");
        s += b;
    }
    return s;
}

struct oops : std::runtime_error
{
    int id;
    explicit oops(int i) : std::runtime_error("oops"), id(i) {}
};

// cells used by the helpers (scenarios use cells below 8000)
enum : int
{
    CELL_LIVE = 16000,      // live instances of tracked
    CELL_COPY_ARMED = 16100 // + thread id: copies of risky values may throw on this thread
};

// a value that knows whether it is alive; copies are counted
struct tracked
{
    static constexpr uint64_t ALIVE = 0x600DC0DE600DC0DEull, DEAD = 0xDEADBEEFDEADBEEFull;
    uint64_t canary = ALIVE;
    int v;
    explicit tracked(int x = -1) : v(x) { sim::add(CELL_LIVE, 1); }
    tracked(const tracked& o) : v(o.get()) { sim::add(CELL_LIVE, 1); }
    tracked(tracked&& o) noexcept : v(o.get())
    {
        o.v = -2;
        sim::add(CELL_LIVE, 1);
    }
    tracked& operator=(const tracked& o)
    {
        get();
        v = o.get();
        return *this;
    }
    tracked& operator=(tracked&& o) noexcept
    {
        get();
        v = o.get();
        o.v = -2;
        return *this;
    }
    ~tracked()
    {
        if (canary != ALIVE)
            sim::fail("C30", "a captured value was destroyed twice (value %d)", v);
        canary = DEAD;
        sim::add(CELL_LIVE, -1);
    }
    int get() const
    {
        if (canary != ALIVE)
            sim::fail("C30", "a captured value was used after it was destroyed (value %d)", v);
        return v;
    }
    bool operator==(const tracked& o) const { return get() == o.get(); }
    static i64 live() { return sim::get(CELL_LIVE); }
};
// a value whose copies may throw while armed on the calling thread
struct risky : tracked
{
    static void arm(bool on) { sim::set(CELL_COPY_ARMED + sim::self(), on); }
    static void maybe(int v)
    {
        if (sim::get(CELL_COPY_ARMED + sim::self()) && sim::fault_now(sim::F_USER_THROW))
            throw oops(v);
    }
    explicit risky(int x = -1) : tracked(x) {}
    risky(const risky& o) : tracked((maybe(o.v), (const tracked&)o)) {}
    risky(risky&& o) noexcept = default;
    risky& operator=(const risky& o)
    {
        maybe(o.v);
        tracked::operator=(o);
        return *this;
    }
    risky& operator=(risky&& o) noexcept = default;
};
}

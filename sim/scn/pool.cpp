// thread_pool
#include "scn.h"

#include <teiacare/sdk/thread_pool.hpp>

#include <atomic>
#include <barrier>
#include <chrono>
#include <future>
#include <latch>
#include <memory>
#include <numeric>

using namespace scn;
using tc::sdk::thread_pool;
using namespace std::chrono_literals;

namespace
{
const i64 thread_args[] = {2, 1, 3, 4, 0, 8, 16, 4294967295LL};
const i64 hw_args[] = {8, 4, 2, 1, 0};
unsigned clamp_workers(i64 n, int hw)
{
    i64 hi = hw < 1 ? 1 : hw;
    return (unsigned)(n < 1 ? 1 : n > hi ? hi : n);
}
unsigned draw_threads(i64& arg)
{
    arg = sim::one_of(thread_args);
    sim::cfg.hw_threads = (int)sim::one_of(hw_args);
    if (sim::cfg.hw_threads == 0 || sim::cfg.hw_threads < arg)
        sim::count(sim::F_SMALL_HOST);
    return clamp_workers(arg, sim::cfg.hw_threads);
}

enum : int { RAN = 1000, DONE_AT = 4000 };  // cells: executions of task k
enum kind { K_VOID, K_SUM, K_STRING, K_THROW, K_THROW_INT, K_UNIQUE, K_REF, K_MEMBER, K_NESTED, K_SLOW, K_FUNC, K_LREF, K_CSTR, K_MUTABLE, K_MANYARGS, K_VECTOR, K_COUNT };

struct calc
{
    int base;
    int plus(int a, int b) { return base + a + b; }
    int minus(int a) const { return base - a; }
};
int free_function(int a, const std::string& s) { return a * 10 + (int)s.size(); }

struct begin_task
{
    explicit begin_task(int id, int submitter)
    {
        if (sim::self() == submitter)
            sim::fail("C04", "task %d ran on the submitting thread", id);
        if (sim::add(RAN + id) != 1)
            sim::fail("C04", "task %d was executed twice", id);
    }
};

// one submission and the check of its result
struct ticket
{
    int id, k, a;
    std::future<void> fv;
    std::future<int> fi;
    std::future<std::string> fs;
    std::future<std::unique_ptr<int>> fu;
    std::future<int&> fr;
    std::future<std::future<int>> ff;
    std::future<std::vector<int>> fvec;
    std::unique_ptr<int> cell;
    std::unique_ptr<calc> obj;
    std::unique_ptr<int> plain;  // written by the task without synchronisation, read after get()

    void submit(thread_pool& p, int ident, int kind, int arg)
    {
        id = ident;
        k = kind;
        a = arg;
        int me = sim::self();
        int i = id;
        plain = std::make_unique<int>(0);
        int* pl = plain.get();
        switch (k)
        {
        case K_VOID:
            fv = p.run([i, me, pl, arg] {
                begin_task b(i, me);
                *pl = arg;
            });
            break;
        case K_SUM:
            fi = p.run([i, me, pl](int x, int y) {
                begin_task b(i, me);
                *pl = x;
                return x + y; }, arg, 7);
            break;
        case K_STRING:
        {
            std::string s = "a string argument which is longer than the small buffer";
            fs = p.run([i, me, pl](std::string t, int x) {
                begin_task b(i, me);
                *pl = x;
                return t + std::to_string(x); }, s, arg);
            s = "changed after submission, must not be seen by the task";
            break;
        }
        case K_THROW:
            fi = p.run([i, me, pl, arg]() -> int {
                begin_task b(i, me);
                *pl = arg;
                sim::count(sim::F_USER_THROW);
                throw oops(arg);
            });
            break;
        case K_THROW_INT:
            fv = p.run([i, me, pl, arg] {
                begin_task b(i, me);
                *pl = arg;
                sim::count(sim::F_USER_THROW);
                throw arg;
            });
            break;
        case K_UNIQUE:
            fu = p.run([i, me, pl, arg] {
                begin_task b(i, me);
                *pl = arg;
                return std::make_unique<int>(arg);
            });
            break;
        case K_REF:
            cell = std::make_unique<int>(arg);
            fv = p.run([i, me, pl](int& x) {
                begin_task b(i, me);
                *pl = x;
                x = x * 2 + 1; }, std::ref(*cell));
            break;
        case K_MEMBER:
            obj = std::make_unique<calc>(calc{arg});
            sim::add(RAN + id);
            if (arg & 1)
                fi = p.run(&calc::plus, obj.get(), 5, 6);
            else
                fi = p.run(&calc::minus, obj.get(), -11);
            break;
        case K_NESTED:
            ff = p.run([i, me, pl, arg, &p] {
                begin_task b(i, me);
                *pl = arg;
                return p.run([arg] { return arg * 3; });
            });
            break;
        case K_SLOW:
            fi = p.run([i, me, pl, arg] {
                begin_task b(i, me);
                sim::count(sim::F_USER_SLOW);
                *pl = 0;
                std::this_thread::sleep_for(std::chrono::microseconds(arg % 50 + 1));
                *pl = arg;
                return arg + 1;
            });
            break;
        case K_FUNC:
            sim::add(RAN + id);
            fi = p.run(free_function, arg, std::string("twelve chars"));
            break;
        case K_LREF:
            cell = std::make_unique<int>(arg);
            fr = p.run([i, me, pl, arg](int& x) -> int& {
                begin_task b(i, me);
                *pl = arg;
                return x; }, std::ref(*cell));
            break;
        case K_CSTR:
            fs = p.run([i, me, pl, arg](const char* s) {
                begin_task b(i, me);
                *pl = arg;
                return std::string(s) + "!"; }, "literal argument for the task");
            break;
        case K_MUTABLE:
            fi = p.run([i, me, pl, arg, n = 0]() mutable {
                begin_task b(i, me);
                *pl = arg;
                n += arg;
                return n;
            });
            break;
        case K_MANYARGS:
            fi = p.run([i, me, pl, arg](int x1, double x2, std::string x3, tracked x4, long x5) {
                begin_task b(i, me);
                *pl = arg;
                return x1 + (int)x2 + (int)x3.size() + x4.get() + (int)x5; }, arg, 2.5, std::string(40, 'x'), tracked(3), 4L);
            break;
        case K_VECTOR:
        {
            std::vector<int> v(20);
            std::iota(v.begin(), v.end(), arg);
            fvec = p.run([i, me, pl, arg](std::vector<int> w) {
                begin_task b(i, me);
                *pl = arg;
                w.push_back(-1);
                return w; }, v);
            break;
        }
        }
    }
    template <class F>
    static bool ready(F& f)
    {
        return !f.valid() || f.wait_for(0s) == std::future_status::ready;
    }
    bool is_ready() { return ready(fv) && ready(fi) && ready(fs) && ready(fu) && ready(fr) && ready(ff) && ready(fvec); }
    void wait()
    {
        if (fv.valid())
            fv.wait();
        if (fi.valid())
            fi.wait();
        if (fs.valid())
            fs.wait();
        if (fu.valid())
            fu.wait();
        if (fr.valid())
            fr.wait();
        if (ff.valid())
            ff.wait();
        if (fvec.valid())
            fvec.wait();
    }
    void want(bool ok, const char* what)
    {
        if (!ok)
            sim::fail("C04", "task %d (kind %d, argument %d): %s", id, k, a, what);
    }
    // true: the task ran and its result is right; false: broken promise
    bool redeem()
    {
        wait();
        bool ran = true;
        try
        {
            switch (k)
            {
            case K_VOID: fv.get(); break;
            case K_SUM: want(fi.get() == a + 7, "wrong result"); break;
            case K_STRING: want(fs.get() == "a string argument which is longer than the small buffer" + std::to_string(a), "wrong result"); break;
            case K_THROW:
                fi.get();
                want(false, "the exception of the task did not arrive");
                break;
            case K_THROW_INT:
                fv.get();
                want(false, "the exception of the task did not arrive");
                break;
            case K_UNIQUE: want(*fu.get() == a, "wrong result"); break;
            case K_REF:
                fv.get();
                want(*cell == a * 2 + 1, "the referenced argument was not the caller's object");
                break;
            case K_MEMBER: want(fi.get() == a + 11, "wrong result"); break;
            case K_NESTED:
            {
                std::future<int> inner = ff.get();
                want(inner.get() == a * 3, "wrong result of the nested task");
                break;
            }
            case K_SLOW: want(fi.get() == a + 1, "wrong result"); break;
            case K_FUNC: want(fi.get() == a * 10 + 12, "wrong result"); break;
            case K_LREF: want(&fr.get() == cell.get(), "the returned reference is not the caller's object"); break;
            case K_CSTR: want(fs.get() == "literal argument for the task!", "wrong result"); break;
            case K_MUTABLE: want(fi.get() == a, "wrong result"); break;
            case K_MANYARGS: want(fi.get() == a + 2 + 40 + 3 + 4, "wrong result"); break;
            case K_VECTOR:
            {
                auto v = fvec.get();
                want(v.size() == 21 && v[0] == a && v[19] == a + 19 && v[20] == -1, "wrong result");
                break;
            }
            }
        }
        catch (const oops& e)
        {
            want(k == K_THROW && e.id == a, "the wrong exception arrived");
        }
        catch (int e)
        {
            want(k == K_THROW_INT && e == a, "the wrong exception arrived");
        }
        catch (const std::future_error& e)
        {
            want(e.code() == std::future_errc::broken_promise, "unexpected future_error");
            ran = false;
        }
        if (ran)
        {
            want(sim::get(RAN + id) == 1, "its future became ready although it was not executed exactly once");
            if (k != K_MEMBER && k != K_FUNC)
                want(*plain == a, "the effects of the task are not visible after get()");
        }
        return ran;
    }
};

// ---- C04: exactly once, with result, exception and arguments --------------------------------------------------------
SCENARIO(pool_tasks, "pool.tasks")
{
    i64 arg;
    unsigned w = draw_threads(arg);
    (void)w;
    int nc = (int)sim::draw(1, 3);
    static const i64 counts[] = {1, 2, 3, 5, 9, 25};
    int per = (int)sim::one_of(counts);
    bool restart = sim::chance(1, 5);
    bool drop = sim::chance(1, 4);   // futures may be thrown away: the task runs nevertheless
    bool pre = sim::chance(1, 5);    // submitted before start
    std::vector<int> kinds;
    for (int i = 0; i < nc * per; i++)
        kinds.push_back((int)sim::draw(0, K_COUNT - 1));
    int pause = (int)sim::draw(0, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            thread_pool p;
            if (restart)
            {
                p.start((unsigned)arg);
                p.run([] {}).get();
                p.stop();
            }
            std::vector<ticket> before(pre ? 2 : 0);
            for (size_t i = 0; i < before.size(); i++)
                before[i].submit(p, 2000 + (int)i, K_SUM, 5);
            if (!p.start((unsigned)arg))
                sim::fail("C06", "start() of a pool that is not running returned false");
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    std::vector<ticket> mine(per);
                    for (int i = 0; i < per; i++)
                    {
                        mine[i].submit(p, t * per + i, kinds[t * per + i], 100 + i);
                        if (pause == 1)
                            mine[i].wait();
                        else if (pause == 2 && i % 3 == 2)
                            std::this_thread::sleep_for(10us);
                    }
                    for (int i = 0; i < per; i++)
                    {
                        if (drop && i % 2 == 0)
                        {
                            if (kinds[t * per + i] == K_VOID)
                            {
                                mine[i].fv = {};  // discarding the future neither blocks nor cancels
                                while (!sim::get(RAN + t * per + i))
                                    std::this_thread::sleep_for(5us);
                                mine[i].plain.release();
                                continue;
                            }
                        }
                        if (!mine[i].redeem())
                            sim::fail("C04", "the promise of task %d was broken although the pool kept running", mine[i].id);
                    }
                });
            c.join();
            for (auto& t : before)
                if (!t.redeem())
                    sim::fail("C04", "the promise of a task submitted before start() was broken although the pool was started");
            for (int i = 0; i < nc * per; i++)
                if (sim::get(RAN + i) != 1)
                    sim::fail("C04", "task %d was executed %lld times", i, (long long)sim::get(RAN + i));
            p.stop();
            for (int i = 0; i < nc * per; i++)
                if (sim::get(RAN + i) != 1)
                    sim::fail("C04", "task %d was executed %lld times", i, (long long)sim::get(RAN + i));
        }
        if (tracked::live())
            sim::fail("C30", "%lld values captured by pool tasks were never released", (long long)tracked::live());
        if (!drop && sim::leaked(blocks))
            sim::fail("C30", "%lld heap blocks leaked by a pool that ran all its tasks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C05: parallelism -------------------------------------------------------------------------------------------------
SCENARIO(pool_rendezvous, "pool.rendezvous")
{
    i64 arg;
    unsigned w = draw_threads(arg);
    int rounds = (int)sim::draw(1, 3);
    bool restart = sim::chance(1, 3);
    int extra = (int)sim::draw(0, 12);
    int from = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::enable(sim::F_EINTR, 1, 3);
    if (w > 1)
        sim::nontrivial();
    enum { IN = 1, MAX = 2 };
    sim::run([&] {
        thread_pool p;
        if (restart)
        {
            p.start(2);
            p.stop();
        }
        int before = sim::threads_alive();
        p.start((unsigned)arg);
        if (p.threads_count() != w)
            sim::fail("C05", "start(%lld) with %d hardware threads: threads_count() is %zu, expected %u", (long long)arg, sim::hw(), p.threads_count(), w);
        if (sim::threads_alive() - before != (int)w)
            sim::fail("C05", "start(%lld) with %d hardware threads created %d threads, expected %u", (long long)arg, sim::hw(), sim::threads_alive() - before, w);
        for (int r = 0; r < rounds; r++)
        {
            // as many tasks as workers, each of which needs all the others to be running
            std::barrier<> meet((ptrdiff_t)w);
            std::vector<std::future<void>> f(w);
            clients c;
            int nf = from < (int)w ? from : (int)w;
            for (int k = 0; k < nf; k++)
                c.go([&, k] {
                    for (unsigned i = k; i < w; i += nf)
                        f[i] = p.run([&] {
                            i64 n = sim::add(IN);
                            if (n > sim::get(MAX))
                                sim::set(MAX, n);
                            meet.arrive_and_wait();
                            meet.arrive_and_wait();
                            sim::add(IN, -1);
                        });
                });
            c.join();
            sim::wait_idle();
            for (auto& x : f)
                if (x.wait_for(0s) != std::future_status::ready)
                    sim::fail("C05", "%u tasks that need each other are stuck on a pool of %u workers (%lld are running)", w, w, (long long)sim::get(IN));
            for (auto& x : f)
                x.get();
        }
        // more tasks than workers: never more of them at once than there are workers
        std::vector<std::future<void>> f;
        for (int i = 0; i < extra + (int)w; i++)
            f.push_back(p.run([&] {
                i64 n = sim::add(IN);
                if (n > (i64)w)
                    sim::fail("C05", "%lld tasks run at once on a pool of %u workers", (long long)n, w);
                std::this_thread::sleep_for(3us);
                sim::add(IN, -1);
            }));
        for (auto& x : f)
            x.get();
        p.stop();
        if (p.threads_count() != 0)
            sim::fail("C05", "threads_count() is %zu after stop()", p.threads_count());
    });
}
// some workers are held, the others must get everything else done; nothing may stay queued next to an idle worker
SCENARIO(pool_stranded, "pool.stranded")
{
    static const i64 ws[] = {2, 3, 4, 8};
    int w = (int)sim::one_of(ws);
    int held = (int)sim::draw(0, w - 1);
    static const i64 ns[] = {1, 2, 4, 10, 30, 120};
    int n = (int)sim::one_of(ns);
    int nc = (int)sim::draw(1, 4);
    int gap = (int)sim::draw(0, 3);
    bool wave = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 4);
    sim::enable(sim::F_WAKE_ORDER, 1, 2);
    sim::nontrivial();
    enum { DONE = 1, HELD = 2, SEEN = 50 };
    sim::run([&] {
        thread_pool p;
        p.start(w);
        std::latch gate(1);
        std::vector<std::future<void>> blockers;
        for (int i = 0; i < held; i++)
            blockers.push_back(p.run([&] {
                sim::add(HELD);
                gate.wait();
            }));
        for (int round = 0; round < (wave ? 2 : 1); round++)
        {
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (int i = t; i < n; i += nc)
                    {
                        p.run([&] { sim::add(DONE); });
                        if (gap == 1)
                            std::this_thread::yield();
                        else if (gap == 2)
                            std::this_thread::sleep_for(std::chrono::microseconds(i % 3));
                    }
                });
            c.join();
            sim::wait_idle();
            if (sim::get(HELD) != held)
                sim::fail("C05", "%lld of %d tasks were started although %d workers are idle", (long long)sim::get(HELD), held, w - (int)sim::get(HELD));
            if (sim::get(DONE) != (i64)n * (round + 1))
                sim::fail("C05", "%lld of %d tasks were done and nothing will run any more, with %d of %d workers free", (long long)sim::get(DONE), n * (round + 1), w - held, w);
        }
        gate.count_down();
        for (auto& b : blockers)
            b.get();
        p.stop();
    });
}
// one worker: first in, first out
SCENARIO(pool_fifo, "pool.fifo")
{
    sim::cfg.hw_threads = (int)sim::one_of(hw_args);
    int nthreads = sim::cfg.hw_threads <= 1 ? (int)sim::draw(0, 6) : (int)sim::draw(0, 1);
    int nc = (int)sim::draw(1, 3);
    static const i64 ns[] = {2, 3, 6, 20, 60};
    int n = (int)sim::one_of(ns);
    bool pre = sim::chance(1, 4);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    enum { LAST = 10, BUSY = 1 };
    sim::run([&] {
        thread_pool p;
        if (!pre)
            p.start(nthreads);
        clients c;
        for (int t = 0; t < nc; t++)
            sim::set(LAST + t, -1);
        std::vector<std::vector<std::future<void>>> f(nc);
        for (int t = 0; t < nc; t++)
            c.go([&, t] {
                for (int i = 0; i < n; i++)
                    f[t].push_back(p.run([t, i] {
                        if (sim::add(BUSY) != 1)
                            sim::fail("C05", "two tasks run at once on a pool with one worker");
                        if (sim::get(LAST + t) != i - 1)
                            sim::fail("C05", "one worker: task %d of a thread ran after its task %lld", i, (long long)sim::get(LAST + t));
                        sim::set(LAST + t, i);
                        sim::point();
                        sim::add(BUSY, -1);
                    }));
            });
        c.join();
        if (pre)
            p.start(nthreads);
        for (auto& v : f)
            for (auto& x : v)
                x.get();
        p.stop();
    });
}

// many tasks waiting at once, finished by few workers
SCENARIO(pool_backlog, "pool.backlog")
{
    i64 arg;
    unsigned workers = draw_threads(arg);
    int n = draw_amount(), nc = (int)sim::draw(1, 3), rounds = n > 300 ? 1 : (int)sim::draw(1, 3);
    bool held = sim::chance(2, 3), pre = sim::chance(1, 4);
    bool abandon = sim::chance(1, 4);  // stop() with all of them waiting
    sim::swarm_schedule_faults();
    sim::nontrivial();
    enum { RAN = 1, LAST = 10, WRONG = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            thread_pool p;
            for (int r = 0; r < rounds; r++)
            {
                for (int i = 0; i < 16; i++)
                    sim::set(i, i >= LAST ? -1 : 0);
                if (!pre)
                    p.start((unsigned)arg);
                std::atomic_bool go{!held};
                std::vector<std::future<void>> blockers;
                if (held && !pre)
                    for (unsigned w = 0; w < workers; w++)
                        blockers.push_back(p.run([&go] { go.wait(false); }));
                std::vector<std::vector<std::future<int>>> f(nc);
                clients c;
                for (int t = 0; t < nc; t++)
                    c.go([&, t] {
                        for (int i = t; i < n; i += nc)
                            f[t].push_back(p.run([t, i, workers](int x) {
                                sim::add(RAN);
                                if (workers == 1)
                                {
                                    if (sim::get(LAST + t) >= i)
                                        sim::fail("C05", "one worker: task %d ran after task %lld of the same thread", i, (long long)sim::get(LAST + t));
                                    sim::set(LAST + t, i);
                                }
                                return x * 3; }, i));
                    });
                c.join();
                if (abandon && held && !pre && r == rounds - 1)
                {
                    std::thread opener([&] {
                        std::this_thread::sleep_for(1ms);
                        go = true;
                        go.notify_all();
                    });
                    p.stop();
                    opener.join();
                    i64 ran = sim::get(RAN), broken = 0, ok = 0;
                    for (auto& v : f)
                        for (auto& x : v)
                        {
                            if (x.wait_for(0s) != std::future_status::ready)
                                sim::fail("C06", "a task's future is not ready after stop()");
                            try
                            {
                                x.get();
                                ok++;
                            }
                            catch (const std::future_error&)
                            {
                                broken++;
                            }
                        }
                    if (ran != ok || ok + broken != n)
                        sim::fail("C06", "%d tasks: %lld ran, %lld yield a result and %lld report a broken promise after stop()", n, (long long)ran, (long long)ok, (long long)broken);
                    break;
                }
                if (pre)
                    p.start((unsigned)arg);
                go = true;
                go.notify_all();
                for (int t = 0; t < nc; t++)
                    for (size_t k = 0; k < f[t].size(); k++)
                    {
                        int i = t + (int)k * nc, got = -1;
                        try
                        {
                            got = f[t][k].get();
                        }
                        catch (const std::future_error&)
                        {
                            sim::fail("C04", "task %d of %d was dropped", i, n);
                        }
                        if (got != i * 3)
                            sim::fail("C04", "task %d of %d returned %d", i, n, got);
                    }
                for (auto& b : blockers)
                    b.get();
                if (sim::get(RAN) != n)
                    sim::fail("C04", "%lld executions of %d tasks", (long long)sim::get(RAN), n);
                p.stop();
                if (p.threads_count() != 0 || p.is_running())
                    sim::fail("C06", "a stopped pool reports %zu threads", p.threads_count());
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "a destroyed pool leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C06: start and stop -----------------------------------------------------------------------------------------------
enum { START = 1, STOP, RUNNING, SUBMIT, COUNT };
struct onoff
{
    int32_t on;
};
std::string lifename(const op& o)
{
    static const char* const n[] = {"?", "start", "stop", "is_running", "run", "threads_count"};
    return n[o.kind];
}
SCENARIO(pool_lifecycle, "pool.lifecycle")
{
    int nc = (int)sim::draw(1, 3);
    sim::cfg.hw_threads = (int)sim::draw(1, 4);
    std::vector<std::vector<int>> sc(nc);
    for (int t = 0; t < nc; t++)
    {
        int n = (int)sim::draw(2, 5);
        for (int i = 0; i < n; i++)
        {
            static const i64 k[] = {SUBMIT, START, STOP, SUBMIT, RUNNING, COUNT};
            sc[t].push_back((int)sim::one_of(k));
        }
    }
    bool started = sim::chance(2, 3);
    bool slow = sim::chance(1, 3);
    int nth = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            std::vector<std::future<int>> fut[4];
            std::vector<int> fid[4];
            auto pp = std::make_unique<thread_pool>();
            thread_pool& p = *pp;
            // for the quiescence check: number of tasks running now, and stop counter
            enum { BUSY = 1, NEXT = 2, STATE = 3000 };  // STATE+id: 0 queued, 1 started, 2 finished
            auto submit = [&](int t) {
                int id = (int)sim::add(NEXT);
                int o = sim::op_begin(SUBMIT, id);
                tracked cap(id);
                fut[t].push_back(p.run([id, cap, slow] {
                    if (sim::add(STATE + id, 1) != 1)
                        sim::fail("C06", "task %d was executed twice", id);
                    sim::ev(100, id);
                    if (slow)
                        std::this_thread::sleep_for(5us);
                    cap.get();
                    sim::ev(101, id);
                    sim::add(STATE + id, 1);
                    return id;
                }));
                fid[t].push_back(id);
                sim::op_end(o, id);
            };
            auto stop = [&] {
                int o = sim::op_begin(STOP);
                bool r = p.stop();
                sim::op_end(o, r);
            };
            auto start = [&](int n) {
                int o = sim::op_begin(START);
                bool r = p.start(n);
                sim::op_end(o, r);
            };
            if (started)
                start(nth);
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (int k : sc[t])
                        switch (k)
                        {
                        case SUBMIT: submit(t); break;
                        case START: start(nth); break;
                        case STOP: stop(); break;
                        case RUNNING:
                        {
                            int o = sim::op_begin(RUNNING);
                            sim::op_end(o, p.is_running());
                            break;
                        }
                        case COUNT:
                        {
                            // any thread may ask at any time
                            size_t w = p.threads_count();
                            if (w > (size_t)std::min(nth, sim::hw()))
                                sim::fail("C05", "threads_count() is %zu in a pool started with %d threads on %d hardware threads", w, nth, sim::hw());
                            break;
                        }
                        }
                });
            c.join();
            // sequential epilogue: stop discards what was queued, restart serves what comes afterwards
            bool was = p.is_running();
            {
                int o = sim::op_begin(STOP);
                bool r = p.stop();
                sim::op_end(o, r);
                if (r != was)
                    sim::fail("C06", "is_running() returned %d but stop() returned %d", was, r);
            }
            if (p.is_running())
                sim::fail("C06", "is_running() after stop()");
            start(nth);
            if (!p.is_running())
                sim::fail("C06", "not is_running() after start()");
            submit(0);
            if (fut[0].back().get() != fid[0].back())
                sim::fail("C06", "wrong result after a restart");
            bool by_dtor = sim::fault_value(2) != 0;
            for (int i = 0; i < 3; i++)
                submit(0);
            int o = sim::op_begin(STOP);
            if (by_dtor)
            {
                pp.reset();
                sim::op_end(o, true);
            }
            else
            {
                bool r = p.stop();
                sim::op_end(o, r);
                if (!r)
                    sim::fail("C06", "stop() of a running pool returned false");
                pp.reset();
            }
            sim::ev(102);
            // every future is ready now: executed, or broken promise; never both
            for (int t = 0; t < nc || t < 1; t++)
                for (size_t i = 0; i < fut[t].size(); i++)
                {
                    int id = fid[t][i];
                    auto& f = fut[t][i];
                    i64 st = sim::get(STATE + id);
                    if (!f.valid())
                        continue;
                    if (f.wait_for(0s) != std::future_status::ready)
                        sim::fail("C06", "the future of task %d is still not ready after the pool was destroyed (task %s)", id, st == 0 ? "never started" : "started");
                    bool broken = false;
                    try
                    {
                        if (f.get() != id)
                            sim::fail("C06", "task %d delivered the result of another task", id);
                    }
                    catch (const std::future_error& e)
                    {
                        if (e.code() != std::future_errc::broken_promise)
                            sim::fail("C06", "task %d: unexpected future_error", id);
                        broken = true;
                    }
                    if (broken && st != 0)
                        sim::fail("C06", "task %d was executed and its promise broken", id);
                    if (!broken && st != 2)
                        sim::fail("C06", "task %d has a result but was not executed", id);
                }
            if (tracked::live())
                sim::fail("C30", "%lld values captured by discarded or executed pool tasks were never released", (long long)tracked::live());
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "%lld heap blocks leaked by start/stop of a pool", (long long)(sim::live_blocks() - blocks));
    });
    // start and stop take effect in some order that explains their results
    const op* ops = sim::ops();
    int n = sim::op_count();
    static op life[64];
    int m = 0, stops = 0;
    for (int i = 0; i < n && m < 60; i++)
        if (ops[i].kind != SUBMIT)
        {
            life[m++] = ops[i];
            stops += ops[i].kind == STOP;
        }
    if (overlapping(ops, n))
        sim::nontrivial();
    onoff s0;
    memset(&s0, 0, sizeof s0);
    if (!linearizable(life, m, s0, [](onoff& s, const op& o, bool) {
            if (o.kind == RUNNING)
                return (o.res != 0) == (s.on != 0);
            bool want = o.kind == START;
            if (!o.res)
                return (s.on != 0) == want;
            if ((s.on != 0) == want)
                return false;
            s.on = want;
            return true;
        }))
        sim::fail("C06", "the results of start, stop and is_running have no explanation as a running flag:%s", history(life, m, lifename).c_str());
    // quiescence: after a stop() that returned true, until a start() is invoked that succeeds, no task runs;
    // a task whose run() returned before that stop() was invoked does not run after it returned.
    const sim::event* ev = sim::events();
    for (int i = 0; i < n; i++)
    {
        if (ops[i].kind != STOP || !ops[i].res)
            continue;
        uint64_t next_start = ~0ull;
        for (int j = 0; j < n; j++)
            if (ops[j].kind == START && ops[j].res && ops[j].ret > ops[i].inv && ops[j].inv < next_start)
                next_start = ops[j].inv;
        for (size_t k = 0; k < sim::event_count(); k++)
        {
            if (ev[k].kind != 100 && ev[k].kind != 101)
                continue;
            if (ev[k].seq > ops[i].ret && ev[k].seq < next_start)
                sim::fail("C06", "task %lld was still running after stop() had returned", (long long)ev[k].a);
            if (ev[k].seq > ops[i].ret)
                for (int j = 0; j < n; j++)
                    if (ops[j].kind == SUBMIT && ops[j].a == ev[k].a && ops[j].ret < ops[i].inv)
                        sim::fail("C06", "task %lld was submitted before stop() and still %s after it had returned", (long long)ev[k].a, ev[k].kind == 100 ? "started" : "ran");
        }
    }
}
// tasks held by a pool that is not running: executed after start, or their promises broken at destruction
SCENARIO(pool_held, "pool.held")
{
    int n = (int)sim::draw(1, 6);
    bool start = sim::chance(1, 2);
    bool again = sim::chance(1, 3);
    int nth = (int)sim::draw(1, 3);
    int nc = (int)sim::draw(1, 2);
    sim::swarm_schedule_faults();
    sim::nontrivial();
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            std::vector<ticket> t(n);
            {
                thread_pool p;
                if (again)
                {
                    p.start(nth);
                    p.stop();
                }
                clients c;
                for (int k = 0; k < nc; k++)
                    c.go([&, k] {
                        for (int i = k; i < n; i += nc)
                            t[i].submit(p, i, i % 2 ? K_SUM : K_MANYARGS, i);
                    });
                c.join();
                sim::wait_idle();
                for (int i = 0; i < n; i++)
                    if (sim::get(RAN + i))
                        sim::fail("C06", "a task ran on a pool that was not started");
                if (start)
                {
                    p.start(nth);
                    for (auto& x : t)
                        if (!x.redeem())
                            sim::fail("C06", "a task held by a stopped pool was lost by start()");
                }
            }
            if (!start)
                for (auto& x : t)
                {
                    if (!x.is_ready())
                        sim::fail("C06", "a pool was destroyed with a task in its queue and the future of that task is still not ready");
                    if (x.redeem())
                        sim::fail("C06", "a task ran on a pool that was never started");
                }
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "leak after destroying a pool with held tasks: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// stop while tasks are running and queued: waits for those running, discards the rest, promptly
SCENARIO(pool_stop, "pool.stop")
{
    int w = (int)sim::draw(1, 3);
    int n = (int)sim::draw(1, 10);
    int rounds = (int)sim::draw(1, 3);
    bool dtor = sim::chance(1, 3);
    bool gated = sim::chance(1, 2);
    i64 dur = sim::draw(0, 20);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    enum { STARTED = 1, FINISHED = 2 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            auto p = std::make_unique<thread_pool>();
            for (int r = 0; r < rounds; r++)
            {
                sim::set(STARTED, 0);
                sim::set(FINISHED, 0);
                if (!p->start(w))
                    sim::fail("C06", "start() returned false on a stopped pool");
                std::vector<std::future<int>> f;
                std::latch gate(gated ? 1 : 0);
                for (int i = 0; i < n; i++)
                    f.push_back(p->run([&, i, c = tracked(i)] {
                        sim::add(STARTED);
                        if (gated)
                            gate.wait();
                        else if (dur)
                            std::this_thread::sleep_for(std::chrono::microseconds(dur));
                        c.get();
                        sim::add(FINISHED);
                        return i;
                    }));
                clients c;
                if (gated)
                    c.go([&] {
                        std::this_thread::sleep_for(5us);
                        gate.count_down();
                    });
                if (dtor && r + 1 == rounds)
                    p.reset();
                else if (!p->stop())
                    sim::fail("C06", "stop() returned false on a running pool");
                if (sim::get(STARTED) != sim::get(FINISHED))
                    sim::fail("C06", "stop() returned while %lld tasks were still running", (long long)(sim::get(STARTED) - sim::get(FINISHED)));
                i64 ran = 0;
                for (int i = 0; i < n; i++)
                {
                    if (f[i].wait_for(0s) != std::future_status::ready)
                        sim::fail("C06", "the future of a discarded task is not ready after stop()");
                    try
                    {
                        if (f[i].get() != i)
                            sim::fail("C06", "wrong result of task %d", i);
                        ran++;
                    }
                    catch (const std::future_error& e)
                    {
                        if (e.code() != std::future_errc::broken_promise)
                            sim::fail("C06", "unexpected future_error");
                    }
                }
                if (ran != sim::get(FINISHED))
                    sim::fail("C06", "%lld tasks were executed but %lld results arrived", (long long)sim::get(FINISHED), (long long)ran);
                if (tracked::live())
                    sim::fail("C30", "%lld values captured by pool tasks outlive stop()", (long long)tracked::live());
                c.join();
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "%lld heap blocks leaked by stop() with queued tasks", (long long)(sim::live_blocks() - blocks));
    });
}

// ---- C07: a start that fails leaves the pool usable ----------------------------------------------------------------------
SCENARIO(pool_create, "pool.createfail")
{
    i64 arg;
    unsigned w = draw_threads(arg);
    int tries = (int)sim::draw(1, 4);
    bool held = sim::chance(1, 3);
    bool alloc = sim::chance(1, 3);
    bool dtor = sim::chance(1, 4);
    sim::swarm_schedule_faults();
    static const i64 rates[] = {2, 3, 5, 9};
    sim::cfg.rate[sim::F_CREATE_FAIL] = (int)sim::one_of(rates);
    if (alloc)
        sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::one_of(rates);
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            thread_pool p;
            std::future<int> h;
            if (held)
                h = p.run([] { return 77; });
            bool running = false;
            for (int i = 0; i < tries; i++)
            {
                int before = sim::threads_alive();
                bool threw = false, r = false;
                sim::set_create_faults(true);
                sim::set_alloc_faults(alloc);
                try
                {
                    r = p.start((unsigned)arg);
                }
                catch (const std::system_error&)
                {
                    threw = true;
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                }
                sim::set_alloc_faults(false);
                sim::set_create_faults(false);
                if (threw)
                {
                    sim::nontrivial();
                    if (p.is_running())
                        sim::fail("C07", "start() threw because a thread could not be created, and the pool says it is running");
                    if (sim::threads_alive() != before)
                        sim::fail("C07", "start() threw and left %d worker threads behind", sim::threads_alive() - before);
                    if (p.stop())
                        sim::fail("C07", "start() threw, then stop() claims to have stopped the pool");
                }
                else
                {
                    if (!r)
                        sim::fail("C07", "start() returned false on a pool that is not running");
                    running = true;
                    if (sim::threads_alive() - before != (int)w)
                        sim::fail("C07", "start() reported success with %d workers, expected %u", sim::threads_alive() - before, w);
                    break;
                }
            }
            if (dtor && !running)
                return;
            if (!running && !p.start((unsigned)arg))
                sim::fail("C07", "start() after a failed start() returned false");
            if (p.threads_count() != w)
                sim::fail("C07", "%zu workers after a failed and a successful start(), expected %u", p.threads_count(), w);
            // all workers serve
            std::barrier<> meet((ptrdiff_t)w);
            std::vector<std::future<int>> f;
            for (unsigned i = 0; i < w; i++)
                f.push_back(p.run([&, i] {
                    meet.arrive_and_wait();
                    return (int)i;
                }));
            sim::wait_idle();
            for (unsigned i = 0; i < w; i++)
            {
                if (f[i].wait_for(0s) != std::future_status::ready)
                    sim::fail("C07", "the pool does not work with %u workers after a failed start()", w);
                if (f[i].get() != (int)i)
                    sim::fail("C07", "wrong result after a failed start()");
            }
            if (held && h.get() != 77)
                sim::fail("C07", "a held task was lost by a failed start()");
            if (!p.stop())
                sim::fail("C07", "stop() returned false");
        }
        if (sim::leaked(blocks))
            sim::fail("C30", "%lld heap blocks leaked by a failed start() of a pool", (long long)(sim::live_blocks() - blocks));
    });
}
// submission fails for lack of memory: nothing is queued, the pool goes on
SCENARIO(pool_allocfail, "pool.allocfail")
{
    int w = (int)sim::draw(1, 3), nc = (int)sim::draw(1, 2), n = (int)sim::draw(2, 8);
    sim::swarm_schedule_faults();
    static const i64 rates[] = {4, 8, 20};
    sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::one_of(rates);
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            thread_pool p;
            p.start(w);
            clients c;
            for (int t = 0; t < nc; t++)
                c.go([&, t] {
                    for (int i = 0; i < n; i++)
                    {
                        int id = t * 100 + i;
                        std::future<int> f;
                        tracked cap(id);
                        bool threw = false;
                        sim::set_alloc_faults(true, true);  // breaking a promise when an allocation failed needs another one
                        try
                        {
                            f = p.run([id](const tracked& x) {
                                sim::add(RAN + id);
                                return x.get(); }, cap);
                        }
                        catch (const std::bad_alloc&)
                        {
                            threw = true;
                        }
                        sim::set_alloc_faults(false);
                        if (threw)
                            sim::nontrivial();
                        else if (f.get() != id)
                            sim::fail("C04", "wrong result of task %d", id);
                        if (threw)
                            sim::set(RAN + 500 + id, 1);
                    }
                });
            c.join();
            p.run([] {}).get();
            p.stop();
            for (int t = 0; t < nc; t++)
                for (int i = 0; i < n; i++)
                {
                    int id = t * 100 + i;
                    i64 want = sim::get(RAN + 500 + id) ? 0 : 1;
                    if (sim::get(RAN + id) != want)
                        sim::fail("C04", "task %d, whose submission %s, was executed %lld times", id, want ? "succeeded" : "failed for lack of memory", (long long)sim::get(RAN + id));
                }
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "leak after submissions that failed for lack of memory: %lld values, %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
// tasks that use the pool they run on
SCENARIO(pool_reentrant, "pool.reentrant")
{
    int w = (int)sim::draw(1, 4), depth = (int)sim::draw(1, 4), fan = (int)sim::draw(1, 3), roots = (int)sim::draw(1, 3);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    enum { N = 1, BAD = 2 };
    sim::run([&] {
        thread_pool p;
        p.start(w);
        std::function<void(int)> grow = [&](int d) {
            sim::add(N);
            if (!p.is_running() || p.start(3))
                sim::fail("C32", "a task sees its pool as not running");
            if (d > 0)
                for (int i = 0; i < fan; i++)
                    p.run(grow, d - 1);
        };
        for (int i = 0; i < roots; i++)
            p.run(grow, depth);
        i64 expect = 0, level = 1;
        for (int i = 0; i <= depth; i++, level *= fan)
            expect += level;
        expect *= roots;
        sim::wait_idle();
        if (sim::get(N) != expect)
            sim::fail("C32", "tasks that submit tasks: %lld of %lld were executed and nothing will run any more", (long long)sim::get(N), (long long)expect);
        p.stop();
    });
}
// tasks that query their pool and submit to it while it is being stopped
SCENARIO(pool_busystop, "pool.busystop")
{
    int w = (int)sim::draw(1, 3), tasks = (int)sim::draw(1, 4), rounds = (int)sim::draw(1, 2), spin = (int)sim::draw(0, 3);
    bool destroy = sim::chance(1, 3), waits = sim::chance(1, 2);
    sim::swarm_schedule_faults();
    sim::enable(sim::F_THREAD_STALL, 1, 6);
    sim::nontrivial();
    enum { BUSY = 1, STOPPED = 2, STARTED = 3 };
    sim::run([&] {
        size_t blocks = sim::live_blocks();
        {
            std::vector<std::future<int>> f[2];
            {
                thread_pool p;
                for (int r = 0; r < rounds; r++)
                {
                    sim::set(STOPPED, 0);
                    sim::set(STARTED, 0);
                    p.start(w);
                    auto body = [&, t = tracked(r)] {
                        if (sim::get(STOPPED))
                            sim::fail("C06", "a task was started after stop() had returned");
                        sim::add(BUSY);
                        sim::add(STARTED);
                        size_t workers = p.threads_count();
                        for (int i = 0; waits ? p.is_running() : i < spin; i++)
                        {
                            if (!p.is_running() && waits && i == 0)
                                break;
                            if (p.threads_count() != workers)
                                sim::fail("C05", "threads_count() is %zu instead of %zu", p.threads_count(), workers);
                            if (i < 3)
                                p.run([t = tracked(9)] { t.get(); });
                            std::this_thread::sleep_for(2us);
                        }
                        sim::add(BUSY, -1);
                        return t.get();
                    };
                    for (int i = 0; i < tasks; i++)
                        f[r].push_back(p.run(body));
                    while (!sim::get(STARTED))
                        std::this_thread::sleep_for(1us);
                    if (destroy && r == rounds - 1)
                        break;
                    if (!p.stop())
                        sim::fail("C06", "stop() returned false on a running pool");
                    sim::set(STOPPED, 1);
                    if (sim::get(BUSY))
                        sim::fail("C06", "stop() returned while a task was running");
                    if (p.is_running())
                        sim::fail("C06", "a stopped pool is running");
                    for (auto& x : f[r])
                        if (x.wait_for(0s) != std::future_status::ready)
                            sim::fail("C06", "a task submitted before stop() is neither done nor abandoned");
                }
            }
            if (sim::get(BUSY))
                sim::fail("C06", "the pool was destroyed while a task was running");
            for (int r = 0; r < rounds; r++)
                for (auto& x : f[r])
                {
                    if (x.wait_for(0s) != std::future_status::ready)
                        sim::fail("C06", "a task of a destroyed pool is neither done nor abandoned");
                    try
                    {
                        if (x.get() != r)
                            sim::fail("C04", "wrong result");
                    }
                    catch (const std::future_error&)
                    {
                    }
                }
        }
        if (tracked::live() || sim::leaked(blocks))
            sim::fail("C30", "a destroyed pool leaks %lld captured values and %lld blocks", (long long)tracked::live(), (long long)(sim::live_blocks() - blocks));
    });
}
}

// Public interface of the deterministic simulator: used by the scenarios.
// Everything a scenario does between body start and body end runs on simulated threads.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
// ---- fault kinds (index into counters) -------------------------------------------------------
enum fault : int
{
    F_PREEMPT_SYNC = 0,  // preemption at a synchronisation point
    F_PREEMPT_MEM,       // preemption between two memory accesses
    F_SPURIOUS_CV,       // condition variable wakes without notification
    F_SPURIOUS_FUTEX,    // futex wait returns without wake
    F_EINTR,             // sleep / futex / semaphore wait interrupted by a signal
    F_THREAD_STALL,      // one thread is not scheduled for a while
    F_PROCESS_PAUSE,     // the whole process is paused: the clock moves on, nobody runs
    F_TIMER_LATE,        // timed wait / sleep ends later than its deadline
    F_WALL_JUMP,         // the wall clock is stepped forwards or backwards
    F_COARSE_CLOCK,      // run with a clock of coarse granularity
    F_ALLOC_FAIL,        // operator new throws bad_alloc
    F_CREATE_FAIL,       // pthread_create fails with EAGAIN
    F_SIGNAL,            // a signal is delivered at an arbitrary point
    F_RDEV_FAIL,         // std::random_device fails
    F_RDEV_REPEAT,       // std::random_device returns a value it has returned before
    F_WAKE_ORDER,        // a signalled condition variable / futex wakes another than the longest waiter
    F_SMALL_HOST,        // hardware_concurrency below the number of requested threads (or unknown)
    F_USER_THROW,        // user code (task, callback, copy constructor) throws
    F_USER_SLOW,         // user code (task, callback) takes long
    F_OUTPUT_FAIL,       // what is written to (file, pipe, disk) is full or broken
    F_COUNT
};
extern const char* const fault_names[F_COUNT];

// ---- plan: the generated program. Every draw is recorded, replayed and shrunk towards lo -------
int64_t draw(int64_t lo, int64_t hi);                  // uniform in [lo,hi]
bool chance(int num, int den);                         // true with probability num/den (shrinks to false)
int64_t one_of(const int64_t* v, int n);               // uniform element, shrinks to the first
template <size_t N>
int64_t one_of(const int64_t (&v)[N]) { return one_of(v, (int)N); }
uint64_t fresh_seed();                                 // a seed for data whose value is not shrunk

// ---- configuration of the run (call before run()) ---------------------------------------------
struct config
{
    // probability denominators per decision point; 0 = never. Set through enable().
    int rate[F_COUNT] = {};
    int64_t stall_max = 20'000'000;    // longest thread stall / pause / timer latency (ns)
    int64_t wall_jump_max = 7200'000'000'000LL;
    int64_t clock_granularity = 0;     // 0 = 1 ns clock
    int64_t clock_tick = 1;            // ns consumed by each clock read
    int64_t step_cost = 0;             // ns consumed by each synchronisation operation
    int hw_threads = 8;                // what hardware_concurrency reports (0 = unknown)
    int64_t wall_start = 1'700'000'000'000'000'000LL;
    int patience = 10;                 // how much longer than a spinning thread one may go on that frees memory now and then
    int max_faults = 1500;              // total of injected faults (not counting preemptions)
    int64_t step_cap = 40'000'000;     // basic blocks before a run counts as a livelock
    int64_t time_cap = 0;              // simulated ns before a run counts as a livelock (0 = off)
    bool leak_is_violation = true;     // threads left over at the end of the body
};
extern config cfg;
// enable fault kind in this run with probability num/den, with a random rate out of {1/3 .. 1/200}
bool enable(fault f, int num, int den);
// common ones
void swarm_schedule_faults();                          // spurious wakeups, EINTR, wake order
void swarm_time_faults(int64_t scale_ns);              // stalls, pauses, late timers, coarse clock

// ---- running ----------------------------------------------------------------------------------
void run(void (*body)(void*), void* arg);
template <class F>
void run(F&& f)
{
    auto* pf = &f;
    run([](void* p) { (*static_cast<decltype(pf)>(p))(); }, (void*)pf);
}

// ---- inside the simulation ---------------------------------------------------------------------
int64_t now();                  // monotonic ns, no side effect
int64_t wall();                 // wall clock ns, no side effect
int64_t busy();                 // ns of simulated time so far that passed other than by all threads waiting
int64_t injected();             // ns of delay injected so far
int64_t total_slack();          // busy+injected
uint64_t seq();                 // next global event number
int64_t points();               // synchronisation operations so far, of all threads
int self();                     // simulated thread id
void wait_idle();               // block until no other thread can run (timers may be pending)
bool fault_now(fault f);        // scenario-level fault decision at this point
int64_t fault_value(int64_t n); // a value in [0,n) accompanying a fault (0 = default)
void point();                   // an explicit scheduling point
void set_alloc_faults(bool on, bool only_one = false); // allocation faults for the calling thread (only_one: until one has happened)
void set_create_faults(bool on);// thread creation faults (global)
void no_faults(bool off);       // true: stop injecting (global) - faults stop, progress must follow
void work(int64_t ns);          // the calling thread computes for ns of simulated time (clock advances)
void deliver_signal(int sig);   // run the installed handler on the calling thread, now
void arm_signals(const int* sigs, int n, int count); // they arrive at arbitrary points (rate of F_SIGNAL)
int signals_left();
int signals_handled(int sig);     // how often the installed handler of the signal was run
bool signal_installed(int sig);
void set_wall_jump(int64_t delta); // step the wall clock now
int64_t wall_jumps();           // number of steps so far
int64_t last_read_wall();       // wall clock value handed out by the last realtime read
int64_t wall_reads();           // number of realtime reads so far
size_t live_blocks();           // live heap blocks allocated since the body started; a base for leaked()
bool leaked(size_t base);       // blocks are left that were allocated since that live_blocks(), and static data does not own them
void set_env(const char* name, const char* value); // what getenv() returns in this run; the strings must outlive it
int threads_alive();            // simulated threads not finished (including caller)
int threads_created();
int blocked_threads();          // number of threads blocked now
void count(fault f);            // account for a fault the scenario itself injected
int64_t fault_fired(fault f);
int hw();                       // configured hardware concurrency

struct event
{
    uint64_t seq;
    int64_t t;
    int tid;
    int kind;
    int64_t a, b, c;
};
uint64_t ev(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
const event* events();
size_t event_count();

// History of operations, for linearizability checks; ret == 0: still pending.
struct op
{
    uint64_t inv, ret;
    int64_t t0, t1;
    int tid;
    int kind;
    int64_t a, b, res;
};
int op_begin(int kind, int64_t a = 0, int64_t b = 0);
void op_end(int i, int64_t res = 0);
op* ops();
int op_count();
// Shared integers of the scenario itself: they create no happens-before edges between simulated
// threads, are no scheduling points and are zero at the start of each run. Index < 16384.
int64_t get(int cell);
void set(int cell, int64_t v);
int64_t add(int cell, int64_t v = 1);  // returns the new value
void probe(int id);             // "this rare condition was hit"

// ---- verdicts ------------------------------------------------------------------------------------
[[noreturn]] void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void discard();                 // run carries no verdict (precondition unmet); counts as trivial
void nontrivial();              // the run exercised what the property is about

// ---- registry --------------------------------------------------------------------------------------
struct scenario
{
    const char* name;
    void (*fn)();
    bool fork_each;
    scenario* next;
    scenario(const char* n, void (*f)(), bool fe = false);
};
#define SCENARIO(id, name)                                   \
    static void scn_##id();                                  \
    static sim::scenario reg_##id(name, scn_##id);           \
    static void scn_##id()
#define SCENARIO_FORK(id, name)                              \
    static void scn_##id();                                  \
    static sim::scenario reg_##id(name, scn_##id, true);     \
    static void scn_##id()
#define SIM_CHECK(tag, cond, ...)                            \
    do                                                       \
    {                                                        \
        if (!(cond))                                         \
            sim::fail(tag, __VA_ARGS__);                     \
    } while (0)
}

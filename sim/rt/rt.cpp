// Deterministic simulator runtime.
//
// Every thread of the program under test is a fiber with its own stack and TLS block; exactly one runs at a time and
// only this file decides which. All blocking primitives, clocks, sleeps, thread creation, futexes, signals, random
// devices and allocations of the program are served here (link-time interposition), every memory access and atomic
// operation of instrumented code is reported here (-fsanitize=thread call-outs, no libtsan), and every choice comes out
// of one decision stream, so one seed (or one recorded decision list) is one exactly repeatable execution.
//
// This file is NOT instrumented and keeps all its state in one mmap'ed block.
#include "sim.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <random>
#include <stdexcept>
#include <typeinfo>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define NOINLINE __attribute__((noinline))

extern "C" char __data_start, _end, __executable_start, etext;

namespace
{
constexpr int MAXT = 64;
constexpr u64 REGION = 0x100000000000ull;  // heap + stacks, fixed address
constexpr u64 HEAP_SIZE = 96ull << 20;
constexpr u64 STACK_SIZE = 512ull << 10;
constexpr u64 STACKS = REGION + HEAP_SIZE;
constexpr u64 REGION_END = STACKS + STACK_SIZE * MAXT;
constexpr u64 SHADOW = 0x200000000000ull;
constexpr u64 GSHADOW = 0x300000000000ull;
constexpr u64 HSTATE = 0x380000000000ull;
constexpr u64 LIBC_HEAP = 0x400000000000ull;
constexpr u64 LIBC_HEAP_SIZE = 64ull << 20;
constexpr u64 HOST_HEAP = 0x480000000000ull;
constexpr u64 HOST_HEAP_SIZE = 2048ull << 20;

enum State : u8 { S_FREE, S_RUN, S_BLOCK, S_STALL, S_DONE };
enum Wait : u8 { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_ONCE, W_SEM, W_RW, W_IDLE, W_GUARD, W_BARRIER };
const char* const wait_names[] = {"none", "mutex", "condition variable", "futex/atomic wait", "join", "sleep", "call_once", "semaphore", "rwlock", "idle", "static init", "barrier"};
enum Op : u8 {
    O_START, O_EXIT, O_LOCK, O_TRYLOCK, O_UNLOCK, O_CWAIT, O_CSIGNAL, O_CBROADCAST, O_FWAIT, O_FWAKE, O_CREATE, O_JOIN, O_DETACH,
    O_SLEEP, O_YIELD, O_ATOMIC, O_CLOCK, O_ONCE, O_SEM, O_RW, O_GUARD, O_POINT, O_MEM, O_SIGNAL, O_RDEV, O_BARRIER, O_RESUME, O_FENCE
};
const char* const op_names[] = {"start", "exit", "lock", "trylock", "unlock", "cond_wait", "cond_signal", "cond_broadcast", "futex_wait", "futex_wake", "thread_create", "join", "detach",
    "sleep", "yield", "atomic", "clock", "once", "sem", "rwlock", "guard", "point", "mem", "signal", "random_device", "barrier", "resume", "fence"};

struct VC { u32 c[MAXT]; };

struct Dtor { void (*fn)(void*); void* arg; };

struct Fiber
{
    void* sp;
    u64 fs;
    State st;
    Wait wait;
    bool timed_out, detached, joined, alloc_faults, one_alloc_fault, notified, intr, fatal, in_heap;
    int id, joiner;
    u64 waddr;
    u64 wmask;
    bool has_dl, dl_real;
    i64 deadline, late;
    u64 wseq;     // order of blocking
    u64 runseq;   // order of becoming runnable
    u64 prio;
    u64 sigpend;
    u64 sigblock;   // blocked signals: handlers running, masks set
    void* (*fn)(void*);
    void* arg;
    void* ret;
    VC vc;
    int cs;
    u32 callstack[256];
    int ndtor;
    Dtor dtor[16];
    u64 consecutive;
    Op last_op;
    u64 last_obj;
    u32 last_pc;
    // saved exception-free per-fiber data
};

struct Slot { u32 epoch; u8 tid, mask, flags, gen; u32 pc, ctx; };  // flags: 1 write 2 atomic

struct SyncEnt { u64 addr; u32 gen; u32 idx; };
constexpr u32 SYNC_BITS = 17, SYNC_CAP = 1u << SYNC_BITS;
constexpr int MAXDEC = 1 << 16;
constexpr int MAXPLAN = 1 << 14;
constexpr int MAXEV = 1 << 16;
constexpr int MAXOPS = 1 << 14;
constexpr int MAXCELLS = 1 << 14;
constexpr int TRACE_LINES = 400;

struct Dec { u64 idx; u64 val; };

struct Sig { void (*h)(int); int flags; u32 runs; u64 mask; };

struct HeapHdr { u64 size; u32 alloc_pc, free_pc; u16 alloc_tid, free_tid; u32 state; u64 magic; };  // 32 bytes

enum Status : int { V_OK = 0, V_VIOL = 1, V_DISCARD = 2, V_ERROR = 3 };

// result of one run, in memory shared with the parent
struct Result
{
    int status;
    bool nontrivial;
    char tag[64];
    char cls[256];
    char msg[6144];
    u64 hash, synchash, schedhash;
    u64 seed;
    u64 dec_total;
    int ndec;
    int nplan;
    i64 sim_time, points, bbs;
    int threads;
    i64 faults[sim::F_COUNT];
    u64 probes;
    i64 events;
    Dec dec[MAXDEC];
    i64 plan[MAXPLAN];
};

struct Agg
{
    u64 runs, nontrivial, discarded, cur_run;
    i64 sim_time, points, bbs, threads, decisions, maxpoints;
    i64 faults[sim::F_COUNT];
    u64 fault_runs[sim::F_COUNT];
    u64 probes;
    int done;
    u64 nhash;
};

struct G
{
    bool active;        // simulation running: hooks live
    bool in_run;        // between run start and end (host code of a scenario)
    bool simulating;    // sim::run in progress
    bool replay;        // decisions come from the list
    bool plan_replay;
    bool trace;
    bool faults_off;
    bool create_faults;
    bool have_fsgs;
    bool inited;
    bool host_ready;
    bool dying;
    int cur;
    int nfib;           // ids handed out
    int ncreated;       // threads created
    int alive;
    u32 gen;            // run generation in this process (1..255)
    const char* env[16][2];
    u64 rng, plan_rng, data_rng, rdev_key;
    u32 rdev_draws;
    u64 dec_idx;
    int rep_pos, plan_cursor;
    i64 now, boot, wall_off, busy, injected;
    i64 wall_jumps, wall_reads, last_wall;
    u64 nswitch;
    u64 seqno, wseq;
    i64 bb, points;
    i64 bb_since_point;
    u64 spin_points, spin_total;  // visible operations since time moved: without a block freed, and all
    // policy
    int policy;
    u32 p_sync, p_mem;
    i64 mem_countdown;
    u64 change_at[16];
    int nchange;
    u64 low_prio;
    int faults_left;
    // hashes
    u64 hash, synchash, schedhash;
    // heap
    u64 bump, bump0, base_bump;
    i64 live;
    // sync
    u32 nsync;
    // signals
    Sig sig[65];
    int arm_sigs[8];
    int narm, arm_left;
    // events
    size_t nev;
    // contexts
    void* host_sp;
    u64 host_fs;
    int end_status;
    void* body_arg;
    void (*body)(void*);
    bool body_done;
    i64 faults[sim::F_COUNT];
    int fault_rate_mem;
    // tls pool
    u64 tls_base[MAXT], tls_size[MAXT], tls_tcb[MAXT];
    u8* tls_pristine[MAXT];
    u64 cap_base, cap_size;
    bool capturing;
    void (*ctype_init)();
    void (*real_addref)(void*);
    void (*real_release)(void*);
    void (*real_end_catch)();
    // snapshot
    u8* snap_data;
    u64 snap_len;
    u8* snap_host;
    u64 snap_host_len;
    // libc heap/ host heap
    u64 libc_bump, host_bump;
    u64 host_free[64];
    u64 libc_lo, libc_hi, ld_lo, ld_hi;
    void* host_jmp[5];
    sim::scenario* scn_head;
    Result* res;
    Agg* agg;
    u8* cov;
    // symbols for the race report
    Fiber f[MAXT];
    SyncEnt sync[SYNC_CAP];
    VC syncvc[SYNC_CAP / 2];
    VC fencevc;
    VC ehvc;
    sim::event ev[MAXEV];
    // history of operations and shared cells of the scenario, both outside the simulated memory
    sim::op ops[MAXOPS];
    int nops;
    i64 cells[MAXCELLS];
    // trace ring
    struct TR { i64 t; u64 obj; u32 pc; u8 tid; u8 op; u16 extra; u32 ctx; } tr[65536];
    u64 ntr;
};

// The pointer lives in .data with a constant value, so restoring the data segment does not disturb it.
constexpr u64 G_ADDR = 0x500000000000ull;
#define g ((G*)G_ADDR)
bool g_mapped __attribute__((section(".data"))) = false;

inline Fiber& cur() { return g->f[g->cur]; }

// ---- small helpers, no libc -----------------------------------------------------------------------------
inline void bcopy_(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
inline void bset_(void* d, int v, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
inline long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
inline u64 splitmix(u64& s)
{
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline u64 rnd() { return splitmix(g->rng); }
inline u64 rndn(u64 n) { return n <= 1 ? 0 : (u64)(((unsigned __int128)rnd() * n) >> 64); }

u64 raw_mmap(u64 addr, u64 size, int prot = PROT_READ | PROT_WRITE, int flags = MAP_PRIVATE)
{
    long r = raw_syscall(SYS_mmap, addr, size, prot, flags | MAP_ANONYMOUS | MAP_NORESERVE | (addr ? MAP_FIXED : 0), -1, 0);
    if (r < 0 && r > -4096)
    {
        static const char m[] = "sim: mmap failed\n";
        raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
        raw_syscall(SYS_exit_group, 70);
    }
    return (u64)r;
}

void map_all()
{
    if (g_mapped)
        return;
    g_mapped = true;
    raw_mmap(G_ADDR, (sizeof(G) + 4095) & ~4095ull);
    raw_mmap(REGION, REGION_END - REGION);
    raw_mmap(HSTATE, HEAP_SIZE / 8);
    raw_mmap(SHADOW, (REGION_END - REGION) * 8);
    raw_mmap(GSHADOW, 64ull << 20);
    raw_mmap(LIBC_HEAP, LIBC_HEAP_SIZE);
    raw_mmap(HOST_HEAP, HOST_HEAP_SIZE);
    g->libc_bump = LIBC_HEAP;
    g->host_bump = HOST_HEAP;
    g->bump = g->bump0 = REGION;
    g->libc_lo = g->libc_hi = 0;
}

[[noreturn]] void die(const char* m)
{
    raw_syscall(SYS_write, 2, (long)m, __builtin_strlen(m));
    raw_syscall(SYS_write, 2, (long)"\n", 1);
    raw_syscall(SYS_exit_group, 70);
    __builtin_unreachable();
}

// ---- fiber switch -----------------------------------------------------------------------------------------
extern "C" void sim_switch(void** save, void* to);
__asm__(
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    ".cfi_startproc\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".cfi_endproc\n.size sim_switch,.-sim_switch\n"
    ".globl sim_tramp\n.type sim_tramp,@function\nsim_tramp:\n"
    ".cfi_startproc\n.cfi_undefined rip\n"
    "xorl %ebp,%ebp\ncall sim_fiber_main\nud2\n.cfi_endproc\n.size sim_tramp,.-sim_tramp\n");
extern "C" void sim_tramp();
extern "C" void sim_restorer();

inline void set_fs(u64 v)
{
    if (g->have_fsgs)
        __asm__ volatile("wrfsbase %0" ::"r"(v) : "memory");
    else
        raw_syscall(SYS_arch_prctl, 0x1002, (long)v);
}
inline u64 get_fs()
{
    u64 v;
    __asm__ volatile("movq %%fs:0,%0" : "=r"(v));
    return v;
}

void to_fiber(int id)
{
    int from = g->cur;
    if (id == from)
        return;
    g->nswitch++;
    g->cur = id;
    set_fs(g->f[id].fs);
    sim_switch(&g->f[from].sp, g->f[id].sp);
}
[[noreturn]] void to_host()
{
    g->active = false;
    set_fs(g->host_fs);
    void* dummy;
    sim_switch(&dummy, g->host_sp);
    __builtin_unreachable();
}

// ---- decisions ----------------------------------------------------------------------------------------------
// decide: one choice out of n; 0 is the default. gen() supplies the value in generative mode.
void record_dec(u64 idx, u64 val)
{
    Result* r = g->res;
    if (r && r->ndec < MAXDEC)
        r->dec[r->ndec++] = {idx, val};
}
inline bool rep_here(u64 idx, u64& val)
{
    Result* r = g->res;
    while (g->rep_pos < r->ndec && r->dec[g->rep_pos].idx < idx)
        g->rep_pos++;
    if (g->rep_pos < r->ndec && r->dec[g->rep_pos].idx == idx)
    {
        val = r->dec[g->rep_pos].val;
        return true;
    }
    return false;
}
template <class Gen>
u64 decide_at(u64 idx, u64 n, Gen gen)
{
    u64 v = 0;
    if (g->replay)
    {
        if (!rep_here(idx, v))
            return 0;
        return v % n;
    }
    v = gen();
    if (v)
        record_dec(idx, v);
    return v;
}
template <class Gen>
u64 decide(u64 n, Gen gen)
{
    return decide_at(g->dec_idx++, n, gen);
}

void expire_timers();
}  // namespace

namespace sim
{
config cfg;
const char* const fault_names[F_COUNT] = {
    "preempt_sync", "preempt_mem", "spurious_cv_wakeup", "spurious_futex_wakeup", "eintr", "thread_stall", "process_pause",
    "late_timer", "wall_clock_jump", "coarse_clock", "alloc_failure", "thread_creation_failure", "signal_at_arbitrary_point",
    "random_device_failure", "random_device_repeats", "wake_order", "few_or_unknown_cpus", "user_code_throws", "user_code_slow", "output_full_or_broken"};
}
using namespace sim;

namespace
{
inline void count_fault(int f) { g->faults[f]++; }

u64 draw_delay(i64 maxv)
{
    // decision value v: 0 = none; otherwise delay index into a log scale up to maxv
    return decide(1ull << 60, [&]() -> u64 {
        i64 m = maxv < 1 ? 1 : maxv;
        int sh = 0;
        while ((m >> sh) > 1)
            sh++;
        i64 lim = 1ll << rndn(sh + 1);
        if (lim > m)
            lim = m;
        return 1 + rndn(lim);
    });
}
i64 clamp_delay(u64 v, i64 maxv)
{
    i64 d = (i64)v;
    return d > maxv ? maxv : d;
}

bool fault_roll(int f)
{
    int r = cfg.rate[f];
    if (!r || g->faults_off || !g->active)
        return false;
    u64 v = decide(2, [&]() -> u64 { return g->faults_left > 0 && rndn(r) == 0 ? 1 : 0; });
    if (v)
    {
        g->faults_left--;
        count_fault(f);
    }
    return v != 0;
}

// ---- trace -----------------------------------------------------------------------------------------------------
inline u32 caller_pc()
{
    Fiber& c = cur();
    return c.cs > 0 ? c.callstack[c.cs <= 256 ? c.cs - 1 : 255] : 0;
}
inline void trace(Op op, u64 obj, u32 pc, u16 extra = 0)
{
    auto& e = g->tr[g->ntr++ & 65535];
    Fiber& c = cur();
    e = {g->now, obj, pc, (u8)g->cur, (u8)op, extra, c.cs > 1 && c.cs <= 256 ? c.callstack[c.cs - 2] : 0};
}
void hash_op(Op op)
{
    g->hash = mix(g->hash, ((u64)g->cur << 8 | op) + (u64)g->now * 31);
    if (op != O_ATOMIC && op != O_CLOCK && op != O_MEM)
        g->synchash = mix(g->synchash, (u64)g->cur << 8 | op);
}

// ---- failing -----------------------------------------------------------------------------------------------------
size_t app_threads(char* b, size_t cap, size_t n);
[[noreturn]] void do_fail(const char* tag, const char* cls, const char* msg)
{
    bool was_active = g->active;
    g->active = false;
    Result* r = g->res;
    if (r->status == V_OK || r->status == V_DISCARD)
    {
        r->status = V_VIOL;
        snprintf(r->tag, sizeof r->tag, "%s", tag);
        snprintf(r->cls, sizeof r->cls, "%s", cls);
        size_t n = snprintf(r->msg, sizeof r->msg, "%s", msg);
        if (n >= sizeof r->msg)
            n = sizeof r->msg - 1;
        if (was_active || g->simulating)
            app_threads(r->msg, sizeof r->msg, n);
    }
    if (g->simulating)
        to_host();
    if (g->in_run)
        __builtin_longjmp(g->host_jmp, 1);
    die("sim: failure outside a run");
}
size_t app_threads(char* b, size_t cap, size_t n)
{
    auto add = [&](const char* fmt, auto... a) {
        if (n + 2 < cap)
        {
            int k = snprintf(b + n, cap - n, fmt, a...);
            n += k;
            if (n >= cap)
                n = cap - 1;
        }
    };
    add("\nthreads at t=%lld ns:", (long long)g->now);
    for (int i = 0; i < g->nfib; i++)
    {
        Fiber& f = g->f[i];
        const char* s = f.st == S_RUN ? (i == g->cur ? "running" : "runnable") : f.st == S_STALL ? "paused" : f.st == S_DONE ? "finished" : "blocked";
        if (f.st == S_DONE)
            continue;
        add("\n  T%d %s", i, s);
        if (f.st == S_BLOCK)
            add(" on %s%s", wait_names[f.wait], f.has_dl ? " (timed)" : "");
        int top = f.cs > 256 ? 256 : f.cs;
        for (int k = top - 1, c = 0; k >= 0 && c < 7; k--, c++)
            add(" <%x>", f.callstack[k]);
    }
    return n;
}
[[noreturn]] void failf(const char* tag, const char* cls, const char* fmt, ...)
{
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    do_fail(tag, cls, buf);
}

// ---- vector clocks -------------------------------------------------------------------------------------------------
inline void vjoin(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; i++)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
// Forget what is known about synchronisation objects in heap memory that has been freed.
NOINLINE void purge_sync()
{
    static u64 by_idx[SYNC_CAP / 2];
    for (SyncEnt& e : g->sync)
        if (e.gen == g->gen)
        {
            by_idx[e.idx] = e.addr;
            e.gen = 0;
        }
    u32 n = 0;
    for (u32 i = 0; i < g->nsync; i++)
    {
        u64 a = by_idx[i], off = a - REGION;
        if (off < HEAP_SIZE)
        {
            u8 st = ((const u8*)HSTATE)[off >> 3];
            if (st == 0 || st == 0xF)
                continue;
        }
        u64 h = (a * 0x9E3779B97F4A7C15ull) >> (64 - SYNC_BITS);
        while (g->sync[h].gen == g->gen)
            h = (h + 1) & (SYNC_CAP - 1);
        g->sync[h] = {a, g->gen, n};
        if (n != i)
            g->syncvc[n] = g->syncvc[i];
        n++;
    }
    g->nsync = n;
}
VC& sync_of(u64 addr)
{
    if (UNLIKELY(g->nsync >= SYNC_CAP / 2))
        purge_sync();
    u64 h = (addr * 0x9E3779B97F4A7C15ull) >> (64 - SYNC_BITS);
    for (u64 i = h;; i = (i + 1) & (SYNC_CAP - 1))
    {
        SyncEnt& e = g->sync[i];
        if (e.gen == g->gen)
        {
            if (e.addr == addr)
                return g->syncvc[e.idx];
            continue;
        }
        if (g->nsync >= SYNC_CAP / 2)
            failf("error", "error:sync table full", "sync table full");
        e.addr = addr;
        e.gen = g->gen;
        e.idx = g->nsync++;
        bset_(&g->syncvc[e.idx], 0, sizeof(VC));
        return g->syncvc[e.idx];
    }
}
inline void acquire(u64 a) { vjoin(cur().vc, sync_of(a)); }
inline void release(u64 a)
{
    Fiber& c = cur();
    vjoin(sync_of(a), c.vc);
    c.vc.c[c.id]++;
}
inline void release_store(u64 a)
{
    Fiber& c = cur();
    sync_of(a) = c.vc;
    c.vc.c[c.id]++;
}

// ---- race detector / memory state --------------------------------------------------------------------------------
inline Slot* shadow_of(u64 a)
{
    if (a - REGION < REGION_END - REGION)
        return (Slot*)(SHADOW + ((a - REGION) >> 3) * 64);
    u64 lo = (u64)&__data_start, hi = (u64)&_end;
    if (a >= lo && a < hi && ((a - lo) >> 3) * 64 + 64 <= (64ull << 20))
        return (Slot*)(GSHADOW + ((a - (lo & ~7ull)) >> 3) * 64);
    return nullptr;
}
HeapHdr* find_hdr(u64 a);
NOINLINE void heap_bad(u64 a, unsigned size, bool write, u32 pc)
{
    u8 st = ((u8*)HSTATE)[(a - REGION) >> 3];
    HeapHdr* h = find_hdr(a);
    if (st == 0xF && h)
        failf("generic", "use-after-free", "use after free: T%d %s %u bytes at <%x> (called from <%x>) of a %llu-byte block allocated at <%x> by T%d, freed at <%x> by T%d",
              g->cur, write ? "writes" : "reads", size, pc, caller_pc(), (unsigned long long)h->size, h->alloc_pc, h->alloc_tid, h->free_pc, h->free_tid);
    failf("generic", "out-of-bounds", "heap out of bounds: T%d %s %u bytes at <%x> (called from <%x>)%s", g->cur, write ? "writes" : "reads", size, pc, caller_pc(),
          h ? " next to a live block" : "");
}
inline void heap_check(u64 a, unsigned size, bool write, u32 pc)
{
    u64 off = a - REGION;
    if (off >= HEAP_SIZE)
        return;
    const u8* st = (const u8*)HSTATE;
    u64 gidx = off >> 3, end = off + size;
    unsigned o = off & 7;
    if (o + size <= 8)
    {
        u8 s = st[gidx];
        if (UNLIKELY(s < o + size || s == 0xF))
            heap_bad(a, size, write, pc);
        return;
    }
    for (u64 k = gidx; (k << 3) < end; k++)
    {
        unsigned need = end - (k << 3) >= 8 ? 8 : (unsigned)(end - (k << 3));
        u8 s = st[k];
        if (UNLIKELY(s < need || s == 0xF))
            heap_bad(k == gidx ? a : REGION + (k << 3), size, write, pc);
    }
}
NOINLINE void race(u64 a, u8 mask, bool write, bool atomic, u32 pc, const Slot& s)
{
    char where[160] = "";
    HeapHdr* h = a - REGION < HEAP_SIZE ? find_hdr(a) : nullptr;
    if (h)
        snprintf(where, sizeof where, " in a %llu-byte heap block allocated at <%x> by T%d", (unsigned long long)h->size, h->alloc_pc, h->alloc_tid);
    else if (a >= STACKS && a < REGION_END)
        snprintf(where, sizeof where, " on the stack of T%d", (int)((a - STACKS) / STACK_SIZE));
    else
        snprintf(where, sizeof where, " in static data <%llx>", (unsigned long long)a);
    failf("generic", "data-race", "data race: T%d %s%s at <%x> (called from <%x>) is unordered with T%d's %s%s at <%x> (called from <%x>)%s", g->cur,
          atomic ? "atomic " : "", write ? "write" : "read", pc, caller_pc(), s.tid, s.flags & 2 ? "atomic " : "", s.flags & 1 ? "write" : "read", s.pc, s.ctx, where);
}
inline void shadow_one(u64 a, u8 mask, bool write, bool atomic, u32 pc)
{
    Slot* s = shadow_of(a);
    if (!s)
        return;
    Fiber& c = cur();
    u8 fl = (write ? 1 : 0) | (atomic ? 2 : 0);
    u32 ep = c.vc.c[c.id];
    u8 gen = (u8)g->gen;
    int put = -1, hb = -1;
    for (int i = 0; i < 4; i++)
    {
        Slot& x = s[i];
        if (x.gen != gen || x.epoch == 0)
        {
            if (put < 0)
                put = i;
            continue;
        }
        if (x.tid == c.id)
        {
            if (x.mask == mask && x.epoch == ep && (x.flags & 1) >= (fl & 1) && (x.flags & 2) <= (fl & 2))
                return;  // already covered by a stronger access in this epoch
            if ((x.mask & ~mask) == 0 && (fl & 1) >= (x.flags & 1) && (fl & 2) <= (x.flags & 2))
            {
                put = i;  // new access subsumes it
            }
            else if (hb < 0)
                hb = i;
            continue;
        }
        if (x.epoch <= c.vc.c[x.tid])
        {
            if (write && (x.mask & ~mask) == 0)
            {
                if (put < 0)
                    put = i;
                else
                    x.epoch = 0;
            }
            else if (hb < 0)
                hb = i;
            continue;
        }
        if ((x.mask & mask) && ((x.flags | fl) & 1) && !((x.flags & fl) & 2))
            race(a, mask, write, atomic, pc, x);
    }
    if (put < 0)
        put = hb >= 0 ? hb : (int)((g->dec_idx ^ g->dec_idx >> 1) & 3);
    s[put] = {ep, (u8)c.id, mask, fl, gen, pc, caller_pc()};
}
inline void access(u64 a, unsigned size, bool write, bool atomic, u32 pc)
{
    heap_check(a, size, write, pc);
    unsigned o = a & 7;
    if (LIKELY(o + size <= 8))
    {
        shadow_one(a, (u8)(((1u << size) - 1) << o), write, atomic, pc);
        return;
    }
    u64 end = a + size;
    for (u64 p = a & ~7ull; p < end; p += 8)
    {
        u64 lo = p < a ? a - p : 0, hi = end - p >= 8 ? 8 : end - p;
        shadow_one(p + lo, (u8)(((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic, pc);
    }
}

// ---- scheduling -------------------------------------------------------------------------------------------------------
i64 eff_deadline(const Fiber& f)
{
    i64 d = f.deadline;
    if (f.dl_real)
        d -= g->wall_off;
    if (cfg.clock_granularity > 1 && f.st == S_BLOCK)
    {
        i64 gr = cfg.clock_granularity;
        if (d > 0 && d < INT64_MAX - 2 * gr)
            d = (d + gr - 1) / gr * gr;
    }
    if (f.st == S_BLOCK && f.late > 0 && d < INT64_MAX - f.late)
        d += f.late;
    return d;
}
// injected delay of this thread that has passed so far: the stall it is in, or the time past its nominal deadline
i64 delay_passed(const Fiber& f)
{
    i64 d = f.st == S_STALL ? f.late : f.st == S_BLOCK && f.has_dl ? f.late : 0;
    if (d <= 0)
        return 0;
    i64 left = (f.st == S_STALL ? f.deadline : eff_deadline(f)) - g->now;
    return left <= 0 ? d : left >= d ? 0 : d - left;
}
void make_runnable(Fiber& f)
{
    if (i64 d = delay_passed(f))
    {
        g->injected += d;
        if (f.st == S_BLOCK)
            count_fault(F_TIMER_LATE);
    }
    f.st = S_RUN;
    f.runseq = ++g->wseq;
}
void expire_timers()
{
    for (int i = 0; i < g->nfib; i++)
    {
        Fiber& f = g->f[i];
        if ((f.st == S_BLOCK || f.st == S_STALL) && f.has_dl && eff_deadline(f) <= g->now)
        {
            if (f.st == S_BLOCK)
                f.timed_out = true;
            make_runnable(f);
        }
    }
}
void spend(i64 ns)
{
    if (ns > 0)
    {
        g->now += ns;
        g->busy += ns;
        expire_timers();
    }
}
int runnable(int* out)
{
    int n = 0;
    for (int k = 0; k < g->nfib; k++)
    {
        int i = g->cur + k;
        if (i >= g->nfib)
            i -= g->nfib;
        if (g->f[i].st == S_RUN)
            out[n++] = i;
    }
    return n;
}
constexpr i64 NEVER = 8'500'000'000'000'000'000;  // 269 years: later deadlines do not expire
[[noreturn]] void deadlock()
{
    char m[512];
    bool main_blocked = g->f[0].st == S_BLOCK;
    snprintf(m, sizeof m, "deadlock: no thread can ever run again%s", main_blocked ? " and the caller's operation never returns" : "");
    failf("generic", "deadlock", "%s", m);
}
// nobody can run: wake an idle-waiter or let time pass
void advance_idle()
{
    bool stalled = false;
    for (int i = 0; i < g->nfib; i++)
        stalled |= g->f[i].st == S_STALL;
    if (!stalled)
        for (int i = 0; i < g->nfib; i++)
            if (g->f[i].st == S_BLOCK && g->f[i].wait == W_IDLE)
            {
                make_runnable(g->f[i]);
                return;
            }
    i64 best = INT64_MAX;
    for (int i = 0; i < g->nfib; i++)
    {
        Fiber& f = g->f[i];
        if ((f.st == S_BLOCK || f.st == S_STALL) && f.has_dl)
        {
            i64 d = eff_deadline(f);
            if (d < best)
                best = d;
        }
    }
    // a wait without end (deadline at the end of time) never expires
    if (best >= NEVER)
        deadlock();
    if (best > g->now)
        g->now = best;
    g->spin_points = g->spin_total = 0;
    if (cfg.time_cap && g->now > cfg.time_cap)
        failf("generic", "livelock", "livelock: the program is still busy after %lld ns of simulated time", (long long)g->now);
    expire_timers();
}
u64 best_prio(const int* r, int n)
{
    int b = 0;
    for (int i = 1; i < n; i++)
        if (g->f[r[i]].prio > g->f[r[b]].prio)
            b = i;
    return b;
}
// The current fiber cannot continue: choose who runs.
void pick_next()
{
    int r[MAXT];
    int n = runnable(r);
    int guard = 0;
    while (n == 0)
    {
        advance_idle();
        n = runnable(r);
        if (++guard > 100000)
            failf("generic", "livelock", "livelock: time advances without any thread becoming runnable");
    }
    // default: the one runnable for longest
    int o[MAXT];
    for (int i = 0; i < n; i++)
        o[i] = r[i];
    for (int i = 1; i < n; i++)
        for (int j = i; j > 0 && g->f[o[j]].runseq < g->f[o[j - 1]].runseq; j--)
        {
            int t = o[j];
            o[j] = o[j - 1];
            o[j - 1] = t;
        }
    u64 v = 0;
    if (n > 1)
        v = decide(n, [&]() -> u64 { return g->policy == 1 ? best_prio(o, n) : g->policy == 2 ? 0 : rndn(n); });
    g->schedhash = mix(g->schedhash, o[v]);
    cur().consecutive = 0;
    int to = o[v];
    g->f[to].consecutive = 0;
    to_fiber(to);
}
void run_pending_signals();
// Optional preemption.
void maybe_preempt(bool mem, u32 pc, u64 idx)
{
    int r[MAXT];
    int n = runnable(r);
    Fiber& c = cur();
    // Spinning burns time until the next timer: nobody has blocked for long. Freeing memory is taken for work, but not for ever.
    const u64 spin_limit = n <= 1 ? 3000 : 30000;
    if (!mem && (++g->spin_total > (u64)cfg.patience * spin_limit || ++g->spin_points > spin_limit))
    {
        g->spin_points = g->spin_total = 0;
        i64 best = INT64_MAX;
        for (int i = 0; i < g->nfib; i++)
        {
            Fiber& f = g->f[i];
            if ((f.st == S_BLOCK || f.st == S_STALL) && f.has_dl)
            {
                i64 d = eff_deadline(f);
                if (d < best)
                    best = d;
            }
        }
        if (best < NEVER && best > g->now)
        {
            spend(best - g->now);
            n = runnable(r);
        }
    }
    if (n <= 1)
        return;
    if (!mem && ++c.consecutive > 4000)
    {
        // fairness: a spinning thread does not run forever
        c.consecutive = 0;
        c.prio = g->low_prio--;
        c.runseq = ++g->wseq;
        g->schedhash = mix(g->schedhash, 0x5555 + r[1]);
        to_fiber(r[1]);
        return;
    }
    u64 v = decide_at(mem ? idx : g->dec_idx++, n, [&]() -> u64 {
        if (g->policy == 1)
        {
            for (int i = 0; i < g->nchange; i++)
                if (g->change_at[i] && g->change_at[i] <= g->dec_idx)
                {
                    g->change_at[i] = 0;
                    c.prio = g->low_prio--;
                }
            return best_prio(r, n);
        }
        if (mem)
            return rndn(n);
        if (g->policy == 2)
            return 0;
        return rndn(1000) < g->p_sync ? 1 + rndn(n - 1) : 0;
    });
    if (v)
    {
        count_fault(mem ? F_PREEMPT_MEM : F_PREEMPT_SYNC);
        g->schedhash = mix(g->schedhash, (u64)r[v] << 32 | (mem ? pc : g->points & 0));
        c.consecutive = 0;
        c.runseq = ++g->wseq;
        to_fiber(r[v]);
    }
}
void stall_current(i64 d, bool injected)
{
    Fiber& c = cur();
    c.st = S_STALL;
    c.has_dl = true;
    c.dl_real = false;
    c.late = injected ? d : 0;
    c.deadline = g->now + d;
    pick_next();
    c.late = 0;
    c.has_dl = false;
}
bool maybe_signal(u64 idx);
void run_pending_signals();
// Every synchronisation operation passes here first.
void sync_point(Op op, u64 obj, u32 pc)
{
    g->points++;
    Fiber& c = cur();
    c.last_op = op;
    c.last_obj = obj;
    c.last_pc = pc;
    if (cfg.step_cost && op != O_ATOMIC)
        spend(cfg.step_cost);
    if (cfg.rate[F_PROCESS_PAUSE] && fault_roll(F_PROCESS_PAUSE))
    {
        i64 d = clamp_delay(draw_delay(cfg.stall_max), cfg.stall_max);
        g->now += d;
        g->injected += d;
        expire_timers();
    }
    if (cfg.rate[F_WALL_JUMP] && fault_roll(F_WALL_JUMP))
    {
        u64 v = draw_delay(cfg.wall_jump_max);
        i64 d = clamp_delay(v, cfg.wall_jump_max);
        if (v & 1)
            d = -d;
        g->wall_off += d;
        g->wall_jumps++;
        expire_timers();
    }
    if (cfg.rate[F_THREAD_STALL] && g->alive > 1 && fault_roll(F_THREAD_STALL))
    {
        stall_current(clamp_delay(draw_delay(cfg.stall_max), cfg.stall_max), true);
    }
    if (g->arm_left)
        maybe_signal(g->dec_idx++);
    maybe_preempt(false, pc, 0);
    if (c.sigpend & ~c.sigblock)
        run_pending_signals();
    hash_op(op);
    trace(op, obj, pc);
}
void set_mem_countdown()
{
    // geometric-ish gap
    if (!g->p_mem)
        g->mem_countdown = INT64_MAX;
    else
        g->mem_countdown = 1 + rndn(2 * g->p_mem);
}
NOINLINE void mem_point_slow(u32 pc)
{
    set_mem_countdown();
    u64 idx = g->dec_idx - 2;  // each access owns two decisions
    if (g->arm_left && maybe_signal(idx))
        return;
    u64 before = g->nswitch;
    maybe_preempt(true, pc, idx + 1);
    // only after a switch: a replay does not come here otherwise
    if (g->nswitch != before && cur().sigpend & ~cur().sigblock)
        run_pending_signals();
}
inline void mem_point(u64 a, u32 pc)
{
    // own stack is private
    if (a - (STACKS + (u64)g->cur * STACK_SIZE) < STACK_SIZE)
        return;
    if (g->alive <= 1)
        return;
    g->dec_idx += 2;
    if (UNLIKELY(g->replay))
    {
        u64 v;
        if (rep_here(g->dec_idx - 2, v) || rep_here(g->dec_idx - 1, v))
            mem_point_slow(pc);
        return;
    }
    if (UNLIKELY(--g->mem_countdown <= 0))
        mem_point_slow(pc);
}

// Block the current fiber. Returns true when woken (not timed out).
bool block(Wait w, u64 addr, bool has_dl, i64 deadline, bool real)
{
    Fiber& c = cur();
    c.wait = w;
    c.waddr = addr;
    c.timed_out = false;
    c.notified = false;
    c.intr = false;
    c.has_dl = has_dl;
    c.dl_real = real;
    c.deadline = deadline;
    c.late = 0;
    c.wseq = ++g->wseq;
    c.st = S_BLOCK;
    if (has_dl && eff_deadline(c) <= g->now)
    {
        c.st = S_RUN;
        c.timed_out = true;
        c.wait = W_NONE;
        c.has_dl = false;
        return false;
    }
    if (has_dl && cfg.rate[F_TIMER_LATE] && !g->faults_off)
    {
        u64 v = decide(1ull << 60, [&]() -> u64 {
            if (g->faults_left <= 0 || rndn(cfg.rate[F_TIMER_LATE]))
                return 0;
            int sh = 0;
            while ((cfg.stall_max >> sh) > 1)
                sh++;
            return 1 + rndn(1ull << rndn(sh + 1));
        });
        if (v)
        {
            c.late = clamp_delay(v, cfg.stall_max);
            g->faults_left--;
        }
    }
    pick_next();
    c.wait = W_NONE;
    c.has_dl = false;
    hash_op(O_RESUME);
    return !c.timed_out;
}
void wake(Fiber& f)
{
    f.notified = true;
    f.timed_out = false;
    make_runnable(f);
}
int wake_waiters(Wait w, u64 addr, int count, bool choose, u64 mask = ~0ull)
{
    int n = 0;
    while (count-- > 0)
    {
        int cand[MAXT];
        int k = 0;
        for (int i = 0; i < g->nfib; i++)
            if (g->f[i].st == S_BLOCK && g->f[i].wait == w && g->f[i].waddr == addr && (g->f[i].wmask & mask))
                cand[k++] = i;
        if (!k)
            break;
        for (int i = 1; i < k; i++)
            for (int j = i; j > 0 && g->f[cand[j]].wseq < g->f[cand[j - 1]].wseq; j--)
            {
                int t = cand[j];
                cand[j] = cand[j - 1];
                cand[j - 1] = t;
            }
        u64 v = 0;
        if (choose && k > 1 && cfg.rate[F_WAKE_ORDER] && !g->faults_off)
        {
            v = decide(k, [&]() -> u64 { return rndn(k); });
            if (v)
                count_fault(F_WAKE_ORDER);
        }
        wake(g->f[cand[v]]);
        n++;
    }
    return n;
}

// ---- signals -------------------------------------------------------------------------------------------------------------
void run_handler(int sig)
{
    Fiber& c = cur();
    Sig s = g->sig[sig];
    if (s.h == SIG_IGN)
        return;
    if (s.h == SIG_DFL)
    {
        if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH)
            return;
        failf("generic", "killed", "the process is killed by signal %d: no handler is installed", sig);
    }
    if (c.sigblock >> sig & 1)
    {
        c.sigpend |= 1ull << sig;
        return;
    }
    u64 mask = c.sigblock;
    c.sigblock |= s.mask;
    if (!(s.flags & SA_NODEFER))
        c.sigblock |= 1ull << sig;
    g->sig[sig].runs++;
    int saved = errno;
    if (s.flags & SA_RESETHAND)
        g->sig[sig].h = SIG_DFL;
    trace(O_SIGNAL, sig, 0);
    if (s.flags & SA_SIGINFO)
    {
        siginfo_t si;
        bset_(&si, 0, sizeof si);
        si.si_signo = sig;
        ((void (*)(int, siginfo_t*, void*))(void*)s.h)(sig, &si, nullptr);
    }
    else
        s.h(sig);
    errno = saved;
    c.sigblock = mask;
    run_pending_signals();
}
void run_pending_signals()
{
    Fiber& c = cur();
    while (u64 m = c.sigpend & ~c.sigblock)
    {
        int s = __builtin_ctzll(m);
        c.sigpend &= ~(1ull << s);
        run_handler(s);
    }
}
// Signals armed by the scenario arrive at arbitrary points on an arbitrary thread.
bool maybe_signal(u64 idx)
{
    if (!cfg.rate[F_SIGNAL] || g->faults_off)
        return false;
    u64 v = decide_at(idx, 1 + (u64)g->narm * MAXT, [&]() -> u64 {
        if (rndn(cfg.rate[F_SIGNAL]))
            return 0;
        return 1 + rndn((u64)g->narm * MAXT);
    });
    if (!v)
        return false;
    v--;
    int sig = g->arm_sigs[v % g->narm];
    int start = (int)(v / g->narm) % g->nfib;
    int tgt = -1;
    for (int k = 0; k < g->nfib; k++)
    {
        int i = (start + k) % g->nfib;
        Fiber& f = g->f[i];
        if (f.st == S_RUN || (f.st == S_BLOCK && f.wait != W_IDLE))
        {
            tgt = i;
            break;
        }
    }
    if (tgt < 0)
        return true;
    g->arm_left--;
    count_fault(F_SIGNAL);
    if (tgt == g->cur)
    {
        run_handler(sig);
        return true;
    }
    Fiber& f = g->f[tgt];
    f.sigpend |= 1ull << sig;
    if (f.st == S_BLOCK)
    {
        f.intr = true;
        f.timed_out = false;
        make_runnable(f);
    }
    return true;
}

// ---- fibers ----------------------------------------------------------------------------------------------------------------
void fiber_finish();
int new_fiber(void* (*fn)(void*), void* arg)
{
    int id = g->nfib;
    u32 epoch = 0;
    if (id < MAXT)
        g->nfib++;
    else
    {
        // take over the place of a thread that is gone: its epochs go on, its stack is fresh
        for (id = 1; id < MAXT; id++)
            if (g->f[id].st == S_DONE && (g->f[id].joined || g->f[id].detached))
                break;
        if (id == MAXT)
            return -1;
        epoch = g->f[id].vc.c[id];
        for (u64 a = STACKS + (u64)(id + 1) * STACK_SIZE - 64 * 1024; a < STACKS + (u64)(id + 1) * STACK_SIZE; a += 8)
            bset_(shadow_of(a), 0, 64);
    }
    g->ncreated++;
    Fiber& f = g->f[id];
    bset_(&f, 0, sizeof f);
    f.id = id;
    f.joiner = -1;
    f.fn = fn;
    f.arg = arg;
    f.wmask = ~0ull;
    f.fs = g->tls_tcb[id];
    bcopy_((void*)g->tls_base[id], g->tls_pristine[id], g->tls_size[id]);
    u64 top = STACKS + (u64)(id + 1) * STACK_SIZE - 64;
    u64* sp = (u64*)(top & ~15ull);
    *--sp = 0;
    *--sp = 0;
    *--sp = (u64)&sim_tramp;  // return address
    for (int i = 0; i < 6; i++)
        *--sp = 0;
    --sp;
    u32 mx;
    u16 cw;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    ((u32*)sp)[0] = mx;
    ((u32*)sp)[1] = cw;
    f.sp = sp;
    f.vc.c[id] = epoch + 1;
    f.prio = g->policy == 1 ? (1ull << 32) + (g->replay ? 0 : rndn(1 << 20)) : 0;
    f.st = S_RUN;
    f.runseq = ++g->wseq;
    g->alive++;
    return id;
}
}  // namespace

extern "C" void sim_fiber_main() noexcept
{
    Fiber& c = cur();
    if (g->ctype_init)
        g->ctype_init();
    hash_op(O_START);
    trace(O_START, 0, 0);
    if (c.id == 0)
        g->body(g->body_arg);
    else
        c.ret = c.fn(c.arg);
    while (c.ndtor > 0)
    {
        Dtor d = c.dtor[--c.ndtor];
        d.fn(d.arg);
    }
    fiber_finish();
}

namespace
{
void fiber_finish()
{
    Fiber& c = cur();
    sync_point(O_EXIT, 0, 0);
    if (c.id == 0)
    {
        // body done: let the others come to rest
        g->body_done = true;
        if (g->alive > 1)
        {
            c.st = S_BLOCK;
            c.wait = W_IDLE;
            c.has_dl = false;
            pick_next();
        }
        int left = 0;
        for (int i = 1; i < g->nfib; i++)
            if (g->f[i].st != S_DONE)
                left++;
        if (left && cfg.leak_is_violation)
            failf("generic", "thread-left", "%d thread(s) of the library are still alive after everything was stopped and destroyed", left);
        g->end_status = V_OK;
        to_host();
    }
    release(0x1000 + c.id);
    c.st = S_DONE;
    g->alive--;
    if (c.joiner >= 0 && g->f[c.joiner].st == S_BLOCK && g->f[c.joiner].wait == W_JOIN)
        wake(g->f[c.joiner]);
    pick_next();
    die("sim: finished fiber resumed");
}

inline bool on() { return g_mapped && g->active; }
#define PC ((u32)(u64)__builtin_return_address(0))

// ---- mutex ---------------------------------------------------------------------------------------------------------------------
// layout inside pthread_mutex_t: __lock, __count, __owner, __nusers, __kind
void check_obj(const void* p, size_t n, u32 pc)
{
    heap_check((u64)p, (unsigned)n, true, pc);
}
int mtx_lock(pthread_mutex_t* m, bool timed, i64 dl, bool real, u32 pc)
{
    Fiber& c = cur();
    sync_point(O_LOCK, (u64)m, pc);
    check_obj(m, 8, pc);
    for (;;)
    {
        if (m->__data.__lock == 0)
        {
            m->__data.__lock = 1;
            m->__data.__owner = c.id + 1;
            m->__data.__count = 1;
            acquire((u64)m);
            return 0;
        }
        if (m->__data.__owner == c.id + 1)
        {
            int kind = m->__data.__kind & 3;
            if (kind == PTHREAD_MUTEX_RECURSIVE)
            {
                m->__data.__count++;
                return 0;
            }
            if (kind == PTHREAD_MUTEX_ERRORCHECK)
                return EDEADLK;
            if (!timed)
                failf("generic", "self-deadlock", "deadlock: T%d locks a mutex it already holds at <%x> (called from <%x>)", c.id, pc, caller_pc());
        }
        bool woken = block(W_MUTEX, (u64)m, timed, dl, real);
        if (c.intr)
            run_pending_signals();
        if (!woken && timed)
            return ETIMEDOUT;
    }
}
void mtx_release(pthread_mutex_t* m)
{
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    m->__data.__count = 0;
    release((u64)m);
    wake_waiters(W_MUTEX, (u64)m, MAXT, false);
}
int mtx_unlock(pthread_mutex_t* m, u32 pc)
{
    Fiber& c = cur();
    sync_point(O_UNLOCK, (u64)m, pc);
    check_obj(m, 8, pc);
    if (m->__data.__lock == 0 || m->__data.__owner != c.id + 1)
        failf("generic", "bad-unlock", "T%d unlocks a mutex it does not hold at <%x> (called from <%x>)", c.id, pc, caller_pc());
    if (--m->__data.__count > 0)
        return 0;
    mtx_release(m);
    return 0;
}
i64 ts_ns(const struct timespec* ts)
{
    if (ts->tv_sec > 9000000000ll)
        return INT64_MAX;
    return ts->tv_sec * 1000000000ll + ts->tv_nsec;
}
bool is_real(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }

int cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, bool timed, i64 dl, bool real, u32 pc)
{
    Fiber& c = cur();
    sync_point(O_CWAIT, (u64)cv, pc);
    check_obj(cv, 8, pc);
    if (m->__data.__lock == 0 || m->__data.__owner != c.id + 1)
        failf("generic", "bad-wait", "T%d waits on a condition variable without holding the mutex at <%x> (called from <%x>)", c.id, pc, caller_pc());
    unsigned cnt = m->__data.__count;
    bool spurious = cfg.rate[F_SPURIOUS_CV] && fault_roll(F_SPURIOUS_CV);
    mtx_release(m);
    bool woken = true;
    c.timed_out = false;
    if (!spurious)
    {
        woken = block(W_COND, (u64)cv, timed, dl, real);
        // A handler that interrupts the wait runs while this thread is no waiter: return as from a spurious wake-up, or a
        // notification given meanwhile would be lost.
        if (c.intr && !c.timed_out)
            run_pending_signals();
    }
    else
    {
        // give the others a chance before coming back
        c.runseq = ++g->wseq;
        maybe_preempt(false, pc, 0);
    }
    // reacquire
    for (;;)
    {
        if (m->__data.__lock == 0)
        {
            m->__data.__lock = 1;
            m->__data.__owner = c.id + 1;
            m->__data.__count = cnt;
            acquire((u64)m);
            break;
        }
        bool to = c.timed_out;
        block(W_MUTEX, (u64)m, false, 0, false);
        c.timed_out = to;
    }
    trace(O_RESUME, (u64)cv, pc, woken ? 0 : 1);
    return woken ? 0 : ETIMEDOUT;
}
}  // namespace

// ==== interposed: mutexes, condition variables =========================================================================================
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    bset_(m, 0, sizeof *m);
    if (a)
        m->__data.__kind = *(const int*)a & 3;
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (on())
    {
        if (m->__data.__lock)
            failf("generic", "destroy-locked", "a locked mutex is destroyed at <%x>", PC);
        sync_point(O_POINT, (u64)m, PC);
    }
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on())
        return 0;
    return mtx_lock(m, false, 0, false, PC);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on())
        return 0;
    sync_point(O_TRYLOCK, (u64)m, PC);
    check_obj(m, 8, PC);
    Fiber& c = cur();
    if (m->__data.__lock)
    {
        if (m->__data.__owner == c.id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            m->__data.__count++;
            return 0;
        }
        return EBUSY;
    }
    m->__data.__lock = 1;
    m->__data.__owner = c.id + 1;
    m->__data.__count = 1;
    acquire((u64)m);
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on())
        return 0;
    return mtx_lock(m, true, ts_ns(ts), true, PC);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t ck, const struct timespec* ts)
{
    if (!on())
        return 0;
    return mtx_lock(m, true, ts_ns(ts), is_real(ck), PC);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on())
        return 0;
    return mtx_unlock(m, PC);
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
    bset_(c, 0, sizeof *c);
    if (a && (*(const int*)a & 2))  // clock monotonic
        ((int*)c)[0] = 2;
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!on())
        return 0;
    sync_point(O_POINT, (u64)c, PC);
    for (int i = 0; i < g->nfib; i++)
        if (g->f[i].st == S_BLOCK && g->f[i].wait == W_COND && g->f[i].waddr == (u64)c)
            failf("generic", "destroy-waited", "a condition variable is destroyed while T%d waits on it, at <%x>", i, PC);
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on())
        return 0;
    return cond_wait(c, m, false, 0, false, PC);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on())
        return 0;
    return cond_wait(c, m, true, ts_ns(ts), ((int*)c)[0] != 2, PC);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts)
{
    if (!on())
        return 0;
    return cond_wait(c, m, true, ts_ns(ts), is_real(ck), PC);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on())
        return 0;
    sync_point(O_CSIGNAL, (u64)c, PC);
    check_obj(c, 8, PC);
    wake_waiters(W_COND, (u64)c, 1, true);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on())
        return 0;
    sync_point(O_CBROADCAST, (u64)c, PC);
    check_obj(c, 8, PC);
    wake_waiters(W_COND, (u64)c, MAXT, false);
    return 0;
}

// ==== rwlock: in-memory layout [0]=writer tid+1, [1]=readers ===============================================================================
EXPORT int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*)
{
    bset_(r, 0, sizeof *r);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* rw, bool wr, bool try_, bool timed, i64 dl, bool real, u32 pc)
{
    int* d = (int*)rw;
    Fiber& c = cur();
    sync_point(O_RW, (u64)rw, pc);
    check_obj(rw, 8, pc);
    for (;;)
    {
        if (wr ? d[0] == 0 && d[1] == 0 : d[0] == 0)
        {
            if (wr)
                d[0] = c.id + 1;
            else
                d[1]++;
            acquire((u64)rw);
            return 0;
        }
        if (try_)
            return EBUSY;
        if (d[0] == c.id + 1)
            return EDEADLK;
        if (!block(W_RW, (u64)rw, timed, dl, real))
            return ETIMEDOUT;
        if (c.intr)
            run_pending_signals();
    }
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* r) { return on() ? rw_lock(r, false, false, false, 0, false, PC) : 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* r) { return on() ? rw_lock(r, true, false, false, 0, false, PC) : 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { return on() ? rw_lock(r, false, true, false, 0, false, PC) : 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* r) { return on() ? rw_lock(r, true, true, false, 0, false, PC) : 0; }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* r, const struct timespec* ts) { return on() ? rw_lock(r, false, false, true, ts_ns(ts), true, PC) : 0; }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* r, const struct timespec* ts) { return on() ? rw_lock(r, true, false, true, ts_ns(ts), true, PC) : 0; }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* r, clockid_t ck, const struct timespec* ts) { return on() ? rw_lock(r, false, false, true, ts_ns(ts), is_real(ck), PC) : 0; }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* r, clockid_t ck, const struct timespec* ts) { return on() ? rw_lock(r, true, false, true, ts_ns(ts), is_real(ck), PC) : 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* r)
{
    if (!on())
        return 0;
    int* d = (int*)r;
    sync_point(O_RW, (u64)r, PC);
    if (d[0] == cur().id + 1)
        d[0] = 0;
    else if (d[1] > 0)
        d[1]--;
    else
        failf("generic", "bad-unlock", "T%d unlocks a rwlock it does not hold at <%x>", g->cur, PC);
    release((u64)r);
    wake_waiters(W_RW, (u64)r, MAXT, false);
    return 0;
}

// ==== semaphores (sem_t): [0]=value ============================================================================================================
EXPORT int sem_init(sem_t* s, int, unsigned v)
{
    bset_(s, 0, sizeof *s);
    ((int*)s)[0] = (int)v;
    return 0;
}
EXPORT int sem_destroy(sem_t*) { return 0; }
EXPORT int sem_post(sem_t* s)
{
    if (!on())
    {
        ((int*)s)[0]++;
        return 0;
    }
    sync_point(O_SEM, (u64)s, PC);
    check_obj(s, 4, PC);
    ((int*)s)[0]++;
    release((u64)s);
    wake_waiters(W_SEM, (u64)s, 1, true);
    return 0;
}
static int sem_take(sem_t* s, bool try_, bool timed, i64 dl, bool real, u32 pc)
{
    Fiber& c = cur();
    sync_point(O_SEM, (u64)s, pc);
    check_obj(s, 4, pc);
    for (;;)
    {
        if (((int*)s)[0] > 0)
        {
            ((int*)s)[0]--;
            acquire((u64)s);
            return 0;
        }
        if (try_)
        {
            errno = EAGAIN;
            return -1;
        }
        if (cfg.rate[F_EINTR] && fault_roll(F_EINTR))
        {
            errno = EINTR;
            return -1;
        }
        if (!block(W_SEM, (u64)s, timed, dl, real))
        {
            errno = ETIMEDOUT;
            return -1;
        }
        if (c.intr)
        {
            run_pending_signals();
            errno = EINTR;
            return -1;
        }
    }
}
EXPORT int sem_wait(sem_t* s) { return on() ? sem_take(s, false, false, 0, false, PC) : 0; }
EXPORT int sem_trywait(sem_t* s) { return on() ? sem_take(s, true, false, 0, false, PC) : 0; }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts) { return on() ? sem_take(s, false, true, ts_ns(ts), true, PC) : 0; }
EXPORT int sem_clockwait(sem_t* s, clockid_t ck, const struct timespec* ts) { return on() ? sem_take(s, false, true, ts_ns(ts), is_real(ck), PC) : 0; }
EXPORT int sem_getvalue(sem_t* s, int* v)
{
    *v = ((int*)s)[0];
    return 0;
}

// ==== threads =====================================================================================================================================
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!on())
        return EAGAIN;
    sync_point(O_CREATE, 0, PC);
    if (g->create_faults && cfg.rate[F_CREATE_FAIL] && fault_roll(F_CREATE_FAIL))
        return EAGAIN;
    int id = new_fiber(fn, arg);
    if (id < 0)
        failf("error", "error:too many threads", "too many threads in one run");
    Fiber& c = cur();
    Fiber& f = g->f[id];
    vjoin(f.vc, c.vc);
    c.vc.c[c.id]++;
    f.alloc_faults = f.one_alloc_fault = f.in_heap = false;
    int st = 0;
    if (at && pthread_attr_getdetachstate(at, &st) == 0 && st == PTHREAD_CREATE_DETACHED)
        f.detached = true;
    *out = (pthread_t)f.fs;
    trace(O_CREATE, id, PC, 1);
    sync_point(O_POINT, 0, PC);
    return 0;
}
static int by_handle(pthread_t t)
{
    for (int i = 0; i < g->nfib; i++)
        if (g->f[i].fs == (u64)t)
            return i;
    return -1;
}
static int do_join(pthread_t t, void** ret, bool try_, bool timed, i64 dl, bool real, u32 pc)
{
    int id = by_handle(t);
    sync_point(O_JOIN, id, pc);
    if (id < 0)
        return ESRCH;
    Fiber& f = g->f[id];
    Fiber& c = cur();
    if (id == c.id)
        return EDEADLK;
    if (f.joined || f.detached || f.joiner >= 0)
        failf("generic", "bad-join", "T%d joins T%d which was already joined or detached, at <%x>", c.id, id, pc);
    while (f.st != S_DONE)
    {
        if (try_)
            return EBUSY;
        f.joiner = c.id;
        bool w = block(W_JOIN, id, timed, dl, real);
        f.joiner = -1;
        if (c.intr)
            run_pending_signals();
        if (!w && timed)
            return ETIMEDOUT;
    }
    f.joined = true;
    acquire(0x1000 + id);
    if (ret)
        *ret = f.ret;
    return 0;
}
EXPORT int pthread_join(pthread_t t, void** ret) { return on() ? do_join(t, ret, false, false, 0, false, PC) : 0; }
EXPORT int pthread_tryjoin_np(pthread_t t, void** ret) { return on() ? do_join(t, ret, true, false, 0, false, PC) : 0; }
EXPORT int pthread_timedjoin_np(pthread_t t, void** ret, const struct timespec* ts) { return on() ? do_join(t, ret, false, true, ts_ns(ts), true, PC) : 0; }
EXPORT int pthread_detach(pthread_t t)
{
    if (!on())
        return 0;
    int id = by_handle(t);
    sync_point(O_DETACH, id, PC);
    if (id >= 0)
        g->f[id].detached = true;
    return 0;
}
EXPORT int pthread_setname_np(pthread_t, const char*) { return 0; }
EXPORT int pthread_getname_np(pthread_t, char* b, size_t n)
{
    if (n)
        b[0] = 0;
    return 0;
}
EXPORT int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
EXPORT int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
EXPORT int pthread_kill(pthread_t t, int sig)
{
    if (!on())
        return 0;
    int id = by_handle(t);
    sync_point(O_SIGNAL, sig, PC);
    if (id < 0)
        return ESRCH;
    if (id == g->cur)
        run_handler(sig);
    else
    {
        Fiber& f = g->f[id];
        if (f.st == S_DONE)
            return ESRCH;
        f.sigpend |= 1ull << sig;
        if (f.st == S_BLOCK && f.wait != W_IDLE)
        {
            f.intr = true;
            f.timed_out = false;
            make_runnable(f);
        }
    }
    return 0;
}
static int yield_(u32 pc)
{
    Fiber& c = cur();
    if (g->policy == 1)
        c.prio = g->low_prio--;
    c.runseq = ++g->wseq;
    spend(cfg.clock_tick);
    sync_point(O_YIELD, 0, pc);
    // a yield lets somebody else run by default
    int r[MAXT];
    int n = runnable(r);
    if (n > 1)
    {
        int b = 1;
        for (int i = 2; i < n; i++)
            if (g->f[r[i]].runseq < g->f[r[b]].runseq)
                b = i;
        g->schedhash = mix(g->schedhash, r[b]);
        to_fiber(r[b]);
    }
    return 0;
}
EXPORT int sched_yield() { return on() ? yield_(PC) : 0; }
EXPORT int get_nprocs() { return on() ? cfg.hw_threads : 8; }
EXPORT int get_nprocs_conf() { return on() ? cfg.hw_threads : 8; }
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!on())
    {
        if (*o == 0)
        {
            *o = 2;
            fn();
        }
        return 0;
    }
    sync_point(O_ONCE, (u64)o, PC);
    check_obj(o, 4, PC);
    while (*o == 1)
        block(W_ONCE, (u64)o, false, 0, false);
    if (*o == 2)
    {
        acquire((u64)o);
        return 0;
    }
    acquire((u64)o);
    struct Guard
    {
        pthread_once_t* o;
        bool ok = false;
        ~Guard()
        {
            *o = ok ? 2 : 0;
            release((u64)o);
            wake_waiters(W_ONCE, (u64)o, MAXT, false);
        }
    } gd{o};
    *o = 1;
    fn();
    gd.ok = true;
    return 0;
}
// function-local statics
EXPORT int __cxa_guard_acquire(int64_t* p)
{
    volatile u8* b = (volatile u8*)p;
    if (!on())
        return b[0] == 0;
    sync_point(O_GUARD, (u64)p, PC);
    while (b[1] == 1)
        block(W_GUARD, (u64)p, false, 0, false);
    acquire((u64)p);
    if (b[0])
        return 0;
    b[1] = 1;
    return 1;
}
EXPORT void __cxa_guard_release(int64_t* p)
{
    volatile u8* b = (volatile u8*)p;
    if (!on())
    {
        b[0] = 1;
        return;
    }
    sync_point(O_GUARD, (u64)p, PC);
    b[0] = 1;
    b[1] = 0;
    release((u64)p);
    wake_waiters(W_GUARD, (u64)p, MAXT, false);
}
EXPORT void __cxa_guard_abort(int64_t* p)
{
    volatile u8* b = (volatile u8*)p;
    if (!on())
        return;
    b[1] = 0;
    release((u64)p);
    wake_waiters(W_GUARD, (u64)p, MAXT, false);
}
// pthread barriers
EXPORT int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n)
{
    bset_(b, 0, sizeof *b);
    ((unsigned*)b)[0] = n;
    return 0;
}
EXPORT int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
EXPORT int pthread_barrier_wait(pthread_barrier_t* b)
{
    if (!on())
        return 0;
    unsigned* d = (unsigned*)b;
    sync_point(O_BARRIER, (u64)b, PC);
    release((u64)b);
    if (++d[1] >= d[0])
    {
        d[1] = 0;
        wake_waiters(W_BARRIER, (u64)b, MAXT, false);
        acquire((u64)b);
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    block(W_BARRIER, (u64)b, false, 0, false);
    acquire((u64)b);
    return 0;
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*)
{
    if (!on())
        return 0;
    Fiber& c = cur();
    if (c.ndtor < 16)
        c.dtor[c.ndtor++] = {fn, arg};
    return 0;
}

// ==== futex, sleeping, clocks ===========================================================================================================================
namespace
{
int do_futex(u32* addr, int op, u32 val, const struct timespec* ts, u32 val3, u32 pc)
{
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    Fiber& c = cur();
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
    {
        sync_point(O_FWAIT, (u64)addr, pc);
        heap_check((u64)addr, 4, false, pc);
        if (*(volatile u32*)addr != val)
        {
            errno = EAGAIN;
            return -1;
        }
        if (cfg.rate[F_SPURIOUS_FUTEX] && fault_roll(F_SPURIOUS_FUTEX))
            return 0;
        if (cfg.rate[F_EINTR] && fault_roll(F_EINTR))
        {
            errno = EINTR;
            return -1;
        }
        bool timed = ts != nullptr;
        bool real = cmd == FUTEX_WAIT_BITSET && (op & FUTEX_CLOCK_REALTIME);
        i64 dl = 0;
        if (timed)
        {
            dl = ts_ns(ts);
            if (cmd == FUTEX_WAIT && dl < INT64_MAX - g->now)
                dl += g->now;
        }
        c.wmask = cmd == FUTEX_WAIT_BITSET ? val3 : ~0ull;
        bool w = block(W_FUTEX, (u64)addr, timed, dl, real);
        c.wmask = ~0ull;
        trace(O_RESUME, (u64)addr, pc, w ? 0 : 1);
        if (!w)
        {
            errno = ETIMEDOUT;
            return -1;
        }
        if (c.intr)
        {
            run_pending_signals();
            errno = EINTR;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
    {
        sync_point(O_FWAKE, (u64)addr, pc);
        return wake_waiters(W_FUTEX, (u64)addr, val > MAXT ? MAXT : (int)val, true, cmd == FUTEX_WAKE_BITSET ? val3 : ~0ull);
    }
    errno = ENOSYS;
    return -1;
}
int do_sleep(i64 deadline, bool real, u32 pc, struct timespec* rem)
{
    Fiber& c = cur();
    sync_point(O_SLEEP, 0, pc);
    if (cfg.rate[F_EINTR] && fault_roll(F_EINTR))
    {
        // interrupted part of the way through
        i64 left = deadline - (real ? g->now + g->wall_off : g->now);
        if (left > 0)
        {
            i64 part = left / 2;
            if (part > 0)
                block(W_SLEEP, 0, true, g->now + part, false);
            left = deadline - (real ? g->now + g->wall_off : g->now);
            if (left > 0)
            {
                if (rem)
                {
                    rem->tv_sec = left / 1000000000;
                    rem->tv_nsec = left % 1000000000;
                }
                return EINTR;
            }
            return 0;
        }
    }
    if (deadline <= (real ? g->now + g->wall_off : g->now))
        return 0;
    block(W_SLEEP, 0, true, deadline, real);
    if (c.intr && !c.timed_out)
    {
        run_pending_signals();
        i64 left = deadline - (real ? g->now + g->wall_off : g->now);
        if (left > 0)
        {
            if (rem)
            {
                rem->tv_sec = left / 1000000000;
                rem->tv_nsec = left % 1000000000;
            }
            return EINTR;
        }
    }
    return 0;
}
i64 clock_value(bool real)
{
    i64 v = g->now;
    if (cfg.clock_granularity > 1)
        v = v / cfg.clock_granularity * cfg.clock_granularity;
    return real ? v + g->wall_off : v;
}
i64 read_clock(bool real, u32 pc)
{
    sync_point(O_CLOCK, real, pc);
    spend(cfg.clock_tick);
    i64 v = clock_value(real);
    if (real)
    {
        g->wall_reads++;
        g->last_wall = v;
    }
    g->hash = mix(g->hash, v);
    return v;
}
long real_clock(clockid_t ck, struct timespec* ts) { return raw_syscall(SYS_clock_gettime, ck, (long)ts); }
}  // namespace

EXPORT long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on() && n == SYS_futex)
        return do_futex((u32*)a, (int)b, (u32)c, (const struct timespec*)d, (u32)f, PC);
    if (on() && n == SYS_clock_gettime)
    {
        i64 v = read_clock(is_real((clockid_t)a), PC);
        ((struct timespec*)b)->tv_sec = v / 1000000000;
        ((struct timespec*)b)->tv_nsec = v % 1000000000;
        return 0;
    }
    if (on() && n == SYS_gettid)
        return 1000 + g->cur;
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return -1;
    }
    return r;
}
EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (!on())
        return (int)raw_syscall(SYS_nanosleep, (long)ts, (long)rem);
    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
    {
        errno = EINVAL;
        return -1;
    }
    i64 d = ts_ns(ts);
    int r = do_sleep(d > INT64_MAX - g->now ? INT64_MAX : g->now + d, false, PC, rem);
    if (r)
    {
        errno = r;
        return -1;
    }
    return 0;
}
EXPORT int clock_nanosleep(clockid_t ck, int flags, const struct timespec* ts, struct timespec* rem)
{
    if (!on())
        return (int)-raw_syscall(SYS_clock_nanosleep, ck, flags, (long)ts, (long)rem);
    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
        return EINVAL;
    i64 d = ts_ns(ts);
    if (flags & TIMER_ABSTIME)
        return do_sleep(d, is_real(ck), PC, nullptr);
    return do_sleep(d > INT64_MAX - g->now ? INT64_MAX : g->now + d, false, PC, rem);
}
EXPORT int usleep(useconds_t us)
{
    if (!on())
        return 0;
    int r = do_sleep(g->now + (i64)us * 1000, false, PC, nullptr);
    if (r)
    {
        errno = r;
        return -1;
    }
    return 0;
}
EXPORT unsigned sleep(unsigned s)
{
    if (!on())
        return 0;
    struct timespec rem;
    rem.tv_sec = 0;
    if (do_sleep(g->now + (i64)s * 1000000000, false, PC, &rem))
        return (unsigned)rem.tv_sec + 1;
    return 0;
}
EXPORT int clock_gettime(clockid_t ck, struct timespec* ts)
{
    if (!on())
        return (int)real_clock(ck, ts);
    i64 v = read_clock(is_real(ck), PC);
    i64 s = v / 1000000000, n = v % 1000000000;
    if (n < 0)
    {
        n += 1000000000;
        s--;
    }
    ts->tv_sec = s;
    ts->tv_nsec = n;
    return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    if (!on())
        real_clock(CLOCK_REALTIME, &ts);
    else
    {
        i64 v = read_clock(true, PC);
        ts.tv_sec = v / 1000000000;
        ts.tv_nsec = v % 1000000000;
    }
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t* t)
{
    struct timespec ts;
    if (!on())
        real_clock(CLOCK_REALTIME, &ts);
    else
        ts.tv_sec = read_clock(true, PC) / 1000000000;
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

// ==== signals, process end ======================================================================================================================================
EXPORT __sighandler_t signal(int sig, __sighandler_t h) noexcept
{
    if (!g_mapped || !g->in_run || sig < 1 || sig > 63)
        return SIG_DFL;
    if (on())
        sync_point(O_SIGNAL, sig, PC);
    __sighandler_t old = g->sig[sig].h;
    g->sig[sig].h = h;
    g->sig[sig].flags = SA_RESTART;
    g->sig[sig].mask = 0;
    return old;
}
EXPORT int sigaction(int sig, const struct sigaction* a, struct sigaction* o) noexcept
{
    if (!g_mapped || !g->in_run || sig < 1 || sig > 63)
        return 0;
    if (on())
        sync_point(O_SIGNAL, sig, PC);
    if (o)
    {
        bset_(o, 0, sizeof *o);
        o->sa_handler = g->sig[sig].h;
        o->sa_flags = g->sig[sig].flags;
        *(u64*)&o->sa_mask = g->sig[sig].mask >> 1;
    }
    if (a)
    {
        g->sig[sig].h = a->sa_handler;
        g->sig[sig].flags = a->sa_flags;
        g->sig[sig].mask = *(const u64*)&a->sa_mask << 1;
    }
    return 0;
}
EXPORT int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) noexcept
{
    if (!on())
        return 0;
    sync_point(O_SIGNAL, 0, PC);
    Fiber& c = cur();
    if (old)
    {
        bset_(old, 0, sizeof *old);
        *(u64*)old = c.sigblock >> 1;
    }
    if (set)
    {
        u64 m = *(const u64*)set << 1;
        if (how == SIG_BLOCK)
            c.sigblock |= m;
        else if (how == SIG_UNBLOCK)
            c.sigblock &= ~m;
        else
            c.sigblock = m;
        run_pending_signals();
    }
    return 0;
}
EXPORT int sigprocmask(int how, const sigset_t* set, sigset_t* old) noexcept { return pthread_sigmask(how, set, old); }
EXPORT int raise(int sig) noexcept
{
    if (!on())
        return 0;
    sync_point(O_SIGNAL, sig, PC);
    run_handler(sig);
    return 0;
}
EXPORT int kill(pid_t p, int sig) noexcept
{
    if (!on())
        return (int)raw_syscall(SYS_kill, p, sig);
    sync_point(O_SIGNAL, sig, PC);
    run_handler(sig);
    return 0;
}
EXPORT void abort() noexcept
{
    if (g_mapped && g->active)
    {
        const std::type_info* ti = abi::__cxa_current_exception_type();
        failf("generic", "terminate", "the process terminates (std::terminate/abort) in T%d%s%s at <%x> (called from <%x>)", g->cur, ti ? " on an uncaught exception of type " : "",
              ti ? ti->name() : "", PC, caller_pc());
    }
    if (g_mapped && g->in_run)
        failf("generic", "terminate", "the process terminates (std::terminate/abort)");
    raw_syscall(SYS_kill, raw_syscall(SYS_getpid), SIGKILL);
    for (;;)
        ;
}
EXPORT void exit(int c) noexcept
{
    if (g_mapped && g->in_run)
        failf("generic", "exit", "the process exits (exit(%d)) in T%d at <%x>", c, g->cur, PC);
    fflush(nullptr);
    raw_syscall(SYS_exit_group, c);
    for (;;)
        ;
}
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept
{
    if (g_mapped && g->in_run)
        failf("generic", "assert", "assertion failed: %s (%s:%u)", e, f, l);
    fprintf(stderr, "assert %s %s:%u\n", e, f, l);
    raw_syscall(SYS_exit_group, 70);
    for (;;)
        ;
}

// ==== environment =====================================================================================================================================================
extern char** environ;
EXPORT char* getenv(const char* n) noexcept
{
    if (g_mapped && g->in_run)
    {
        if (on())
            sync_point(O_POINT, 0, PC);
        for (auto& e : g->env)
            if (e[0] && !__builtin_strcmp(e[0], n))
                return (char*)e[1];
        return nullptr;
    }
    u64 l = __builtin_strlen(n);
    for (char** e = environ; e && *e; e++)
    {
        u64 i = 0;
        while (i < l && (*e)[i] == n[i])
            i++;
        if (i == l && (*e)[i] == '=')
            return *e + i + 1;
    }
    return nullptr;
}
EXPORT char* secure_getenv(const char* n) noexcept { return getenv(n); }

// ==== random_device =================================================================================================================================================
namespace std
{
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval()
{
    if (on())
    {
        sync_point(O_RDEV, 0, PC);
        if (cfg.rate[F_RDEV_FAIL] && fault_roll(F_RDEV_FAIL))
            throw std::runtime_error("random_device: device not available (simulated)");
    }
    if (!g_mapped || !g->in_run)
        return 4;
    // 32 bits repeat sooner or later; a process that draws often sees it happen, one that draws a few seeds does not
    u32 k = g->rdev_draws++;
    if (k >= 30 && g->active && cfg.rate[F_RDEV_REPEAT] && fault_roll(F_RDEV_REPEAT))
        k = (u32)(k / 2);
    u32 x = k ^ g->rdev_key;
    x = (x ^ (x >> 16)) * 0x7feb352dU;  // a bijection
    x = (x ^ (x >> 15)) * 0x846ca68bU;
    return (x ^ (x >> 16)) + (u32)(g->rdev_key >> 32);
}
}

// ==== heap ============================================================================================================================================================
namespace
{
HeapHdr* hdr_of(u64 p) { return (HeapHdr*)(p - sizeof(HeapHdr)); }
HeapHdr* find_hdr(u64 a)
{
    // walk back over the state map to the header (unallocated granules precede a block)
    u64 lo = g->bump0, p = a & ~15ull;
    for (int i = 0; i < (1 << 16) && p >= lo + sizeof(HeapHdr); i++, p -= 16)
    {
        HeapHdr* h = hdr_of(p);
        if (h->magic == (0x51D0A110C0000000ull ^ p))
            return h;
    }
    return nullptr;
}
void* sim_alloc(size_t n, size_t align, u32 pc)
{
    if (n > HEAP_SIZE / 2)
        return nullptr;
    if (align < 16)
        align = 16;
    u64 p = (g->bump + sizeof(HeapHdr) + align - 1) & ~(u64)(align - 1);
    u64 end = (p + n + 15) & ~15ull;
    end += 16;
    if (end > REGION + HEAP_SIZE)
        failf("error", "error:arena exhausted", "simulated heap exhausted");
    g->bump = end;
    HeapHdr* h = hdr_of(p);
    *h = {n, pc, 0, (u16)g->cur, 0, 1, 0x51D0A110C0000000ull ^ p};
    u8* st = (u8*)HSTATE + ((p - REGION) >> 3);
    u64 full = n >> 3;
    bset_(st, 8, full);
    if (n & 7)
        st[full] = n & 7;
    bset_((void*)p, 0xA5, n);
    g->live++;
    return (void*)p;
}
void sim_free(u64 p, u32 pc)
{
    HeapHdr* h = hdr_of(p);
    if (p < g->bump0 + sizeof(HeapHdr) || p >= g->bump || h->magic != (0x51D0A110C0000000ull ^ p))
        failf("generic", "bad-free", "T%d frees an address that is not a heap block, at <%x> (called from <%x>)", g->cur, pc, caller_pc());
    if (h->state != 1)
        failf("generic", "double-free", "double free: T%d frees at <%x> (called from <%x>) a %llu-byte block already freed at <%x> by T%d", g->cur, pc, caller_pc(),
              (unsigned long long)h->size, h->free_pc, h->free_tid);
    if (g->active && h->size)
    {
        u64 n = h->size > 4096 ? 4096 : h->size;
        for (u64 o = 0; o < n; o += 8)
            shadow_one(p + o, (u8)(n - o >= 8 ? 0xff : (1u << (n - o)) - 1), true, false, pc);
    }
    h->state = 2;
    h->free_pc = pc;
    h->free_tid = (u16)g->cur;
    bset_((u8*)HSTATE + ((p - REGION) >> 3), 0xF, (h->size + 7) >> 3);
    if (h->size <= 65536)
        bset_((void*)p, 0xDD, h->size);
    g->live--;
    g->spin_points = 0;
}
// host heap: power-of-two free lists, 16-byte header holding the class
void* host_alloc(size_t n, size_t align)
{
    map_all();
    size_t need = n + 16 + (align > 16 ? align : 0);
    int cls = 5;
    while ((1ull << cls) < need)
        cls++;
    u64 b = g->host_free[cls];
    if (b)
        g->host_free[cls] = *(u64*)b;
    else
    {
        b = g->host_bump;
        g->host_bump += 1ull << cls;
        if (g->host_bump > HOST_HEAP + HOST_HEAP_SIZE)
            die("sim: host heap exhausted");
    }
    u64 p = b + 16;
    if (align > 16)
        p = (p + align - 1) & ~(u64)(align - 1);
    ((u64*)p)[-1] = ((u64)cls << 56) | (b - HOST_HEAP);
    ((u64*)p)[-2] = n;
    return (void*)p;
}
void host_dealloc(u64 p)
{
    u64 w = ((u64*)p)[-1];
    int cls = (int)(w >> 56);
    u64 b = HOST_HEAP + (w & ((1ull << 56) - 1));
    *(u64*)b = g->host_free[cls];
    g->host_free[cls] = b;
}
void* libc_alloc(size_t n, size_t align)
{
    if (align < 16)
        align = 16;
    u64 p = (g->libc_bump + 16 + align - 1) & ~(u64)(align - 1);
    ((u64*)p)[-2] = n;
    g->libc_bump = (p + n + 15) & ~15ull;
    if (g->libc_bump > LIBC_HEAP + LIBC_HEAP_SIZE)
        die("sim: libc heap exhausted");
    return (void*)p;
}
bool from_libc(u64 ra) { return (ra >= g->libc_lo && ra < g->libc_hi) || (ra >= g->ld_lo && ra < g->ld_hi); }

// The heap is not re-entrant: an armed signal may arrive while its lock is held, and a handler that allocates or frees then never returns.
void heap_point(u64 pc)
{
    Fiber& c = cur();
    if (c.in_heap)
        failf("generic", "heap-reentered", "deadlock: T%d's signal handler allocates or frees memory at <%x> (called from <%x>) although it interrupts the allocator itself", g->cur, (u32)pc, caller_pc());
    if (!g->arm_left)
        return;
    c.in_heap = true;
    maybe_signal(g->dec_idx++);
    c.in_heap = false;
}
void* any_alloc(size_t n, size_t align, u64 ra)
{
    map_all();
    if (g->active)
        heap_point(ra);
    if (g->capturing)
    {
        void* p = libc_alloc(n, align);
        g->cap_base = (u64)p;
        g->cap_size = n;
        return p;
    }
    if (g->in_run && !from_libc(ra))
        return sim_alloc(n, align, (u32)ra);
    if (g->in_run)
        return libc_alloc(n, align);
    return host_alloc(n, align);
}
void any_free(void* q, u64 ra)
{
    u64 p = (u64)q;
    if (!p)
        return;
    if (p - REGION < HEAP_SIZE)
    {
        if (g->active)
            heap_point(ra);
        if (g->in_run)
            sim_free(p, (u32)ra);
        return;
    }
    if (p - LIBC_HEAP < LIBC_HEAP_SIZE)
        return;
    if (p - HOST_HEAP < HOST_HEAP_SIZE)
    {
        if (!g->in_run)
            host_dealloc(p);
        return;
    }
}
size_t any_size(void* q)
{
    u64 p = (u64)q;
    if (p - REGION < HEAP_SIZE)
        return hdr_of(p)->size;
    return ((u64*)p)[-2];
}
bool alloc_should_fail()
{
    if (!on() || !cur().alloc_faults || !cfg.rate[F_ALLOC_FAIL] || !fault_roll(F_ALLOC_FAIL))
        return false;
    if (cur().one_alloc_fault)
        cur().alloc_faults = false;
    return true;
}
void* op_new(size_t n, size_t al, u64 ra)
{
    if (alloc_should_fail())
        return nullptr;
    return any_alloc(n ? n : 1, al, ra);
}
}  // namespace
#define RA ((u64)__builtin_return_address(0))
EXPORT void* malloc(size_t n) { return any_alloc(n, 16, RA); }
EXPORT void free(void* p) { any_free(p, RA); }
EXPORT void* calloc(size_t a, size_t b)
{
    void* p = any_alloc(a * b, 16, RA);
    if (p)
        bset_(p, 0, a * b);
    return p;
}
EXPORT void* realloc(void* p, size_t n)
{
    void* q = any_alloc(n, 16, RA);
    if (p && q)
    {
        size_t o = any_size(p);
        bcopy_(q, p, o < n ? o : n);
        any_free(p, RA);
    }
    return q;
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return any_alloc(n, al, RA); }
EXPORT void* memalign(size_t al, size_t n) { return any_alloc(n, al, RA); }
EXPORT int posix_memalign(void** o, size_t al, size_t n)
{
    *o = any_alloc(n, al, RA);
    return *o ? 0 : ENOMEM;
}
EXPORT size_t malloc_usable_size(void* p) { return p ? any_size(p) : 0; }
void* operator new(size_t n)
{
    void* p = op_new(n, 16, RA);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    void* p = op_new(n, 16, RA);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, RA); }
void* operator new(size_t n, std::align_val_t a)
{
    void* p = op_new(n, (size_t)a, RA);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n, std::align_val_t a)
{
    void* p = op_new(n, (size_t)a, RA);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { any_free(p, RA); }
void operator delete[](void* p) noexcept { any_free(p, RA); }
void operator delete(void* p, size_t) noexcept { any_free(p, RA); }
void operator delete[](void* p, size_t) noexcept { any_free(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { any_free(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { any_free(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { any_free(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { any_free(p, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { any_free(p, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { any_free(p, RA); }

// ==== memory functions called from instrumented code ======================================================================================================================
namespace
{
inline bool from_exe(u64 ra) { return ra >= (u64)&__executable_start && ra < (u64)&etext; }
inline void range(const void* p, size_t n, bool w, u64 ra)
{
    if (n && on() && from_exe(ra))
    {
        mem_point((u64)p, (u32)ra);
        access((u64)p, n > 4096 ? 4096 : (unsigned)n, w, false, (u32)ra);
    }
}
}
EXPORT void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept
{
    if (UNLIKELY(g_mapped))
    {
        range(s, n, false, RA);
        range(d, n, true, RA);
    }
    bcopy_(d, s, n);
    return d;
}
EXPORT void* memmove(void* d, const void* s, size_t n) noexcept
{
    if (UNLIKELY(g_mapped))
    {
        range(s, n, false, RA);
        range(d, n, true, RA);
    }
    if ((u64)d - (u64)s >= n)
        bcopy_(d, s, n);
    else
        for (size_t i = n; i-- > 0;)
            ((volatile char*)d)[i] = ((const volatile char*)s)[i];
    return d;
}
EXPORT void* memset(void* d, int v, size_t n) noexcept
{
    if (UNLIKELY(g_mapped))
        range(d, n, true, RA);
    bset_(d, v, n);
    return d;
}
EXPORT int memcmp(const void* a, const void* b, size_t n) noexcept
{
    if (UNLIKELY(g_mapped))
    {
        range(a, n, false, RA);
        range(b, n, false, RA);
    }
    const volatile u8 *x = (const volatile u8*)a, *y = (const volatile u8*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i])
            return x[i] < y[i] ? -1 : 1;
    return 0;
}

// ==== exception objects are reference-counted inside libstdc++.so: give them happens-before edges ==============================================================================
EXPORT void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void* self)
{
    if (!g->real_addref)
        g->real_addref = (void (*)(void*))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
    g->real_addref(self);
}
static void eh_edge()
{
    if (on())
    {
        Fiber& c = cur();
        vjoin(c.vc, g->ehvc);
        vjoin(g->ehvc, c.vc);
        c.vc.c[c.id]++;
    }
}
EXPORT void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* self)
{
    if (!g->real_release)
        g->real_release = (void (*)(void*))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    eh_edge();
    g->real_release(self);
}
EXPORT void __cxa_end_catch()
{
    if (!g->real_end_catch)
        g->real_end_catch = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch");
    eh_edge();
    g->real_end_catch();
}

// ==== instrumentation call-outs ===============================================================================================================================================
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc)
{
    if (!on())
        return;
    Fiber& c = cur();
    if (c.cs < 256)
        c.callstack[c.cs] = (u32)(u64)pc;
    c.cs++;
    if (UNLIKELY((u64)__builtin_frame_address(0) < STACKS + (u64)c.id * STACK_SIZE + 24 * 1024))
        failf("generic", "stack-overflow", "stack overflow in T%d", c.id);
}
EXPORT void __tsan_func_exit()
{
    if (!on())
        return;
    Fiber& c = cur();
    if (c.cs > 0)
        c.cs--;
}
#define ACC(name, size, w)                           \
    EXPORT void name(void* a)                        \
    {                                                \
        if (!on())                                   \
            return;                                  \
        u32 pc = PC;                                 \
        mem_point((u64)a, pc);                       \
        access((u64)a, size, w, false, pc);          \
    }
ACC(__tsan_read1, 1, false)
ACC(__tsan_read2, 2, false)
ACC(__tsan_read4, 4, false)
ACC(__tsan_read8, 8, false)
ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true)
ACC(__tsan_write2, 2, true)
ACC(__tsan_write4, 4, true)
ACC(__tsan_write8, 8, true)
ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false)
ACC(__tsan_unaligned_read4, 4, false)
ACC(__tsan_unaligned_read8, 8, false)
ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true)
ACC(__tsan_unaligned_write4, 4, true)
ACC(__tsan_unaligned_write8, 8, true)
ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false)
ACC(__tsan_volatile_read2, 2, false)
ACC(__tsan_volatile_read4, 4, false)
ACC(__tsan_volatile_read8, 8, false)
ACC(__tsan_volatile_read16, 16, false)
ACC(__tsan_volatile_write1, 1, true)
ACC(__tsan_volatile_write2, 2, true)
ACC(__tsan_volatile_write4, 4, true)
ACC(__tsan_volatile_write8, 8, true)
ACC(__tsan_volatile_write16, 16, true)
EXPORT void __tsan_vptr_update(void** p, void* v)
{
    if (!on())
        return;
    // writing the same vptr again (destructor of the most derived class) is not a conflicting write
    u32 pc = PC;
    mem_point((u64)p, pc);
    access((u64)p, 8, *p != v, false, pc);
}
EXPORT void __tsan_vptr_read(void** p)
{
    if (!on())
        return;
    u32 pc = PC;
    mem_point((u64)p, pc);
    access((u64)p, 8, false, false, pc);
}
EXPORT void __tsan_read_range(void* p, unsigned long n)
{
    if (!on() || !n)
        return;
    u32 pc = PC;
    mem_point((u64)p, pc);
    access((u64)p, n > 65536 ? 65536 : (unsigned)n, false, false, pc);
}
EXPORT void __tsan_write_range(void* p, unsigned long n)
{
    if (!on() || !n)
        return;
    u32 pc = PC;
    mem_point((u64)p, pc);
    access((u64)p, n > 65536 ? 65536 : (unsigned)n, true, false, pc);
}
namespace
{
inline bool is_acq(int mo) { mo &= 0xf; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { mo &= 0xf; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
template <class T, class F>
inline T rmw(T* a, int mo, F f, u32 pc)
{
    if (!on())
    {
        T o = *a;
        *a = f(o);
        return o;
    }
    sync_point(O_ATOMIC, (u64)a, pc);
    access((u64)a, sizeof(T), true, true, pc);
    T o = *a;
    *a = f(o);
    if (is_acq(mo))
        acquire((u64)a);
    if (is_rel(mo))
        release((u64)a);
    return o;
}
template <class T>
inline T aload(const T* a, int mo, u32 pc)
{
    if (!on())
        return *a;
    sync_point(O_ATOMIC, (u64)a, pc);
    access((u64)a, sizeof(T), false, true, pc);
    T v = *(const volatile T*)a;
    if (is_acq(mo))
        acquire((u64)a);
    return v;
}
template <class T>
inline void astore(T* a, T v, int mo, u32 pc)
{
    if (!on())
    {
        *a = v;
        return;
    }
    sync_point(O_ATOMIC, (u64)a, pc);
    access((u64)a, sizeof(T), true, true, pc);
    *a = v;
    if (is_rel(mo))
        release_store((u64)a);
    else
        bset_(&sync_of((u64)a), 0, sizeof(VC));  // a relaxed store ends the release sequence
}
template <class T>
inline bool acas(T* a, T* e, T v, int mo, int fmo, u32 pc)
{
    if (!on())
    {
        if (*a == *e)
        {
            *a = v;
            return true;
        }
        *e = *a;
        return false;
    }
    sync_point(O_ATOMIC, (u64)a, pc);
    T o = *(volatile T*)a;
    if (o == *e)
    {
        access((u64)a, sizeof(T), true, true, pc);
        *a = v;
        if (is_acq(mo))
            acquire((u64)a);
        if (is_rel(mo))
            release((u64)a);
        return true;
    }
    access((u64)a, sizeof(T), false, true, pc);
    if (is_acq(fmo))
        acquire((u64)a);
    *e = o;
    return false;
}
}
#define ATOM(N, T)                                                                                                                                   \
    EXPORT T __tsan_atomic##N##_load(const volatile void* a, int mo) { return aload((const T*)a, mo, PC); }                                          \
    EXPORT void __tsan_atomic##N##_store(volatile void* a, T v, int mo) { astore((T*)a, v, mo, PC); }                                                \
    EXPORT T __tsan_atomic##N##_exchange(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T) { return v; }, PC); }                         \
    EXPORT T __tsan_atomic##N##_fetch_add(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T o) { return (T)(o + v); }, PC); }             \
    EXPORT T __tsan_atomic##N##_fetch_sub(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T o) { return (T)(o - v); }, PC); }             \
    EXPORT T __tsan_atomic##N##_fetch_and(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T o) { return (T)(o & v); }, PC); }             \
    EXPORT T __tsan_atomic##N##_fetch_or(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T o) { return (T)(o | v); }, PC); }              \
    EXPORT T __tsan_atomic##N##_fetch_xor(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T o) { return (T)(o ^ v); }, PC); }             \
    EXPORT T __tsan_atomic##N##_fetch_nand(volatile void* a, T v, int mo) { return rmw((T*)a, mo, [v](T o) { return (T) ~(o & v); }, PC); }          \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile void* a, void* e, T v, int mo, int fmo) { return acas((T*)a, (T*)e, v, mo, fmo, PC); } \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile void* a, void* e, T v, int mo, int fmo) { return acas((T*)a, (T*)e, v, mo, fmo, PC); }   \
    EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile void* a, T e, T v, int mo, int fmo)                                                    \
    {                                                                                                                                                \
        acas((T*)a, &e, v, mo, fmo, PC);                                                                                                             \
        return e;                                                                                                                                    \
    }
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
ATOM(128, unsigned __int128)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!on())
        return;
    sync_point(O_FENCE, 0, PC);
    Fiber& c = cur();
    if (is_acq(mo))
        vjoin(c.vc, g->fencevc);
    if (is_rel(mo))
    {
        vjoin(g->fencevc, c.vc);
        c.vc.c[c.id]++;
    }
}
EXPORT void __tsan_atomic_signal_fence(int) {}
EXPORT void __sanitizer_cov_trace_pc()
{
    if (!on())
        return;
    if (UNLIKELY(++g->bb > cfg.step_cap))
        failf("generic", "livelock", "livelock: the run is still going after %lld basic blocks and %lld ns of simulated time (T%d at <%x>)", (long long)g->bb, (long long)g->now, g->cur, PC);
    u32 off = PC - (u32)(u64)&__executable_start;
    if (off < (32u << 20))
    {
        u8& b = g->cov[off >> 3];
        u8 m = (u8)(1u << (off & 7));
        if (!(b & m))
            b |= m;
    }
}

// ==== harness API ==================================================================================================================================================================
namespace sim
{
int64_t draw(int64_t lo, int64_t hi)
{
    Result* r = g->res;
    int64_t v;
    if (g->plan_replay)
    {
        int p = g->plan_cursor++;
        v = p < r->nplan ? r->plan[p] : lo;
        if (v < lo)
            v = lo;
        if (v > hi)
            v = hi;
        return v;
    }
    u64 span = (u64)(hi - lo) + 1;
    u64 x = splitmix(g->plan_rng);
    v = span == 0 ? (i64)x : lo + (i64)(((unsigned __int128)x * span) >> 64);
    if (r->nplan < MAXPLAN)
        r->plan[r->nplan++] = v;
    return v;
}
bool chance(int num, int den)
{
    // 0..den-1; value >= den-num means true, so that shrinking to 0 means false
    return draw(0, den - 1) >= den - num;
}
int64_t one_of(const int64_t* v, int n) { return v[draw(0, n - 1)]; }
uint64_t fresh_seed() { return splitmix(g->data_rng); }

bool enable(fault f, int num, int den)
{
    if (!chance(num, den))
        return false;
    static const int64_t rates[] = {8, 3, 20, 60, 200};
    cfg.rate[f] = (int)one_of(rates);
    return true;
}
void swarm_schedule_faults()
{
    enable(F_SPURIOUS_CV, 1, 3);
    enable(F_SPURIOUS_FUTEX, 1, 4);
    enable(F_EINTR, 1, 4);
    enable(F_WAKE_ORDER, 1, 2);
}
void swarm_time_faults(int64_t scale)
{
    cfg.stall_max = scale;
    enable(F_THREAD_STALL, 1, 4);
    enable(F_PROCESS_PAUSE, 1, 6);
    enable(F_TIMER_LATE, 1, 4);
}
static void finish_setup()
{
    g->faults_left = cfg.max_faults;
    if (cfg.clock_granularity > 1)
        count_fault(F_COARSE_CLOCK);
    // schedule policy of this run (generative only; replay follows the list)
    g->policy = 0;
    u64 k = rndn(10);
    if (k < 4)
    {
        g->policy = 1;  // PCT
        static const u64 lens[] = {100, 400, 1500, 6000, 30000};
        u64 len = lens[rndn(5)];
        g->nchange = (int)rndn(6);
        for (int i = 0; i < g->nchange; i++)
            g->change_at[i] = 1 + rndn(len);
    }
    else if (k == 9)
        g->policy = 2;  // run to block, preemption only between memory accesses
    static const u32 ps[] = {500, 250, 100, 30, 10};
    g->p_sync = ps[rndn(5)];
    static const u32 pm[] = {0, 0, 0, 400, 100, 20, 5};
    g->p_mem = pm[rndn(7)];
    if (g->policy == 2 && !g->p_mem)
        g->p_mem = 50;
    if (g->policy == 1 && g->p_mem)
        g->p_mem = 3;
    g->low_prio = 1u << 20;
    set_mem_countdown();
}
void run(void (*body)(void*), void* arg)
{
    if (g->simulating)
        die("sim: nested run");
    finish_setup();
    g->body = body;
    g->body_arg = arg;
    g->body_done = false;
    // Time since boot: one second, or shortly before the overflow of some small representation of it, or very long.
    g->now = 1'000'000'000;
    if (chance(1, 4))
    {
        constexpr i64 ms = 1'000'000, us = 1000, day = 86'400'000'000'000;
        static const i64 up[] = {0, (1LL << 31) - 3 * ms, (1LL << 32) - 3 * ms, (1LL << 31) * us - 20 * ms, (1LL << 32) * us - 20 * ms, (1LL << 31) * ms - 30 * ms, (1LL << 32) * ms - 30 * ms, 3000 * day, 11000 * day};
        g->now = up[draw(0, 8)];
    }
    g->boot = g->now;
    g->wall_off = cfg.wall_start - g->now + 1'000'000'000;
    g->nfib = g->ncreated = 0;
    g->alive = 0;
    g->end_status = V_OK;
    g->live = 0;
    __libc_single_threaded = 0;
    int id = new_fiber(nullptr, nullptr);
    g->simulating = true;
    g->host_fs = get_fs();
    g->cur = id;
    g->active = true;
    set_fs(g->f[id].fs);
    sim_switch(&g->host_sp, g->f[id].sp);
    // back on the host
    g->active = false;
    g->simulating = false;
    if (g->res->status == V_VIOL)
        __builtin_longjmp(g->host_jmp, 1);
}
int64_t now() { return g->now; }
int64_t wall() { return g->now + g->wall_off; }
int64_t busy() { return g->busy; }
int64_t injected()
{
    i64 d = g->injected;
    for (int i = 0; i < g->nfib; i++)
        d += delay_passed(g->f[i]);
    return d;
}
int64_t total_slack() { return g->busy + injected(); }
uint64_t seq() { return ++g->seqno; }
int64_t points() { return g->points; }
int self() { return g->active ? g->cur : -1; }
void wait_idle()
{
    sync_point(O_POINT, 0, PC);
    block(W_IDLE, 0, false, 0, false);
}
bool fault_now(fault f) { return fault_roll(f); }
int64_t fault_value(int64_t n)
{
    if (n <= 1 || !g->active)
        return 0;
    return (int64_t)decide(n, [&]() -> u64 { return rndn(n); });
}
void point() { sync_point(O_POINT, 0, PC); }
void set_alloc_faults(bool v, bool only_one)
{
    if (on())
    {
        cur().alloc_faults = v;
        cur().one_alloc_fault = only_one;
    }
}
void set_create_faults(bool v) { g->create_faults = v; }
void no_faults(bool v)
{
    g->faults_off = v;
    if (!v)
        return;
    // timers that would have been late are not
    for (int i = 0; i < g->nfib; i++)
        if (g->f[i].st == S_BLOCK && g->f[i].has_dl && g->f[i].late > 0)
            g->f[i].late = delay_passed(g->f[i]);
    expire_timers();
}
void work(int64_t ns)
{
    sync_point(O_POINT, 0, PC);
    if (ns > 0)
        stall_current(ns, false);
}
void deliver_signal(int sig)
{
    sync_point(O_SIGNAL, sig, PC);
    run_handler(sig);
}
void arm_signals(const int* sigs, int n, int count)
{
    for (int i = 0; i < n && i < 8; i++)
        g->arm_sigs[i] = sigs[i];
    g->narm = n < 8 ? n : 8;
    g->arm_left = count;
}
int signals_left() { return g->arm_left; }
int signals_handled(int sig) { return (int)g->sig[sig].runs; }
bool signal_installed(int s) { return g->sig[s].h != SIG_DFL && g->sig[s].h != SIG_IGN; }
void set_wall_jump(int64_t d)
{
    g->wall_off += d;
    g->wall_jumps++;
    expire_timers();
}
int64_t wall_jumps() { return g->wall_jumps; }
int64_t last_read_wall() { return g->last_wall; }
int64_t wall_reads() { return g->wall_reads; }
size_t live_blocks()
{
    g->base_bump = g->bump;
    return (size_t)g->live;
}
// Blocks allocated since the last call of live_blocks() that static data still refers to belong to objects created on first use
// (a function-local static, a lazily filled table): like LeakSanitizer, leaked() excuses a few of them.
bool leaked(size_t base)
{
    i64 extra = (i64)g->live - (i64)base;
    if (extra <= 0 || extra > 8)
        return extra != 0;
    constexpr int N = 4096;
    static u64 seen[N];
    int n = 0, fresh = 0;
    auto visit = [&](u64 from, u64 to) {
        for (u64 a = (from + 7) & ~7ull; a + 8 <= to; a += 8)
        {
            u64 p = *(u64*)a;
            if ((p & 15) || p < g->bump0 + sizeof(HeapHdr) || p >= g->bump || n == N)
                continue;
            HeapHdr* h = hdr_of(p);
            if (h->magic != (0x51D0A110C0000000ull ^ p) || h->state != 1)
                continue;
            bool known = false;
            for (int i = 0; i < n && !known; i++)
                known = seen[i] == p;
            if (known)
                continue;
            seen[n++] = p;
            fresh += p >= g->base_bump;
        }
    };
    // the list itself is static data: what an earlier call left in it is no reference
    for (u64& x : seen)
        x = 0;
    u64 own = (u64)seen;
    visit((u64)&__data_start, own);
    visit(own + sizeof seen, (u64)&_end);
    for (int i = 0; i < n; i++)
        visit(seen[i], seen[i] + hdr_of(seen[i])->size);
    for (int i = 0; i < n; i++)
        seen[i] = 0;
    return fresh < extra;
}
void set_env(const char* n, const char* v)
{
    for (auto& e : g->env)
        if (!e[0] || !__builtin_strcmp(e[0], n))
        {
            e[0] = n;
            e[1] = v;
            return;
        }
}
int threads_alive() { return g->alive; }
int threads_created() { return g->ncreated; }
int blocked_threads()
{
    int n = 0;
    for (int i = 0; i < g->nfib; i++)
        n += g->f[i].st == S_BLOCK;
    return n;
}
int64_t fault_fired(fault f) { return g->faults[f]; }
void count(fault f) { count_fault(f); }
int hw() { return cfg.hw_threads; }
uint64_t ev(int kind, int64_t a, int64_t b, int64_t c)
{
    u64 s = ++g->seqno;
    if (g->nev < MAXEV)
        g->ev[g->nev++] = {s, g->now, g->active ? g->cur : -1, kind, a, b, c};
    g->hash = mix(mix(mix(g->hash, kind), a), b * 3 + c);
    g->synchash = mix(mix(g->synchash, kind * 64 + g->cur), a);
    return s;
}
int op_begin(int kind, int64_t a, int64_t b)
{
    if (g->nops >= MAXOPS)
        die("sim: too many operations in the history");
    int i = g->nops++;
    g->ops[i] = {++g->seqno, 0, g->now, 0, g->active ? g->cur : -1, kind, a, b, 0};
    g->hash = mix(mix(g->hash, kind), a * 3 + b);
    g->synchash = mix(g->synchash, kind * 64 + g->cur);
    return i;
}
void op_end(int i, int64_t res)
{
    op& o = g->ops[i];
    o.ret = ++g->seqno;
    o.t1 = g->now;
    o.res = res;
    g->hash = mix(mix(g->hash, i), res);
    g->synchash = mix(mix(g->synchash, i), res);
}
op* ops() { return g->ops; }
int op_count() { return g->nops; }
static i64& cell_of(int i)
{
    if (i < 0 || i >= MAXCELLS)
        die("sim: cell index out of range");
    return g->cells[i];
}
int64_t get(int i) { return cell_of(i); }
void set(int i, int64_t v) { cell_of(i) = v; }
int64_t add(int i, int64_t v) { return cell_of(i) += v; }
const event* events() { return g->ev; }
size_t event_count() { return g->nev; }
void probe(int id)
{
    if (id >= 0 && id < 64)
        g->res->probes |= 1ull << id;
}
void fail(const char* tag, const char* fmt, ...)
{
    char buf[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    char cls[256];
    snprintf(cls, sizeof cls, "oracle:%.200s", fmt);
    for (char* p = cls; *p; p++)
        if (*p == '\n')
            *p = ' ';
    do_fail(tag, cls, buf);
}
void discard()
{
    if (g->res->status == V_OK)
        g->res->status = V_DISCARD;
    if (g->simulating)
        to_host();
}
void nontrivial() { g->res->nontrivial = true; }
static scenario* scn_head;
scenario::scenario(const char* n, void (*f)(), bool fe) : name(n), fn(f), fork_each(fe), next(scn_head) { scn_head = this; }
}  // namespace sim

// ==== running scenarios =============================================================================================================================================================
namespace
{
void find_ranges()
{
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f)
        return;
    char line[512];
    while (fgets(line, sizeof line, f))
    {
        unsigned long lo, hi;
        if (sscanf(line, "%lx-%lx", &lo, &hi) != 2)
            continue;
        if (strstr(line, "libc.so"))
        {
            if (!g->libc_lo)
                g->libc_lo = lo;
            g->libc_hi = hi;
        }
        if (strstr(line, "ld-linux"))
        {
            if (!g->ld_lo)
                g->ld_lo = lo;
            g->ld_hi = hi;
        }
    }
    fclose(f);
}
void make_tls()
{
    void* (*alloc_tls)(void*) = (void* (*)(void*))dlsym(RTLD_DEFAULT, "_dl_allocate_tls");
    g->ctype_init = (void (*)())dlsym(RTLD_DEFAULT, "__ctype_init");
    if (!alloc_tls)
        die("sim: _dl_allocate_tls missing");
    u64 fs = get_fs();
    for (int i = 0; i < MAXT; i++)
    {
        // two allocations happen (the block, then the dtv); the block is the one that contains the TCB
        u64 before = g->libc_bump;
        g->capturing = true;
        u64 tcb = (u64)alloc_tls(nullptr);
        g->capturing = false;
        u64 after = g->libc_bump;
        *(u64*)tcb = tcb;                          // tcb
        *(u64*)(tcb + 16) = tcb;                   // self
        *(u32*)(tcb + 24) = 1;                     // multiple_threads
        *(u64*)(tcb + 0x28) = *(u64*)(fs + 0x28);  // stack guard
        *(u64*)(tcb + 0x30) = *(u64*)(fs + 0x30);  // pointer guard
        g->tls_tcb[i] = tcb;
        g->tls_base[i] = before;
        g->tls_size[i] = after - before;
        g->tls_pristine[i] = (u8*)raw_mmap(0, (after - before + 4095) & ~4095ull);
        bcopy_(g->tls_pristine[i], (void*)before, after - before);
    }
}
void host_init()
{
    map_all();
    g->have_fsgs = getauxval(AT_HWCAP2) & 2;
    find_ranges();
    make_tls();
    g->libc_bump = (g->libc_bump + 4095) & ~4095ull;
    // resolve lazily bound helpers now
    g->real_addref = (void (*)(void*))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
    g->real_release = (void (*)(void*))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    g->real_end_catch = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch");
    g->host_ready = true;
}
void take_snapshot()
{
    u64 lo = (u64)&__data_start, hi = (u64)&_end;
    g->snap_len = hi - lo;
    g->snap_data = (u8*)raw_mmap(0, (g->snap_len + 4095) & ~4095ull);
    u64 hb = g->host_bump;
    g->snap_host_len = hb - HOST_HEAP;
    g->snap_host = (u8*)raw_mmap(0, g->snap_host_len + 4096);
    bcopy_(g->snap_host, (void*)HOST_HEAP, g->snap_host_len);
    bcopy_(g->snap_data, (void*)lo, g->snap_len);
}
void restore_snapshot()
{
    u64 lo = (u64)&__data_start;
    bcopy_((void*)lo, g->snap_data, g->snap_len);
    bcopy_((void*)HOST_HEAP, g->snap_host, g->snap_host_len);
}
const config default_cfg;

// execute one run inside this process; result in g->res
void exec_run(scenario* sc, u64 seed)
{
    restore_snapshot();
    g->gen = (g->gen + 1) & 0xff;
    if (!g->gen)
        g->gen = 1;
    // wipe the heap used by the previous run
    u64 used = g->bump - g->bump0;
    bset_((void*)HSTATE, 0, (used >> 3) + 16);
    bset_((void*)g->bump0, 0, used);
    g->bump = g->bump0;
    g->nsync = 0;
    u64 s = seed;
    g->rng = splitmix(s);
    g->plan_rng = splitmix(s);
    g->data_rng = splitmix(s);
    g->rdev_key = splitmix(s);
    g->rdev_draws = 0;
    bset_(g->env, 0, sizeof g->env);
    if (g->plan_replay)
        ;
    g->dec_idx = 0;
    g->rep_pos = 0;
    g->plan_cursor = 0;
    g->now = g->boot = g->wall_off = g->busy = g->injected = g->wall_jumps = g->wall_reads = g->last_wall = 0;
    g->seqno = g->wseq = 0;
    g->bb = g->points = 0;
    g->spin_points = g->spin_total = 0;
    g->hash = g->synchash = g->schedhash = 0x1234;
    g->nev = 0;
    g->nops = 0;
    bset_(g->cells, 0, sizeof g->cells);
    g->ntr = 0;
    g->arm_left = g->narm = 0;
    g->faults_off = false;
    g->create_faults = false;
    g->dying = false;
    g->live = 0;
    bset_(g->sig, 0, sizeof g->sig);
    bset_(g->faults, 0, sizeof g->faults);
    bset_(&g->fencevc, 0, sizeof(VC));
    bset_(&g->ehvc, 0, sizeof(VC));
    sim::cfg = default_cfg;
    Result* r = g->res;
    r->status = V_OK;
    r->nontrivial = false;
    r->tag[0] = r->cls[0] = r->msg[0] = 0;
    r->seed = seed;
    r->probes = 0;
    if (!g->replay)
        r->ndec = 0;
    if (!g->plan_replay)
        r->nplan = 0;
    g->in_run = true;
    if (__builtin_setjmp(g->host_jmp) == 0)
        sc->fn();
    g->in_run = false;
    g->active = false;
    g->simulating = false;
    r->hash = mix(mix(g->hash, r->status), g->now);
    r->synchash = g->synchash;
    r->schedhash = mix(g->schedhash, g->synchash);
    r->dec_total = g->dec_idx;
    r->sim_time = g->now - g->boot;
    r->points = g->points;
    r->bbs = g->bb;
    r->threads = g->ncreated;
    r->events = g->nev;
    for (int i = 0; i < F_COUNT; i++)
        r->faults[i] = g->faults[i];
}

char sigstack[65536];
void crash_handler(int sig, siginfo_t* si, void* uc)
{
    // a real fault: attribute it to the running simulated thread
    u64 pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    set_fs(g->host_fs ? g->host_fs : get_fs());
    Result* r = g->res;
    if (g->in_run && (r->status == V_OK || r->status == V_DISCARD))
    {
        bool active = g->active;
        g->active = false;
        r->status = V_VIOL;
        snprintf(r->tag, sizeof r->tag, "generic");
        snprintf(r->cls, sizeof r->cls, "crash");
        size_t n = snprintf(r->msg, sizeof r->msg, "crash: signal %d at <%llx>, address %p, in T%d", sig, (unsigned long long)pc, si->si_addr, active ? g->cur : -1);
        if (active)
            app_threads(r->msg, sizeof r->msg, n);
        if (sig == SIGXCPU)
        {
            snprintf(r->tag, sizeof r->tag, "error");
            snprintf(r->cls, sizeof r->cls, "error:cpu time");
        }
        r->dec_total = g->dec_idx;
        raw_syscall(SYS_exit_group, 42);
    }
    raw_syscall(SYS_exit_group, 43);
}
void real_sigaction(int sig)
{
    struct
    {
        void (*h)(int, siginfo_t*, void*);
        unsigned long flags;
        void (*restorer)();
        unsigned long mask;
    } ks;
    bset_(&ks, 0, sizeof ks);
    ks.h = crash_handler;
    ks.flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | 0x04000000;
    ks.restorer = sim_restorer;
    raw_syscall(SYS_rt_sigaction, sig, (long)&ks, 0, 8);
}
__asm__(".text\n.globl sim_restorer\nsim_restorer:\nmovq $15,%rax\nsyscall\n");
void child_setup()
{
    stack_t ss;
    ss.ss_sp = sigstack;
    ss.ss_size = sizeof sigstack;
    ss.ss_flags = 0;
    raw_syscall(SYS_sigaltstack, (long)&ss, 0);
    real_sigaction(SIGSEGV);
    real_sigaction(SIGBUS);
    real_sigaction(SIGFPE);
    real_sigaction(SIGILL);
    real_sigaction(SIGTRAP);
    real_sigaction(SIGXCPU);
    struct rlimit rl = {120, 125};
    raw_syscall(SYS_setrlimit, RLIMIT_CPU, (long)&rl);
    rl = {0, 0};
    raw_syscall(SYS_setrlimit, RLIMIT_CORE, (long)&rl);
    raw_syscall(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
    g->host_fs = get_fs();
}

void* shared_map(size_t n)
{
    long r = raw_syscall(SYS_mmap, 0, (n + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r < 0 && r > -4096)
        die("sim: shared mmap failed");
    return (void*)r;
}
void collect(Result* r)
{
    Agg* a = g->agg;
    a->runs++;
    if (r->status == V_DISCARD)
        a->discarded++;
    if (r->nontrivial && r->status != V_DISCARD)
        a->nontrivial++;
    a->sim_time += r->sim_time / 1000;  // microseconds: long idle times add up
    a->points += r->points;
    if (r->points > a->maxpoints)
        a->maxpoints = r->points;
    a->bbs += r->bbs;
    a->threads += r->threads;
    a->decisions += r->dec_total;
    for (int i = 0; i < F_COUNT; i++)
    {
        a->faults[i] += r->faults[i];
        a->fault_runs[i] += r->faults[i] > 0;
    }
    a->probes |= r->probes;
}
u64 run_seed(u64 base, const char* scn, u64 i)
{
    u64 h = 0xcbf29ce484222325ull;
    for (const char* p = scn; *p; p++)
        h = (h ^ (u8)*p) * 0x100000001b3ull;
    return mix(mix(base, h), i);
}
// one run in a forked child. Returns exit status category: 0 ran, else crashed hard
int forked_run(scenario* sc, u64 seed)
{
    pid_t p = (pid_t)fork();
    if (p == 0)
    {
        child_setup();
        exec_run(sc, seed);
        raw_syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    Result* r = g->res;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 42))
        return 0;
    if (WIFSIGNALED(st) && r->status != V_VIOL)
    {
        r->status = V_VIOL;
        snprintf(r->tag, sizeof r->tag, "error");
        snprintf(r->cls, sizeof r->cls, "error:child killed");
        snprintf(r->msg, sizeof r->msg, "error: run killed by signal %d", WTERMSIG(st));
    }
    else if (r->status != V_VIOL)
    {
        r->status = V_VIOL;
        snprintf(r->tag, sizeof r->tag, "error");
        snprintf(r->cls, sizeof r->cls, "error:child exit");
        snprintf(r->msg, sizeof r->msg, "error: run exited with status %d", st);
    }
    return 1;
}

scenario* find_scn(const char* n)
{
    for (scenario* s = scn_head; s; s = s->next)
        if (!strcmp(s->name, n))
            return s;
    fprintf(stderr, "no such scenario: %s\n", n);
    exit(2);
}
bool tag_accepted(const char* tags, const char* tag)
{
    if (!strcmp(tag, "generic"))
        return true;
    size_t n = strlen(tag);
    for (const char* p = tags; p && *p;)
    {
        const char* e = strchr(p, ',');
        size_t k = e ? (size_t)(e - p) : strlen(p);
        if (k == n && !strncmp(p, tag, n))
            return true;
        p = e ? e + 1 : p + k;
    }
    return false;
}
void write_case(const char* path, scenario* sc, const Result* r, const char* note)
{
    FILE* f = fopen(path, "w");
    if (!f)
    {
        perror(path);
        exit(3);
    }
    fprintf(f, "scenario %s\nseed %llu\n", sc->name, (unsigned long long)r->seed);
    fprintf(f, "plan %d", r->nplan);
    for (int i = 0; i < r->nplan; i++)
        fprintf(f, " %lld", (long long)r->plan[i]);
    // too many decisions to list: the seed gives them
    int ndec = r->ndec >= MAXDEC ? -1 : r->ndec;
    fprintf(f, "\ndecisions %d", ndec);
    for (int i = 0; i < ndec; i++)
        fprintf(f, " %llu:%llu", (unsigned long long)r->dec[i].idx, (unsigned long long)r->dec[i].val);
    fprintf(f, "\ntag %s\nclass %s\nhash %016llx\n", r->tag, r->cls, (unsigned long long)r->hash);
    fprintf(f, "message %s\n", r->msg);
    fprintf(f, "endmessage\n");
    if (note)
        fprintf(f, "%s", note);
    fclose(f);
}
struct Case
{
    char scn[128];
    u64 seed;
    char tag[64], cls[256];
    u64 hash;
    int nplan, ndec;
    i64* plan;
    Dec* dec;
};
bool read_case(const char* path, Case& c)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    memset(&c, 0, sizeof c);
    c.plan = (i64*)malloc(sizeof(i64) * MAXPLAN);
    c.dec = (Dec*)malloc(sizeof(Dec) * MAXDEC);
    char w[64];
    while (fscanf(f, "%63s", w) == 1)
    {
        if (!strcmp(w, "scenario"))
        {
            if (fscanf(f, "%127s", c.scn) != 1)
                return false;
        }
        else if (!strcmp(w, "seed"))
        {
            unsigned long long v;
            if (fscanf(f, "%llu", &v) != 1)
                return false;
            c.seed = v;
        }
        else if (!strcmp(w, "plan"))
        {
            if (fscanf(f, "%d", &c.nplan) != 1)
                return false;
            for (int i = 0; i < c.nplan; i++)
            {
                long long v;
                if (fscanf(f, "%lld", &v) != 1)
                    return false;
                if (i < MAXPLAN)
                    c.plan[i] = v;
            }
        }
        else if (!strcmp(w, "decisions"))
        {
            if (fscanf(f, "%d", &c.ndec) != 1)
                return false;
            for (int i = 0; i < c.ndec; i++)
            {
                unsigned long long a, b;
                if (fscanf(f, "%llu:%llu", &a, &b) != 2)
                    return false;
                if (i < MAXDEC)
                    c.dec[i] = {a, b};
            }
        }
        else if (!strcmp(w, "tag"))
        {
            if (fscanf(f, "%63s", c.tag) != 1)
                return false;
        }
        else if (!strcmp(w, "class"))
        {
            fgetc(f);
            if (!fgets(c.cls, sizeof c.cls, f))
                return false;
            c.cls[strcspn(c.cls, "\n")] = 0;
        }
        else if (!strcmp(w, "hash"))
        {
            unsigned long long v;
            if (fscanf(f, "%llx", &v) != 1)
                return false;
            c.hash = v;
        }
        else if (!strcmp(w, "message"))
            break;
    }
    fclose(f);
    return true;
}
double wallclock()
{
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
// candidate with explicit plan; explicit decisions if ndec>=0, else generative with seed
bool attempt(scenario* sc, u64 seed, const i64* plan, int nplan, const Dec* dec, int ndec, const char* tag, const char* cls)
{
    Result* r = g->res;
    g->plan_replay = plan != nullptr;
    g->replay = ndec >= 0;
    if (plan)
    {
        memcpy(r->plan, plan, sizeof(i64) * nplan);
        r->nplan = nplan;
    }
    if (ndec >= 0)
    {
        if (ndec)
            memcpy(r->dec, dec, sizeof(Dec) * ndec);
        r->ndec = ndec;
    }
    r->status = V_ERROR;
    forked_run(sc, seed);
    g->plan_replay = g->replay = false;
    return r->status == V_VIOL && (!tag || (!strcmp(r->tag, tag) && !strcmp(r->cls, cls)));
}

struct Shrinker
{
    scenario* sc;
    u64 seed;
    i64* plan;
    int nplan;
    Dec* dec;
    int ndec;
    char tag[64], cls[256];
    double deadline;
    long tries = 0;
    void adopt()
    {
        Result* r = g->res;
        ndec = r->ndec >= MAXDEC ? -1 : r->ndec;
        if (ndec > 0)
            memcpy(dec, r->dec, sizeof(Dec) * ndec);
        seed = r->seed;
    }
    bool out() { return wallclock() > deadline; }
    // does this plan still violate, for the old decisions or for some new schedule?
    bool plan_ok(const i64* p, int n, int searches)
    {
        tries++;
        if (attempt(sc, seed, p, n, dec, ndec, tag, cls))
        {
            adopt_keep();
            return true;
        }
        for (int i = 0; i < searches && !out(); i++)
        {
            tries++;
            if (attempt(sc, mix(seed, i + 77), p, n, nullptr, -1, tag, cls))
            {
                adopt();
                return true;
            }
        }
        return false;
    }
    void adopt_keep()
    {
        if (ndec < 0)
            adopt();
    }
    void shrink_plan()
    {
        i64* t = (i64*)malloc(sizeof(i64) * MAXPLAN);
        bool progress = true;
        int searches = 40;
        while (progress && !out())
        {
            progress = false;
            for (int chunk = nplan > 1 ? nplan / 2 : 1; chunk >= 1 && !out(); chunk = chunk > 1 ? chunk / 2 : 0)
            {
                for (int i = nplan - chunk; i >= 0 && !out(); i -= chunk)
                {
                    if (i + chunk > nplan)
                        continue;
                    memcpy(t, plan, sizeof(i64) * i);
                    memcpy(t + i, plan + i + chunk, sizeof(i64) * (nplan - i - chunk));
                    if (plan_ok(t, nplan - chunk, searches / 2))
                    {
                        nplan -= chunk;
                        memcpy(plan, t, sizeof(i64) * nplan);
                        progress = true;
                    }
                }
                if (!chunk)
                    break;
            }
            for (int i = 0; i < nplan && !out(); i++)
            {
                if (plan[i] == 0)
                    continue;
                i64 cand[3] = {0, plan[i] / 2, plan[i] > 0 ? plan[i] - 1 : plan[i] + 1};
                for (int k = 0; k < 3 && !out(); k++)
                {
                    if (cand[k] == plan[i])
                        continue;
                    memcpy(t, plan, sizeof(i64) * nplan);
                    t[i] = cand[k];
                    if (plan_ok(t, nplan, searches / 2))
                    {
                        plan[i] = cand[k];
                        progress = true;
                        break;
                    }
                }
            }
        }
        free(t);
    }
    void shrink_dec()
    {
        Dec* t = (Dec*)malloc(sizeof(Dec) * MAXDEC);
        for (int chunk = ndec > 1 ? (ndec + 1) / 2 : 1; chunk >= 1 && !out() && ndec > 0;)
        {
            bool any = false;
            for (int i = 0; i < ndec && !out();)
            {
                int k = chunk < ndec - i ? chunk : ndec - i;
                memcpy(t, dec, sizeof(Dec) * i);
                memcpy(t + i, dec + i + k, sizeof(Dec) * (ndec - i - k));
                tries++;
                if (attempt(sc, seed, plan, nplan, t, ndec - k, tag, cls))
                {
                    ndec -= k;
                    memcpy(dec, t, sizeof(Dec) * ndec);
                    any = true;
                }
                else
                    i += k;
            }
            if (chunk == 1)
            {
                if (!any)
                    break;
            }
            else
                chunk = (chunk + 1) / 2;
        }
        // smaller values
        for (int i = 0; i < ndec && !out(); i++)
            while (dec[i].val > 1 && !out())
            {
                memcpy(t, dec, sizeof(Dec) * ndec);
                t[i].val = dec[i].val / 2;
                tries++;
                if (!attempt(sc, seed, plan, nplan, t, ndec, tag, cls))
                    break;
                dec[i].val = t[i].val;
            }
        free(t);
    }
};

void print_trace(FILE* f, int maxlines)
{
    u64 n = g->ntr, start = n > (u64)maxlines ? n - maxlines : 0;
    if (n - start > 65536)
        start = n - 65536;
    fprintf(f, "trace (%llu events, last %llu):\n", (unsigned long long)n, (unsigned long long)(n - start));
    for (u64 i = start; i < n; i++)
    {
        auto& e = g->tr[i & 65535];
        fprintf(f, "  t=%-14lld T%-2d %-14s obj=%-14llx <%x> <%x>\n", (long long)e.t, e.tid, op_names[e.op], (unsigned long long)e.obj, e.pc, e.ctx);
    }
    for (size_t i = 0; i < g->nev && i < 2000; i++)
        fprintf(f, "  event #%llu t=%lld T%d kind=%d %lld %lld %lld\n", (unsigned long long)g->ev[i].seq, (long long)g->ev[i].t, g->ev[i].tid, g->ev[i].kind, (long long)g->ev[i].a, (long long)g->ev[i].b,
                (long long)g->ev[i].c);
}
const char* opt(int argc, char** argv, const char* name, const char* def)
{
    for (int i = 2; i + 1 < argc; i++)
        if (!strcmp(argv[i], name))
            return argv[i + 1];
    return def;
}
bool flag(int argc, char** argv, const char* name)
{
    for (int i = 2; i < argc; i++)
        if (!strcmp(argv[i], name))
            return true;
    return false;
}
}  // namespace

int main(int argc, char** argv)
{
    int pers = (int)raw_syscall(SYS_personality, 0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_TRIED"))
    {
        setenv("SIM_ASLR_TRIED", "1", 1);
        if (raw_syscall(SYS_personality, pers | ADDR_NO_RANDOMIZE) >= 0)
        {
            execv("/proc/self/exe", argv);
        }
    }
    host_init();
    if (argc < 2)
        return 2;
    setvbuf(stdout, (char*)host_alloc(1 << 16, 16), _IOFBF, 1 << 16);
    if (!strcmp(argv[1], "list"))
    {
        for (scenario* s = scn_head; s; s = s->next)
            printf("%s%s\n", s->name, s->fork_each ? " fork" : "");
        return 0;
    }
    g->res = (Result*)shared_map(sizeof(Result));
    g->agg = (Agg*)shared_map(sizeof(Agg));
    g->cov = (u8*)shared_map(4u << 20);
    if (!strcmp(argv[1], "batch"))
    {
        // runs i in [from,to) with step; stops at the first accepted violation
        const char* name = opt(argc, argv, "--scn", "");
        scenario* sc = find_scn(name);
        u64 base = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
        u64 from = strtoull(opt(argc, argv, "--from", "0"), 0, 10), to = strtoull(opt(argc, argv, "--to", "100"), 0, 10);
        const char* tags = opt(argc, argv, "--tags", "");
        const char* out = opt(argc, argv, "--out", nullptr);
        const char* hashes = opt(argc, argv, "--hashes", nullptr);
        const char* covf = opt(argc, argv, "--cov", nullptr);
        double limit = atof(opt(argc, argv, "--limit", "1e9"));
        bool forkeach = sc->fork_each || flag(argc, argv, "--fork");
        bool keepgoing = flag(argc, argv, "--keep-going");
        u64 per = forkeach ? 1 : strtoull(opt(argc, argv, "--per", "200"), 0, 10);
        if (per > 250)
            per = 250;
        u64 nh = to - from;
        u64* hs = (u64*)shared_map(nh * 24 + 64);  // run hash, schedule hash, sync-order hash
        take_snapshot();
        double t0 = wallclock();
        u64 i = from;
        bool found = false;
        u64 foreign = 0, artefact = 0;
        u64 nviol = 0;
        char lastforeign[400] = "";
        while (i < to && !found && wallclock() - t0 < limit)
        {
            u64 end = i + per < to ? i + per : to;
            g->agg->cur_run = i;
            g->agg->done = 0;
            g->res->status = V_ERROR;
            pid_t p = (pid_t)fork();
            if (p == 0)
            {
                child_setup();
                for (u64 k = i; k < end && (k == i || wallclock() - t0 < limit); k++)
                {
                    g->agg->cur_run = k;
                    exec_run(sc, run_seed(base, name, k));
                    Result* r = g->res;
                    collect(r);
                    hs[(k - from) * 3] = r->hash;
                    hs[(k - from) * 3 + 1] = r->schedhash;
                    hs[(k - from) * 3 + 2] = r->nontrivial ? r->synchash : 0;
                    if (r->status == V_VIOL)
                        raw_syscall(SYS_exit_group, 42);
                }
                g->agg->done = 1;
                raw_syscall(SYS_exit_group, 0);
            }
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR)
                ;
            if (g->agg->done)
            {
                i = end;
                continue;
            }
            // something happened at run cur_run
            u64 k = g->agg->cur_run;
            u64 seed = run_seed(base, name, k);
            i = k + 1;
            // confirm in a fresh process (same seed, generative)
            char first[300];
            snprintf(first, sizeof first, "status %d, tag %.20s, %.200s", (int)g->res->status, g->res->status == V_VIOL ? g->res->tag : "", g->res->status == V_VIOL ? g->res->msg : "");
            g->res->status = V_ERROR;
            forked_run(sc, seed);
            Result* r = g->res;
            if (r->status != V_VIOL)
            {
                artefact++;
                fprintf(stderr, "artefact run=%llu seed=%llu wait status %x: %s\n", (unsigned long long)k, (unsigned long long)seed, (unsigned)st, first);
                continue;
            }
            if (!strcmp(r->tag, "error"))
            {
                printf("error %s: %s (run %llu)\n", r->cls, r->msg, (unsigned long long)k);
                found = true;
                nviol++;
                if (out)
                    write_case(out, sc, r, nullptr);
                break;
            }
            if (!tag_accepted(tags, r->tag) && strcmp(tags, "*"))
            {
                foreign++;
                snprintf(lastforeign, sizeof lastforeign, "%s %.200s", r->tag, r->cls);
                continue;
            }
            nviol++;
            printf("violation run=%llu seed=%llu tag=%s class=%s\n", (unsigned long long)k, (unsigned long long)seed, r->tag, r->cls);
            if (keepgoing)
            {
                printf("%s\n", r->msg);
                continue;
            }
            found = true;
            if (out)
                write_case(out, sc, r, nullptr);
            else
                printf("%s\n", r->msg);
        }
        Agg* a = g->agg;
        printf("stats {\"scenario\":\"%s\",\"runs\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"foreign\":%llu,\"artefacts\":%llu,\"violations\":%llu,\"sim_us\":%lld,\"points\":%lld,\"max_points\":%lld,\"blocks\":%lld,\"threads\":%lld,\"decisions\":%lld,\"probes\":%llu,\"wall_s\":%.3f,\"last_foreign\":\"%s\",\"faults\":{",
               name, (unsigned long long)a->runs, (unsigned long long)a->nontrivial, (unsigned long long)a->discarded, (unsigned long long)foreign, (unsigned long long)artefact,
               (unsigned long long)nviol, (long long)a->sim_time, (long long)a->points, (long long)a->maxpoints, (long long)a->bbs, (long long)a->threads, (long long)a->decisions,
               (unsigned long long)a->probes, wallclock() - t0, "");
        for (int k = 0; k < F_COUNT; k++)
            printf("%s\"%s\":[%lld,%llu]", k ? "," : "", fault_names[k], (long long)a->faults[k], (unsigned long long)a->fault_runs[k]);
        printf("}}\n");
        if (lastforeign[0])
            printf("note foreign %s\n", lastforeign);
        if (hashes)
        {
            FILE* f = fopen(hashes, "wb");
            fwrite(hs, 24, a->runs < nh ? a->runs : nh, f);
            fclose(f);
        }
        if (covf)
        {
            FILE* f = fopen(covf, "w");
            for (u32 o = 0; o < (32u << 20); o++)
                if (g->cov[o >> 3] & (1u << (o & 7)))
                    fprintf(f, "%x\n", o + (u32)(u64)&__executable_start);
            fclose(f);
        }
        return found ? 1 : 0;
    }
    if (!strcmp(argv[1], "selftest") || !strcmp(argv[1], "show"))
    {
        // Each run is generated twice in fresh processes and then replayed from its explicit draws and decisions: the
        // executions must be identical.
        bool show = !strcmp(argv[1], "show");
        const char* name = opt(argc, argv, "--scn", "");
        scenario* sc = find_scn(name);
        u64 base = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
        u64 from = strtoull(opt(argc, argv, "--from", "0"), 0, 10), to = strtoull(opt(argc, argv, "--to", show ? "1" : "20"), 0, 10);
        take_snapshot();
        Result* r = g->res;
        i64* plan = (i64*)malloc(sizeof(i64) * MAXPLAN);
        Dec* dec = (Dec*)malloc(sizeof(Dec) * MAXDEC);
        int bad = 0, viol = 0, trunc = 0;
        for (u64 k = from; k < to; k++)
        {
            u64 seed = run_seed(base, name, k);
            r->status = V_ERROR;
            forked_run(sc, seed);
            if (show)
            {
                printf("{\"scenario\":\"%s\",\"run\":%llu,\"seed\":%llu,\"draws\":[", name, (unsigned long long)k, (unsigned long long)seed);
                for (int i = 0; i < r->nplan && i < 60; i++)
                    printf("%s%lld", i ? "," : "", (long long)r->plan[i]);
                printf("],\"draws_total\":%d,\"non_default_decisions\":[", r->nplan);
                for (int i = 0; i < r->ndec && i < 40; i++)
                    printf("%s\"%llu:%llu\"", i ? "," : "", (unsigned long long)r->dec[i].idx, (unsigned long long)r->dec[i].val);
                printf("],\"non_default_total\":%d,\"decision_points\":%llu,\"threads\":%d,\"sync_points\":%lld,\"sim_ns\":%lld,\"faults\":{", r->ndec, (unsigned long long)r->dec_total, r->threads,
                       (long long)r->points, (long long)r->sim_time);
                bool first = true;
                for (int i = 0; i < F_COUNT; i++)
                    if (r->faults[i])
                    {
                        printf("%s\"%s\":%lld", first ? "" : ",", fault_names[i], (long long)r->faults[i]);
                        first = false;
                    }
                printf("},\"outcome\":\"%s\",\"execution_hash\":\"%016llx\"}\n", r->status == V_VIOL ? "violation" : r->status == V_DISCARD ? "no verdict" : r->status == V_ERROR ? "error" : "held", (unsigned long long)r->hash);
                continue;
            }
            int st = r->status;
            u64 h = r->hash;
            int np = r->nplan, nd = r->ndec;
            viol += st == V_VIOL;
            memcpy(plan, r->plan, sizeof(i64) * np);
            memcpy(dec, r->dec, sizeof(Dec) * nd);
            r->status = V_ERROR;
            r->hash = 0;
            forked_run(sc, seed);
            if (r->hash != h || r->status != st)
            {
                bad++;
                printf("mismatch run=%llu status %d/%d hash %016llx/%016llx (same seed)\n", (unsigned long long)k, st, r->status, (unsigned long long)h, (unsigned long long)r->hash);
                continue;
            }
            if (nd >= MAXDEC || np >= MAXPLAN)
            {
                trunc++;
                continue;
            }
            attempt(sc, seed, plan, np, dec, nd, nullptr, nullptr);
            if (r->hash != h || r->status != st)
            {
                bad++;
                printf("mismatch run=%llu status %d/%d hash %016llx/%016llx (explicit lists)\n", (unsigned long long)k, st, r->status, (unsigned long long)h, (unsigned long long)r->hash);
            }
        }
        if (!show)
            printf("selftest %s runs=%llu mismatches=%d violations=%d truncated=%d\n", name, (unsigned long long)(to - from), bad, viol, trunc);
        return bad ? 1 : 0;
    }
    if (!strcmp(argv[1], "replay") || !strcmp(argv[1], "shrink"))
    {
        Case c;
        if (argc < 3 || !read_case(argv[2], c))
        {
            fprintf(stderr, "cannot read case\n");
            return 2;
        }
        scenario* sc = find_scn(c.scn);
        take_snapshot();
        if (!strcmp(argv[1], "replay"))
        {
            bool tr = flag(argc, argv, "--trace");
            bool v;
            if (tr)
            {
                // in this process, so that the trace can be printed
                Result* r = g->res;
                g->plan_replay = true;
                g->replay = c.ndec >= 0;
                memcpy(r->plan, c.plan, sizeof(i64) * c.nplan);
                r->nplan = c.nplan;
                if (g->replay)
                {
                    memcpy(r->dec, c.dec, sizeof(Dec) * c.ndec);
                    r->ndec = c.ndec;
                }
                g->host_fs = get_fs();
                exec_run(sc, c.seed);
                v = r->status == V_VIOL && !strcmp(r->tag, c.tag) && !strcmp(r->cls, c.cls);
                print_trace(stdout, atoi(opt(argc, argv, "--lines", "400")));
            }
            else
                v = attempt(sc, c.seed, c.plan, c.nplan, c.dec, c.ndec, c.tag, c.cls);
            Result* r = g->res;
            printf("%s hash=%016llx expected=%016llx\n", v ? "reproduced" : r->status == V_VIOL ? "different" : "not-reproduced", (unsigned long long)r->hash, (unsigned long long)c.hash);
            if (r->status == V_VIOL)
                printf("tag %s\nclass %s\nmessage %s\nendmessage\n", r->tag, r->cls, r->msg);
            return v && r->hash == c.hash ? 1 : v ? 4 : 3;
        }
        double budget = atof(opt(argc, argv, "--budget", "20"));
        const char* out = opt(argc, argv, "--out", nullptr);
        Shrinker s;
        s.sc = sc;
        s.seed = c.seed;
        s.plan = c.plan;
        s.nplan = c.nplan;
        s.dec = c.dec;
        s.ndec = c.ndec;
        strcpy(s.tag, c.tag);
        strcpy(s.cls, c.cls);
        double t0 = wallclock();
        s.deadline = t0 + budget;
        // the case as found must replay from its explicit lists
        if (!attempt(sc, c.seed, c.plan, c.nplan, c.dec, c.ndec, c.tag, c.cls))
        {
            printf("not-reproducible status=%d tag=%s class=%s msg=%s\n", g->res->status, g->res->tag, g->res->cls, g->res->msg);
            return 3;
        }
        u64 h1 = g->res->hash;
        attempt(sc, c.seed, c.plan, c.nplan, c.dec, c.ndec, c.tag, c.cls);
        if (g->res->hash != h1 || h1 != c.hash)
        {
            printf("nondeterministic %016llx %016llx %016llx\n", (unsigned long long)c.hash, (unsigned long long)h1, (unsigned long long)g->res->hash);
            return 3;
        }
        int p0 = s.nplan, d0 = s.ndec;
        s.deadline = t0 + budget * 0.7;
        s.shrink_plan();
        s.deadline = t0 + budget;
        s.shrink_dec();
        bool ok = attempt(sc, s.seed, s.plan, s.nplan, s.dec, s.ndec, s.tag, s.cls);
        if (!ok)
        {
            printf("shrunk case does not reproduce\n");
            return 3;
        }
        // keep exactly the explicit lists
        Result* r = g->res;
        memcpy(r->plan, s.plan, sizeof(i64) * s.nplan);
        r->nplan = s.nplan;
        char note[256];
        snprintf(note, sizeof note, "# minimised from %d draws / %d decisions in %ld attempts, %.1f s\n", p0, d0, s.tries, wallclock() - t0);
        if (out)
            write_case(out, sc, r, note);
        printf("shrunk plan %d->%d decisions %d->%d\n", p0, s.nplan, d0, s.ndec);
        return 0;
    }
    return 2;
}

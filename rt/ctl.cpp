// Controlled execution runtime.  Interposes the pthread, clock and allocation functions and implements the
// callbacks the compiler inserts with -fsanitize=thread (the real sanitizer runtime is not linked).
#include "ctl.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
// variables of the library (rt/build.sh puts them into sections of their own)
extern char __start_tppbss[] __attribute__((weak));
extern char __stop_tppbss[] __attribute__((weak));
extern char __start_tppdata[] __attribute__((weak));
extern char __stop_tppdata[] __attribute__((weak));
}

namespace ctl
{
config cfg;
shared_area* area = nullptr;

namespace
{
constexpr int MAXT = 64;
enum st_t
{
    S_UNUSED,
    S_RUN,
    S_MUTEX,
    S_COND,
    S_JOIN,
    S_SLEEP,
    S_FLAG,
    S_RD,
    S_WR,
    S_ONCE,
    S_DONE
};
struct atexit_rec
{
    void (*fn)(void*);
    void* obj;
    atexit_rec* next;
};
struct thr
{
    int st = S_UNUSED;
    void* obj = nullptr;
    int arg = 0;
    bool timed = false;
    uint64_t deadline = 0;
    bool signaled = false;
    int slot = -1;
    bool detached = false;
    int go = 0;
    long prio = 0;
    void* (*fn)(void*) = nullptr;
    void* fnarg = nullptr;
    void* ret = nullptr;
    atexit_rec* dtors = nullptr;
    uint64_t lag = 0; // time that passed while the thread could run (or waited for a lock) but did not
};
thr T[MAXT];
int nthr = 0;
volatile bool active = false;
int cur = 0;
uint64_t vnow = 0;
int nopre_depth = 0; // only the running thread touches it
int slot_owner[MAXT];
int free_slots[MAXT];
int nfree = 0, nslots = 0;
unsigned flags_[256];
uint64_t rng;
uint64_t plain_cnt = 0, plain_next = ~0ull;
int pre_i = 0, rep_i = 0;
int consec = 0;
long pct_low = 0;
int pct_pts[16];
thread_local int my_tid = -1;

uint64_t rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull >> 11;
}

void fwait(int* a)
{
    while(__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
void fpost(int* a)
{
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---- object tables -------------------------------------------------------------------------------
struct mtx
{
    void* p;
    int owner;
    int depth;
    int readers;
};
constexpr int HS = 8192;
mtx mtab[HS];
mtx* getm(void* p)
{
    size_t h = (reinterpret_cast<size_t>(p) >> 3) * 0x9E3779B97F4A7C15ull >> 51;
    for(;; h = (h + 1) & (HS - 1))
    {
        if(mtab[h].p == p) return &mtab[h];
        if(!mtab[h].p)
        {
            mtab[h] = {p, -1, 0, 0};
            return &mtab[h];
        }
    }
}

// ---- order ---------------------------------------------------------------------------------------
// Vector clocks.  Each thread knows how far it is ordered after every other one; locks, atomics, thread
// creation and joining carry that knowledge on as the language says (memory orders included).
struct vclock
{
    uint32_t c[MAXT];
};
vclock VC[MAXT];
vclock fence_acq[MAXT], fence_rel[MAXT];
struct syncobj
{
    const void* p;
    vclock* v;
};
constexpr int NS = 1 << 16;
syncobj* stab = nullptr;
vclock* spool = nullptr;
int nspool = 0;

void join_vc(vclock& a, const vclock& b)
{
    for(int i = 0; i < nthr; ++i)
        if(b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void* reserve(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) abort();
    return p;
}
vclock& syn(const void* p)
{
    size_t h = (reinterpret_cast<size_t>(p)) * 0x9E3779B97F4A7C15ull >> 48;
    for(;; h = (h + 1) & (NS - 1))
    {
        if(stab[h].p == p) return *stab[h].v;
        if(!stab[h].p)
        {
            if(nspool >= NS / 2) fail("sync objects");
            stab[h] = {p, &spool[nspool++]};
            return *stab[h].v;
        }
    }
}
inline bool ordering()
{
    return active && my_tid >= 0 && cfg.race;
}
void acquire(const void* p)
{
    if(ordering()) join_vc(VC[my_tid], syn(p));
}
void release(const void* p)
{
    if(!ordering()) return;
    join_vc(syn(p), VC[my_tid]);
    ++VC[my_tid].c[my_tid];
}
constexpr bool acq(int mo)
{
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
constexpr bool rls(int mo)
{
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
void at_load(const void* p, int mo)
{
    join_vc(acq(mo) ? VC[my_tid] : fence_acq[my_tid], syn(p));
}
void at_store(const void* p, int mo)
{
    syn(p) = rls(mo) ? VC[my_tid] : fence_rel[my_tid];
    ++VC[my_tid].c[my_tid];
}
void at_rmw(const void* p, int mo)
{
    vclock& l = syn(p);
    join_vc(acq(mo) ? VC[my_tid] : fence_acq[my_tid], l);
    join_vc(l, rls(mo) ? VC[my_tid] : fence_rel[my_tid]);
    ++VC[my_tid].c[my_tid];
}
void at_fence(int mo)
{
    if(acq(mo)) join_vc(VC[my_tid], fence_acq[my_tid]);
    if(rls(mo)) fence_rel[my_tid] = VC[my_tid];
    ++VC[my_tid].c[my_tid];
}

// the last accesses of every eight bytes of the heap and of the variables of the library
struct access
{
    uint32_t clk;
    unsigned char tid, mask, write, atomic;
};
constexpr size_t ARENA = 64u << 20;
char* arena = nullptr;
size_t arena_top = 0;
struct region
{
    char *b, *e;
    access* sh;
};
region regs[8];
int nreg = 0;
bool raced = false;

void note(access* sh, unsigned char mask, bool write, bool atomic)
{
    int me = my_tid;
    int slot = -1;
    for(int i = 0; i < 4; ++i)
    {
        access& a = sh[i];
        if(!a.mask)
        {
            if(slot < 0) slot = i;
            continue;
        }
        bool before = a.tid == me || a.clk <= VC[me].c[a.tid];
        if(!before && (a.mask & mask) && (a.write || write) && !(a.atomic && atomic))
        {
            if(!raced)
            {
                raced = true;
                const char* w = a.write ? (write ? "ww" : "wr") : "rw";
                logf("{\"e\":\"race\",\"t\":%d,\"n\":%llu,\"w\":\"%s\",\"x\":%d}", me,
                     static_cast<unsigned long long>(vnow / 1000), w, a.tid);
                if(getenv("CTL_BT"))
                {
                    void* bt[40];
                    int fd = open(getenv("CTL_BT"), O_WRONLY | O_CREAT | O_APPEND, 0644);
                    backtrace_symbols_fd(bt, backtrace(bt, 40), fd);
                    close(fd);
                }
            }
            continue;
        }
        // what the new access says at least as well
        if(before && (a.mask & ~mask) == 0 && (write || !a.write) && (!atomic || a.atomic)) slot = i;
    }
    if(slot < 0) slot = static_cast<int>(plain_cnt & 3);
    sh[slot] = {VC[me].c[me], static_cast<unsigned char>(me), mask, write, atomic};
}
void visit(const void* p, size_t n, bool write, bool atomic)
{
    const char* q = static_cast<const char*>(p);
    for(int i = 0; i < nreg; ++i)
    {
        if(q < regs[i].b || q >= regs[i].e) continue;
        size_t off = static_cast<size_t>(q - regs[i].b), end = off + n;
        while(off < end)
        {
            size_t in = off & 7, k = 8 - in < end - off ? 8 - in : end - off;
            note(regs[i].sh + (off >> 3) * 4, static_cast<unsigned char>(((1u << k) - 1) << in), write, atomic);
            off += k;
        }
        return;
    }
}
inline void seen(const void* p, size_t n, bool write, bool atomic = false)
{
    if(cfg.race && my_tid >= 0) visit(p, n, write, atomic);
}
struct
{
    int tid = -1;
    uint32_t clk = 0;
} marks[256];

bool enabled(const thr& t, int i)
{
    switch(t.st)
    {
        case S_RUN: return true;
        case S_MUTEX: return getm(t.obj)->owner == -1 || (t.timed && vnow >= t.deadline);
        case S_COND: return t.signaled || (t.timed && vnow >= t.deadline);
        case S_JOIN: return T[t.arg].st == S_DONE;
        case S_SLEEP: return vnow >= t.deadline;
        case S_FLAG: return flags_[t.arg] != 0;
        case S_RD: return getm(t.obj)->owner == -1;
        case S_WR: return getm(t.obj)->owner == -1 && getm(t.obj)->readers == 0;
        case S_ONCE: return *static_cast<volatile char*>(t.obj) != 2;
        default: return false;
    }
    (void)i;
}

void advance(uint64_t to, int except = -1)
{
    if(to <= vnow) return;
    for(int i = 0; i < nthr; ++i)
        if(i != except)
            if(T[i].st != S_UNUSED && T[i].st != S_DONE &&
               (T[i].st == S_MUTEX || T[i].st == S_RD || T[i].st == S_WR || T[i].st == S_ONCE || enabled(T[i], i)))
                T[i].lag += to - vnow;
    vnow = to;
}

[[noreturn]] void finish(const char* what)
{
    logf("{\"e\":\"%s\",\"n\":%llu}", what, static_cast<unsigned long long>(vnow / 1000));
    area->ended = 1;
    _exit(0);
}

struct opt
{
    int tid;
    int kind; // 0 run, 1 let time pass until the timer of tid, 2 spurious wake-up of tid
};

int decide(int n, const opt* o, int curidx)
{
    if(n <= 1) return 0;
    int step = area->ndec;
    int ch = 0;
    bool forced = false;
    if(consec > 400 && curidx == 0)
    {
        // fairness: a spinning thread does not run for ever while others can run
        ch = 1;
        forced = true;
        for(int i = 1; i < n; ++i)
            if(o && o[i].kind == 0)
            {
                ch = i;
                break;
            }
        if(cfg.mode == M_PCT && o && o[0].kind == 0) T[o[0].tid].prio = --pct_low;
    }
    if(cfg.mode == M_REPLAY)
    {
        ch = rep_i < cfg.nrep ? cfg.rep[rep_i] : ch;
        ++rep_i;
        if(ch >= n) ch = 0;
    }
    else if(!forced)
    {
        switch(cfg.mode)
        {
            case M_DEFAULT:
                for(int i = 0; i < cfg.ndev; ++i)
                    if(cfg.dev[i].step == step) ch = cfg.dev[i].opt % n;
                break;
            case M_RANDOM:
                if(curidx == 0 && static_cast<int>(rnd() & 15) < cfg.cont_num) ch = 0;
                else ch = static_cast<int>(rnd() % n);
                break;
            case M_PCT:
                if(o)
                {
                    for(int i = 0; i < cfg.pct_depth; ++i)
                        if(pct_pts[i] == step && curidx == 0) T[o[0].tid].prio = --pct_low;
                    long best = LONG_MIN;
                    for(int i = 0; i < n; ++i)
                    {
                        if(o[i].kind != 0)
                        {
                            if((rnd() & 255) < 24)
                            {
                                ch = i;
                                break;
                            }
                            continue;
                        }
                        if(T[o[i].tid].prio > best)
                        {
                            best = T[o[i].tid].prio;
                            ch = i;
                        }
                    }
                }
                else ch = static_cast<int>(rnd() % n);
                break;
        }
    }
    if(step >= MAX_DEC) fail("decisions");
    area->dec[step] = static_cast<unsigned char>(ch);
    area->nopt[step] = static_cast<unsigned char>(n);
    area->ndec = step + 1;
    return ch;
}

// Picks the next thread to run; returns when the calling thread is the one (unless it is done).
void schedule()
{
    int self = my_tid;
    for(;;)
    {
        if(++area->steps > cfg.step_limit) finish("live");
        opt o[MAXT + 4];
        int n = 0;
        int curidx = -1;
        if(enabled(T[self], self))
        {
            o[n++] = {self, 0};
            curidx = 0;
        }
        for(int d = 1; d <= nthr; ++d)
        {
            int i = (self + d) % nthr;
            if(i == self) continue;
            if(enabled(T[i], i)) o[n++] = {i, 0};
        }
        int timer = -1;
        for(int i = 0; i < nthr; ++i)
        {
            if(T[i].st == S_UNUSED || T[i].st == S_DONE || T[i].st == S_RUN || !T[i].timed) continue;
            if(vnow >= T[i].deadline) continue;
            if(timer < 0 || T[i].deadline < T[timer].deadline) timer = i;
        }
        if(n == 0)
        {
            if(timer >= 0)
            {
                advance(T[timer].deadline);
                char lags[MAXT * 32];
                int ln = 0;
                for(int i = 0; i < nthr; ++i)
                    if(T[i].lag && T[i].st != S_DONE)
                        ln += snprintf(lags + ln, sizeof lags - static_cast<size_t>(ln), "%s[%d,%llu]", ln ? "," : "", i,
                                       static_cast<unsigned long long>((T[i].lag + 999) / 1000));
                lags[ln] = 0;
                logf("{\"e\":\"k\",\"n\":%llu,\"lg\":[%s]}", static_cast<unsigned long long>(vnow / 1000), lags);
                continue;
            }
            bool all = true;
            for(int i = 0; i < nthr; ++i)
                if(T[i].st != S_DONE) all = false;
            finish(all ? "done" : "stuck");
        }
        if(timer >= 0 && cfg.adv)
        {
            bool add = cfg.mode == M_REPLAY || cfg.mode == M_DEFAULT;
            // with random schedules the option is offered only now and then
            if(!add || cfg.mode == M_REPLAY) add = true;
            if(add) o[n++] = {timer, 1};
        }
        if(cfg.spurious)
        {
            for(int i = 0; i < nthr; ++i)
                if(T[i].st == S_COND && !T[i].signaled)
                {
                    o[n++] = {i, 2};
                    break;
                }
        }
        int ch;
        if(cfg.mode == M_RANDOM && n > 1 && o[n - 1].kind != 0)
        {
            // bias: extra options have their own probability
            int m = n;
            while(m > 0 && o[m - 1].kind != 0) --m;
            int pick = -1;
            for(int i = m; i < n; ++i)
                if(static_cast<int>(rnd() & 255) < (o[i].kind == 1 ? cfg.adv : cfg.spurious)) pick = i;
            if(pick < 0)
            {
                if(curidx == 0 && consec <= 400 && static_cast<int>(rnd() & 15) < cfg.cont_num) pick = 0;
                else pick = m > 1 && consec > 400 && curidx == 0 ? 1 + static_cast<int>(rnd() % (m - 1))
                                                                 : static_cast<int>(rnd() % m);
            }
            if(area->ndec >= MAX_DEC) fail("decisions");
            area->dec[area->ndec] = static_cast<unsigned char>(pick);
            area->nopt[area->ndec] = static_cast<unsigned char>(n);
            area->ndec = area->ndec + 1;
            ch = pick;
        }
        else ch = decide(n, o, curidx);
        if(o[ch].kind == 1)
        {
            advance(T[o[ch].tid].deadline);
            consec = 0;
            continue;
        }
        if(o[ch].kind == 2)
        {
            T[o[ch].tid].signaled = true;
            consec = 0;
            continue;
        }
        int next = o[ch].tid;
        if(next == self)
        {
            ++consec;
            return;
        }
        consec = 0;
        cur = next;
        int saved = nopre_depth;
        nopre_depth = 0;
        bool done = T[self].st == S_DONE;
        fpost(&T[next].go);
        if(done) return;
        fwait(&T[self].go);
        nopre_depth = saved;
        return;
    }
}

inline bool on()
{
    return active && my_tid >= 0;
}

inline void point()
{
    if(on() && nopre_depth == 0) schedule();
}

void block(int st, void* obj, int arg = 0, bool timed = false, uint64_t dl = 0)
{
    thr& t = T[my_tid];
    t.st = st;
    t.obj = obj;
    t.arg = arg;
    t.timed = timed;
    t.deadline = dl;
    schedule();
    t.st = S_RUN;
    t.timed = false;
}

int take_slot(int tid)
{
    int s = nfree ? free_slots[--nfree] : nslots++;
    slot_owner[s] = tid;
    return s;
}
pthread_t handle(int slot)
{
    return static_cast<pthread_t>(0x7f0000001000ull + static_cast<unsigned long long>(slot) * 0x1000ull);
}
int slot_of(pthread_t h)
{
    return static_cast<int>((static_cast<unsigned long long>(h) - 0x7f0000001000ull) / 0x1000ull);
}

uint64_t ts_ns(const timespec* ts)
{
    return static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
}

const uint64_t BASE = 1000ull * 1000000000ull;        // virtual monotonic clock starts here
const uint64_t REAL_OFF = 1700000000ull * 1000000000ull;

// blocks released in this run; the pattern alone may also turn up in stack slots (saved vector registers)
struct released { char* p; size_t n; };
const int MAXREL = 1 << 20;
released* rel = nullptr;
int nrel = 0;
__attribute__((noinline)) bool was_released(const void* p)
{
    for(int i = nrel; i-- > 0;)
        if(p >= rel[i].p && p < rel[i].p + rel[i].n) return true;
    return false;
}
inline bool poisoned8(const void* p)
{
    return __builtin_expect(*reinterpret_cast<const uint64_t*>(reinterpret_cast<size_t>(p) & ~size_t(7)) == 0xDDDDDDDDDDDDDDDDull, 0) &&
           was_released(p);
}
inline void check_poison(const void* p)
{
    if(poisoned8(p)) fail("uaf");
}

void run_dtors(int tid)
{
    while(T[tid].dtors)
    {
        atexit_rec* r = T[tid].dtors;
        T[tid].dtors = r->next;
        r->fn(r->obj);
    }
}

void* trampoline(void* a)
{
    int me = static_cast<int>(reinterpret_cast<size_t>(a));
    my_tid = me;
    fwait(&T[me].go);
    T[me].ret = T[me].fn(T[me].fnarg);
    run_dtors(me);
    T[me].st = S_DONE;
    if(T[me].detached) free_slots[nfree++] = T[me].slot;
    schedule();
    return nullptr;
}

void plain_slow()
{
    if(!on() || nopre_depth) 
    {
        plain_next = plain_cnt + 1;
        return;
    }
    if(cfg.mode == M_REPLAY)
    {
        ++pre_i;
        plain_next = pre_i < cfg.npre ? cfg.pre[pre_i] : ~0ull;
    }
    else
    {
        if(area->npre >= MAX_PRE)
        {
            plain_next = ~0ull;
            return;
        }
        area->pre[area->npre] = plain_cnt;
        area->npre = area->npre + 1;
        plain_next = plain_cnt + 1 + rnd() % (2 * static_cast<uint64_t>(cfg.plain_gap));
    }
    consec = 0;
    schedule();
}
} // namespace

nopre::nopre()
{
    if(on()) ++nopre_depth;
}
nopre::~nopre()
{
    if(on()) --nopre_depth;
}

int tid()
{
    return my_tid;
}
uint64_t now_ns()
{
    return vnow;
}
uint64_t now_us()
{
    return vnow / 1000;
}

void put(int x)
{
    marks[x & 255].tid = my_tid;
    marks[x & 255].clk = VC[my_tid].c[my_tid];
}
bool sees(int x)
{
    auto& m = marks[x & 255];
    return m.tid == my_tid || (m.tid >= 0 && m.clk <= VC[my_tid].c[m.tid]);
}
void watch(void* p, size_t n)
{
    if(nreg >= 8) abort();
    char* b = static_cast<char*>(p) - (reinterpret_cast<size_t>(p) & 7);
    char* e = static_cast<char*>(p) + n;
    regs[nreg] = {b, e, static_cast<access*>(reserve((static_cast<size_t>(e - b) / 8 + 2) * 4 * sizeof(access)))};
    ++nreg;
}

uint64_t lag_us()
{
    return my_tid < 0 ? 0 : T[my_tid].lag / 1000;
}

void logf(const char* fmt, ...)
{
    nopre np;
    va_list ap;
    va_start(ap, fmt);
    size_t left = LOG_SIZE - area->len;
    int n = vsnprintf(area->log + area->len, left, fmt, ap);
    va_end(ap);
    if(n < 0 || static_cast<size_t>(n) + 2 >= left)
    {
        area->ended = 2;
        _exit(3);
    }
    area->log[area->len + n] = '\n';
    area->len = area->len + n + 1;
}

void fail(const char* what)
{
    if(const char* bf = getenv("CTL_BT"))
    {
        active = false;
        void* bt[40];
        int fd = open(bf, O_WRONLY | O_CREAT | O_APPEND, 0644);
        backtrace_symbols_fd(bt, backtrace(bt, 40), fd);
        close(fd);
    }
    logf("{\"e\":\"crash\",\"n\":%llu,\"w\":\"%s\"}", static_cast<unsigned long long>(vnow / 1000), what);
    area->ended = 1;
    _exit(0);
}

void begin()
{
    my_tid = 0;
    nthr = 1;
    T[0].st = S_RUN;
    T[0].slot = take_slot(0);
    stab = static_cast<syncobj*>(reserve(sizeof(syncobj) * NS));
    spool = static_cast<vclock*>(reserve(sizeof(vclock) * NS));
    arena = static_cast<char*>(reserve(ARENA));
    watch(arena, ARENA);
    if(__start_tppbss) watch(__start_tppbss, static_cast<size_t>(__stop_tppbss - __start_tppbss));
    if(__start_tppdata) watch(__start_tppdata, static_cast<size_t>(__stop_tppdata - __start_tppdata));
    VC[0].c[0] = 1;
    vnow = BASE % 1000000000000ull; // keep logged microseconds small
    vnow = 1000ull * 1000000ull + 500;
    rng = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    if(!rng) rng = 1;
    for(int i = 0; i < 5; ++i) rnd();
    T[0].prio = static_cast<long>(rnd() % 1000000);
    for(int i = 0; i < cfg.pct_depth; ++i)
        pct_pts[i] = static_cast<int>(rnd() % static_cast<uint64_t>(cfg.pct_len > 0 ? cfg.pct_len : 1));
    if(cfg.mode == M_REPLAY) plain_next = cfg.npre ? cfg.pre[0] : ~0ull;
    else plain_next = cfg.plain_gap ? rnd() % (2 * static_cast<uint64_t>(cfg.plain_gap)) : ~0ull;
    active = true;
}

void main_done()
{
    run_dtors(0);
    T[0].st = S_DONE;
    schedule();
    for(;;) pause();
}

void busy_us(uint64_t us)
{
    if(on())
    {
        advance(vnow + us * 1000, my_tid);
        point();
    }
}
void flag_set(int f)
{
    flags_[f] = 1;
    release(&flags_[f]);
    point();
}
void flag_wait(int f)
{
    point();
    if(!flags_[f]) block(S_FLAG, nullptr, f);
    acquire(&flags_[f]);
}
void yield()
{
    point();
}
} // namespace ctl

using namespace ctl;

extern "C" {

// ---- threads -------------------------------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
    if(!real) real = reinterpret_cast<decltype(real)>(dlsym(RTLD_NEXT, "pthread_create"));
    if(!on()) return real(out, attr, fn, arg);
    point();
    if(nthr >= MAXT) fail("threads");
    int t = nthr++;
    T[t].st = S_RUN;
    T[t].fn = fn;
    T[t].fnarg = arg;
    VC[t] = VC[my_tid];
    VC[t].c[t] = 1;
    ++VC[my_tid].c[my_tid];
    T[t].slot = take_slot(t);
    T[t].prio = static_cast<long>(rnd() % 1000000);
    *out = handle(T[t].slot);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 * 1024);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_t h;
    if(real(&h, &a, trampoline, reinterpret_cast<void*>(static_cast<size_t>(t))) != 0) fail("create");
    pthread_attr_destroy(&a);
    point();
    return 0;
}

pthread_t pthread_self(void)
{
    return handle(my_tid >= 0 && active ? T[my_tid].slot : 0);
}

int pthread_join(pthread_t h, void** ret)
{
    if(!on()) return EINVAL;
    point();
    int s = slot_of(h);
    if(s < 0 || s >= nslots) return ESRCH;
    int t = slot_owner[s];
    if(t == my_tid) return EDEADLK;
    if(T[t].st != S_DONE) block(S_JOIN, nullptr, t);
    if(ret) *ret = T[t].ret;
    join_vc(VC[my_tid], VC[t]);
    free_slots[nfree++] = s;
    return 0;
}

int pthread_detach(pthread_t h)
{
    if(!on()) return EINVAL;
    point();
    int s = slot_of(h);
    if(s < 0 || s >= nslots) return ESRCH;
    int t = slot_owner[s];
    if(T[t].detached) return EINVAL;
    T[t].detached = true;
    if(T[t].st == S_DONE) free_slots[nfree++] = s;
    return 0;
}
int pthread_setname_np(pthread_t, const char*)
{
    return 0;
}
int sched_yield(void)
{
    if(on()) consec += 100;
    point();
    return 0;
}

// ---- mutex ---------------------------------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    int kind = 0;
    if(a) pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    if(on())
    {
        mtx* x = getm(m);
        x->owner = -1;
        x->depth = 0;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*)
{
    return 0;
}
static int do_lock(pthread_mutex_t* m, bool timed, uint64_t dl)
{
    mtx* x = getm(m);
    if(x->owner == my_tid)
    {
        if((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            ++x->depth;
            return 0;
        }
        if((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while(x->owner != -1)
    {
        if(timed && vnow >= dl) return ETIMEDOUT;
        block(S_MUTEX, m, 0, timed, dl);
    }
    x->owner = my_tid;
    acquire(m);
    x->depth = 1;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!on()) return 0;
    check_poison(m);
    point();
    return do_lock(m, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(!on()) return 0;
    check_poison(m);
    point();
    mtx* x = getm(m);
    if(x->owner != -1)
    {
        if(x->owner == my_tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            ++x->depth;
            return 0;
        }
        return EBUSY;
    }
    x->owner = my_tid;
    acquire(m);
    x->depth = 1;
    return 0;
}
static uint64_t rel_deadline(clockid_t c, const timespec* ts)
{
    uint64_t v = ts_ns(ts);
    if(c == CLOCK_REALTIME)
    {
        return v > REAL_OFF ? v - REAL_OFF : 0;
    }
    return v;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    if(!on()) return 0;
    check_poison(m);
    point();
    return do_lock(m, true, rel_deadline(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    if(!on()) return 0;
    check_poison(m);
    point();
    return do_lock(m, true, rel_deadline(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if(!on()) return 0;
    check_poison(m);
    mtx* x = getm(m);
    if(x->owner != my_tid) fail("unlock of a mutex not held");
    if(--x->depth > 0) return 0;
    release(m);
    x->owner = -1;
    point();
    return 0;
}

// ---- rwlock --------------------------------------------------------------------------------------
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*)
{
    memset(m, 0, sizeof *m);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*)
{
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if(!on()) return 0;
    point();
    mtx* x = getm(m);
    while(x->owner != -1) block(S_RD, m);
    ++x->readers;
    acquire(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if(!on()) return 0;
    point();
    mtx* x = getm(m);
    while(x->owner != -1 || x->readers) block(S_WR, m);
    x->owner = my_tid;
    acquire(m);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if(!on()) return 0;
    point();
    mtx* x = getm(m);
    if(x->owner != -1) return EBUSY;
    ++x->readers;
    acquire(m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if(!on()) return 0;
    point();
    mtx* x = getm(m);
    if(x->owner != -1 || x->readers) return EBUSY;
    x->owner = my_tid;
    acquire(m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if(!on()) return 0;
    mtx* x = getm(m);
    release(m);
    if(x->owner == my_tid) x->owner = -1;
    else --x->readers;
    point();
    return 0;
}

// ---- condition variables -------------------------------------------------------------------------
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*)
{
    return 0;
}
static int do_cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl)
{
    check_poison(c);
    check_poison(m);
    mtx* x = getm(m);
    if(x->owner != my_tid) fail("condition wait without its mutex");
    int depth = x->depth;
    point(); // still holding the mutex
    release(m);
    x->owner = -1;
    T[my_tid].signaled = false;
    block(S_COND, c, 0, timed, dl);
    bool to = !T[my_tid].signaled;
    T[my_tid].signaled = false;
    x = getm(m);
    while(x->owner != -1) block(S_MUTEX, m);
    x->owner = my_tid;
    acquire(m);
    x->depth = depth;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if(!on()) return 0;
    return do_cwait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if(!on()) return ETIMEDOUT;
    return do_cwait(c, m, true, rel_deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* ts)
{
    if(!on()) return ETIMEDOUT;
    return do_cwait(c, m, true, rel_deadline(ck, ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if(!on()) return 0;
    check_poison(c);
    point();
    int w[MAXT];
    int n = 0;
    for(int i = 0; i < nthr; ++i)
        if(T[i].st == S_COND && T[i].obj == c && !T[i].signaled) w[n++] = i;
    if(n) T[w[decide(n, nullptr, -1)]].signaled = true;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if(!on()) return 0;
    check_poison(c);
    point();
    for(int i = 0; i < nthr; ++i)
        if(T[i].st == S_COND && T[i].obj == c) T[i].signaled = true;
    return 0;
}

// ---- once / guards -------------------------------------------------------------------------------
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    volatile char* s = reinterpret_cast<volatile char*>(o);
    acquire(o);
    if(*s == 1) return 0;
    while(*s == 2 && on()) block(S_ONCE, const_cast<char*>(s));
    acquire(o);
    if(*s == 1) return 0;
    *s = 2;
    try
    {
        f();
    }
    catch(...)
    {
        *s = 0;
        throw;
    }
    *s = 1;
    release(o);
    return 0;
}
int __cxa_guard_acquire(long long* g)
{
    volatile char* s = reinterpret_cast<volatile char*>(g);
    volatile char* st = s + 1;
    acquire(g);
    if(*s) return 0;
    while(*st == 2 && on()) block(S_ONCE, const_cast<char*>(st));
    acquire(g);
    if(*s) return 0;
    *st = 2;
    return 1;
}
void __cxa_guard_release(long long* g)
{
    volatile char* s = reinterpret_cast<volatile char*>(g);
    s[0] = 1;
    s[1] = 1;
    release(g);
}
void __cxa_guard_abort(long long* g)
{
    volatile char* s = reinterpret_cast<volatile char*>(g);
    s[1] = 0;
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*)
{
    if(my_tid < 0) return 0;
    T[my_tid].dtors = new atexit_rec{fn, obj, T[my_tid].dtors};
    return 0;
}

// ---- time ----------------------------------------------------------------------------------------
int clock_gettime(clockid_t c, timespec* ts)
{
    if(!on()) return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
    vnow += 50;
    uint64_t v = vnow + (c == CLOCK_REALTIME ? REAL_OFF : 0);
    ts->tv_sec = static_cast<time_t>(v / 1000000000ull);
    ts->tv_nsec = static_cast<long>(v % 1000000000ull);
    return 0;
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if(!on()) return static_cast<int>(syscall(SYS_nanosleep, ts, rem));
    point();
    block(S_SLEEP, nullptr, 0, true, vnow + ts_ns(ts));
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* ts, timespec* rem)
{
    if(!on()) return static_cast<int>(syscall(SYS_clock_nanosleep, c, fl, ts, rem));
    point();
    block(S_SLEEP, nullptr, 0, true, (fl & TIMER_ABSTIME) ? rel_deadline(c, ts) : vnow + ts_ns(ts));
    return 0;
}

// ---- compiler callbacks --------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

static inline void plain(const void* p, int n, int size, bool write)
{
    if(!active) return;
    if(n >= 8)
    {
        if(poisoned8(p)) ctl::fail("uaf");
    }
    else if(n == 4)
    {
        uint32_t v;
        memcpy(&v, p, 4);
        if(v == 0xDDDDDDDDu && poisoned8(p)) ctl::fail("uaf");
    }
    else if(n == 1)
    {
        if(*static_cast<const unsigned char*>(p) == 0xDD && poisoned8(p)) ctl::fail("uaf");
    }
    ++plain_cnt;
    if(__builtin_expect(plain_cnt >= plain_next, 0)) plain_slow();
    seen(p, static_cast<size_t>(size), write);
    if(__builtin_expect((plain_cnt & 0xffffff) == 0, 0) && plain_cnt > 40000000ull) ctl::finish("live");
}
#define RW(n)                                                                                                      \
    void __tsan_read##n(void* p) { plain(p, n, n, false); }                                                        \
    void __tsan_write##n(void* p) { plain(p, n, n, true); }                                                        \
    void __tsan_volatile_read##n(void* p) { plain(p, n, n, false); }                                               \
    void __tsan_volatile_write##n(void* p) { plain(p, n, n, true); }                                               \
    void __tsan_unaligned_read##n(void* p) { plain(p, 2, n, false); }                                              \
    void __tsan_unaligned_write##n(void* p) { plain(p, 2, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { plain(p, 2, 8, *p != v); }
void __tsan_vptr_read(void** p) { plain(p, 8, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { plain(p, 2, static_cast<int>(n), false); }
void __tsan_write_range(void* p, unsigned long n) { plain(p, 2, static_cast<int>(n), true); }

static inline void apoint(const void* p, int bits, bool write)
{
    if(!active) return;
    if(poisoned8(p)) ctl::fail("uaf");
    point();
    seen(p, static_cast<size_t>(bits) / 8, write, true);
}
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
__extension__ typedef unsigned __int128 a128;
#define AT(n, ty) \
    ty __tsan_atomic##n##_load(const volatile ty* a, int mo) { apoint(const_cast<const ty*>(a), n, false); if(ordering()) at_load(const_cast<const ty*>(a), mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_store(const_cast<ty*>(a), mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_exchange(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_add(volatile ty* a, ty v, int mo) { if(n != 32 || mo == __ATOMIC_SEQ_CST) apoint(const_cast<ty*>(a), n, true); else if(active) { if(poisoned8(const_cast<ty*>(a))) ctl::fail("uaf"); seen(const_cast<ty*>(a), n / 8, true, true); } if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_and(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_or(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_xor(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_nand(volatile ty* a, ty v, int mo) { apoint(const_cast<ty*>(a), n, true); if(ordering()) at_rmw(const_cast<ty*>(a), mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty* a, ty* e, ty v, int mo, int fmo) { apoint(const_cast<ty*>(a), n, true); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if(ordering()) { if(ok) at_rmw(const_cast<ty*>(a), mo); else at_load(const_cast<ty*>(a), fmo); } return ok; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty* a, ty* e, ty v, int mo, int fmo) { apoint(const_cast<ty*>(a), n, true); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if(ordering()) { if(ok) at_rmw(const_cast<ty*>(a), mo); else at_load(const_cast<ty*>(a), fmo); } return ok; } \
    ty __tsan_atomic##n##_compare_exchange_val(volatile ty* a, ty e, ty v, int mo, int fmo) { apoint(const_cast<ty*>(a), n, true); bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if(ordering()) { if(ok) at_rmw(const_cast<ty*>(a), mo); else at_load(const_cast<ty*>(a), fmo); } return e; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int mo)
{
    point();
    if(ordering()) at_fence(mo);
}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }
} // extern "C"

// ---- allocation: freed memory is poisoned and never reused in controlled runs ---------------------------
static void* from_arena(size_t n, size_t align)
{
    size_t at = (arena_top + 16 + align - 1) & ~(align - 1);
    if(!arena || at + n > ARENA) return nullptr;
    arena_top = (at + n + 15) & ~size_t(15);
    reinterpret_cast<size_t*>(arena + at)[-1] = n;
    return arena + at;
}
void* operator new(size_t n)
{
    void* p = active && cfg.race ? from_arena(n ? n : 1, 16) : nullptr;
    if(!p) p = malloc(n ? n : 1);
    if(!p) abort();
    if(active) memset(p, 0xA5, n);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(size_t n, std::align_val_t a)
{
    if(void* p = active && cfg.race ? from_arena(n ? n : 1, static_cast<size_t>(a) < 16 ? 16 : static_cast<size_t>(a)) : nullptr) return p;
    return aligned_alloc(static_cast<size_t>(a), (n + static_cast<size_t>(a) - 1) / static_cast<size_t>(a) * static_cast<size_t>(a));
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
static void give_back(void* p)
{
    if(!p) return;
    bool ours = p >= arena && p < arena + ARENA;
    if(!active)
    {
        free(p);
        return;
    }
    size_t n = ours ? static_cast<size_t*>(p)[-1] : malloc_usable_size(p);
    if(n >= 16 && *static_cast<uint64_t*>(p) == 0xDDDDDDDDDDDDDDDDull && was_released(p)) ctl::fail("double free");
    memset(p, 0xDD, n);
    if(!rel) rel = static_cast<released*>(mmap(nullptr, sizeof(released) * MAXREL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(nrel < MAXREL) rel[nrel++] = {static_cast<char*>(p), n};
}
void operator delete(void* p) noexcept { give_back(p); }
void operator delete[](void* p) noexcept { give_back(p); }
void operator delete(void* p, size_t) noexcept { give_back(p); }
void operator delete[](void* p, size_t) noexcept { give_back(p); }
void operator delete(void* p, std::align_val_t) noexcept { give_back(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give_back(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give_back(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give_back(p); }

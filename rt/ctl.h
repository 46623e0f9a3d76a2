// Controlled execution of multi-threaded code: one thread runs at a time, every scheduling choice is
// made (and recorded) here, time is virtual.  See ctl.cpp.
#pragma once
#include <cstddef>
#include <cstdint>

namespace ctl
{
enum mode_t : int
{
    M_DEFAULT = 0, // run the current thread as long as it can run; deviations listed in dev[]
    M_RANDOM = 1,
    M_PCT = 2,
    M_REPLAY = 3
};

constexpr int MAX_DEC = 1 << 17;
constexpr int MAX_DEV = 16;
constexpr int MAX_PRE = 256;
constexpr size_t LOG_SIZE = 4u << 20;

struct config
{
    int mode = M_DEFAULT;
    uint64_t seed = 0;
    int pct_depth = 0;
    int pct_len = 0;
    int cont_num = 8;       // random: probability cont_num/16 to keep the current thread
    int adv = 0;            // /256 probability that a pending timer fires although threads can run
    int spurious = 0;       // /256 probability of a spurious condition variable wake-up
    int plain_gap = 0;      // average number of plain accesses between forced scheduling points (0: none)
    int step_limit = 40000;
    int race = 1;           // watch for accesses that are not ordered
    int ndev = 0;
    struct { int step; int opt; } dev[MAX_DEV];
    // replay
    int nrep = 0;
    unsigned char rep[MAX_DEC];
    int npre = 0;
    uint64_t pre[MAX_PRE];
};

struct shared_area
{
    volatile int ndec;             // choices made (points with more than one option)
    unsigned char dec[MAX_DEC];
    unsigned char nopt[MAX_DEC];   // number of options at each
    volatile int npre;
    uint64_t pre[MAX_PRE];
    volatile int steps;
    volatile int ended;            // final event written by the child
    volatile size_t len;
    char log[LOG_SIZE];
};

extern config cfg;
extern shared_area* area;

// child side
void begin();                      // the calling (only) thread becomes controlled thread 0
[[noreturn]] void main_done();     // script of thread 0 is over: let the others run until quiescence
int tid();
uint64_t now_ns();
uint64_t now_us();
uint64_t lag_us();                 // how long the calling thread was kept from running so far
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void busy_us(uint64_t us);         // the calling thread computes for us microseconds
void flag_set(int f);              // driver level synchronisation, independent of the library
void flag_wait(int f);
void yield();
void put(int x);                   // the calling thread leaves a mark
bool sees(int x);                  // is the last mark x ordered before this point?
void watch(void* p, size_t n);     // memory that belongs to the library although the program provides it
[[noreturn]] void fail(const char* what);
void* native_of(int tid);

struct nopre
{
    nopre();
    ~nopre();
};
} // namespace ctl

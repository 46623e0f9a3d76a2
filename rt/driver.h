// Interpreter for small programs over the public API.  Every library call is bracketed by a call and a
// return event, every task body by a begin and an end event.
#pragma once
#include <cstdlib>
#include <new>
#include "ctl.h"
#include <threadpp/future.hpp>
#include <threadpp/thread.h>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace drv
{
struct op
{
    std::string name;
    std::vector<std::string> a;
};
using ops = std::vector<op>;

struct program
{
    std::map<int, ops> threads;
    std::map<int, ops> tasks;
    long unit = 1;   // microseconds per logged time unit
    int prio_table = 0;
};
extern program prog;

// what programs throw: with and without a base class, and no class at all
struct user_error
{
    int code;
};
struct user_failure : std::runtime_error
{
    explicit user_failure(int c) : std::runtime_error("user failure"), code(c) {}
    int code;
};

struct moveonly
{
    int v = -1;
    moveonly() = default;
    explicit moveonly(int x) : v(x) {}
    moveonly(moveonly&& o) noexcept : v(o.v) { o.v = -2; }
    moveonly& operator=(moveonly&& o) noexcept
    {
        v = o.v;
        o.v = -2;
        return *this;
    }
    moveonly(const moveonly&) = delete;
    moveonly& operator=(const moveonly&) = delete;
};

constexpr int N = 64;
constexpr int NF = 400;
extern tpp::thread::id V[NF];
tpp::thread::id target(const std::string& s);
std::launch policy(const std::string& s);
long num(const std::string& s);

// result of getting a future: value/exception as a short string
// objects the program keeps in variables: whether it shares those properly is its own business
template<typename T, typename... A>
T* own(A&&... a)
{
    return new(malloc(sizeof(T))) T(std::forward<A>(a)...);
}

struct afut
{
    static void* operator new(size_t n) { return malloc(n); }
    static void operator delete(void* p) { ::operator delete(p); }
    virtual ~afut() = default;
    virtual bool valid() = 0;
    virtual bool ready() = 0;
    virtual bool err() = 0;
    virtual void wait() = 0;
    virtual std::future_status wait_for(long us, bool until) = 0;
    virtual std::string get() = 0;                 // may throw
    virtual std::unique_ptr<afut> share() = 0;
    virtual std::unique_ptr<afut> copy() = 0;
    virtual std::unique_ptr<afut> moved() { return nullptr; }
    // assignment and swap; false if that cannot be done
    virtual bool take(afut&) { return false; }
    virtual bool take_copy(afut&) { return false; }
    virtual bool exchange(afut&) { return false; }
    // form: 0 (id,policy) 1 (id) 2 (policy) 3 ()
    virtual std::unique_ptr<afut> then(int form, tpp::thread::id id, std::launch pol, int task, char kind) = 0;
    virtual void stop() {}
    virtual void prio(int, size_t) {}
    virtual uint64_t job() { return 0; }
};
extern std::unique_ptr<afut> F[NF];

// a value whose live objects are counted, one count for each number
extern int alive[1000];
__attribute__((no_sanitize("thread"), noinline)) void count_value(int v, int by);
struct tracked
{
    int v = 0;
    tracked() = default;
    explicit tracked(int x) : v(x) { count_value(v, 1); }
    tracked(const tracked& o) : v(o.v) { count_value(v, 1); }
    tracked(tracked&& o) noexcept : v(o.v) { o.v = 0; }
    tracked& operator=(tracked o) noexcept
    {
        std::swap(v, o.v);
        return *this;
    }
    ~tracked()
    {
        count_value(v, -1);
        v = 0;
    }
};

// runs a task body, logging begin and end.  Returns the value or throws.
int body(int task, const std::string& parent, const std::string& as = {});
void run(const ops& o);
std::shared_ptr<void> luggage(); // what the next function given to the library has to carry (op carry)

template<typename T>
std::string describe(const T& v);

std::string classify(); // describes the exception being handled

void dur_call(long us, const std::function<void(std::chrono::microseconds)>& f);

// implemented in the other files; return false if the op is not theirs
bool core_op(const op& o);
bool fut_op(const op& o);
bool when_op(const op& o);
bool sync_op(const op& o);
void watch_sync();
bool pool_op(const op& o);
bool args_op(const op& o);

struct callev
{
    // "o":name plus extra json fields
    callev(const char* name, const std::string& extra = {});
    callev(const callev&) = delete;
    ~callev();      // a call that an unexpected exception leaves returns "escaped"
    void ret(const std::string& extra = {});
    const char* name;
    bool returned = false;
};
std::string kv(const char* k, long v);
std::string ks(const char* k, const std::string& v);
} // namespace drv

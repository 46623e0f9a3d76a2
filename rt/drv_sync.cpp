// Condition variables and mutexes.
#include <system_error>
#include <threadpp/condition_variable.hpp>
#include <threadpp/mutex.hpp>
#include "driver.h"

namespace drv
{
static std::mutex UM[N];
static std::unique_lock<std::mutex> UL[N][16]; // per user mutex and controlled thread
static tpp::condition_variable CVS[N];
static tpp::mutex MX[N];

template<typename Fn>
static std::string guarded(Fn&& f)
{
    try
    {
        f();
        return "";
    }
    catch(...)
    {
        return classify();
    }
}

void watch_sync()
{
    ctl::watch(CVS, sizeof CVS);
    ctl::watch(MX, sizeof MX);
}

bool sync_op(const op& o)
{
    const auto& n = o.name;
    auto arg = [&](size_t i) { return static_cast<int>(num(o.a[i])); };
    if(n == "ulock")
    {
        int m = arg(0);
        callev c("ulock", kv("x", m));
        UL[m][ctl::tid() & 15] = std::unique_lock<std::mutex>(UM[m]);
        c.ret();
    }
    else if(n == "uunlock")
    {
        int m = arg(0);
        callev c("uunlock", kv("x", m));
        auto z = guarded([&] { UL[m][ctl::tid() & 15].unlock(); });
        c.ret(ks("z", z));
    }
    else if(n == "cvwait")
    {
        int cv = arg(0), m = arg(1);
        callev c("cvwait", kv("x", cv) + kv("y", m));
        auto& l = UL[m][ctl::tid() & 15];
        auto z = guarded([&] { CVS[cv].wait(l); });
        c.ret(ks("z", z) + kv("h", l.owns_lock()));
    }
    else if(n == "cvwaitfor" || n == "cvwaituntil")
    {
        int cv = arg(0), m = arg(1);
        long d = num(o.a[2]);
        callev c("cvwaitfor", kv("x", cv) + kv("y", m) + kv("d", d));
        auto& l = UL[m][ctl::tid() & 15];
        std::cv_status st{};
        long us = d * prog.unit;
        auto z = guarded(
            [&]
            {
                if(n == "cvwaituntil") st = CVS[cv].wait_until(l, tpp::clock::now() + std::chrono::microseconds(us));
                else if(us % 1000 == 0) st = CVS[cv].wait_for(l, std::chrono::milliseconds(us / 1000));
                else st = CVS[cv].wait_for(l, std::chrono::microseconds(us));
            });
        c.ret(ks("z", z) + kv("h", l.owns_lock()) + kv("v", st == std::cv_status::timeout));
    }
    else if(n == "cvone" || n == "cvall")
    {
        int cv = arg(0);
        callev c(n == "cvone" ? "cvone" : "cvall", kv("x", cv));
        if(n == "cvone") CVS[cv].notify_one();
        else CVS[cv].notify_all();
        c.ret();
    }
    else if(n == "mlock")
    {
        int m = arg(0);
        callev c("mlock", kv("x", m));
        auto z = guarded([&] { MX[m].lock(); });
        c.ret(ks("z", z));
    }
    else if(n == "mtry")
    {
        int m = arg(0);
        callev c("mtry", kv("x", m));
        bool r = false;
        auto z = guarded([&] { r = MX[m].try_lock(); });
        c.ret(ks("z", z) + kv("v", r));
    }
    else if(n == "munlock")
    {
        int m = arg(0);
        callev c("munlock", kv("x", m));
        auto z = guarded([&] { MX[m].unlock(); });
        c.ret(ks("z", z));
    }
    else return false;
    return true;
}
} // namespace drv

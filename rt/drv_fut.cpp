// Promises, futures, continuations, asynchronous calls.
#include "holder.h"

namespace drv
{
static std::unique_ptr<tpp::promise<int>> PI[N];
static std::unique_ptr<tpp::promise<void>> PV[N];
static std::unique_ptr<tpp::promise<moveonly>> PU[N];
static std::unique_ptr<tpp::promise<tracked>> PT[N];

int alive[1000];
void count_value(int v, int by)
{
    if(v > 0) alive[v] += by;
}

static std::unique_ptr<afut> empty_future(const std::string& k)
{
    if(k == "I") return std::make_unique<holder<tpp::future<int>>>();
    if(k == "V") return std::make_unique<holder<tpp::future<void>>>();
    if(k == "U") return std::make_unique<holder<tpp::future<moveonly>>>();
    if(k == "T") return std::make_unique<holder<tpp::future<tracked>>>();
    if(k == "sI") return std::make_unique<holder<tpp::shared_future<int>>>();
    if(k == "sV") return std::make_unique<holder<tpp::shared_future<void>>>();
    if(k == "sU") return std::make_unique<holder<tpp::shared_future<moveonly>>>();
    return std::make_unique<holder<tpp::shared_future<tracked>>>();
}

template<typename Fn>
static std::string guarded(Fn&& f)
{
    try
    {
        return f();
    }
    catch(...)
    {
        return classify();
    }
}

template<typename R, typename Fn>
static tpp::future<R> call_async(int form, tpp::thread::id id, std::launch pol, Fn fn)
{
    switch(form)
    {
        case 0: return tpp::async(id, pol, fn);
        case 1: return tpp::async(id, fn);
        case 2: return tpp::async(pol, fn);
        default: return tpp::async(fn);
    }
}

static int form_of(const std::string& tgt, const std::string& pol)
{
    bool fresh = tgt == "new";
    return fresh ? (pol == "d" ? 3 : 2) : (pol == "d" ? 1 : 0);
}
static std::string polname(const std::string& p)
{
    return p == "a" ? "a" : "d"; // default and deferred behave alike
}

bool fut_op(const op& o)
{
    const auto& n = o.name;
    auto arg = [&](size_t i) { return static_cast<int>(num(o.a[i])); };
    if(n == "promise")
    {
        int p = arg(0);
        callev c("promise", kv("x", p));
        char k = o.a[1][0];
        if(k == 'I') PI[p].reset(own<tpp::promise<int>>());
        if(k == 'V') PV[p].reset(own<tpp::promise<void>>());
        if(k == 'U') PU[p].reset(own<tpp::promise<moveonly>>());
        if(k == 'T') PT[p].reset(own<tpp::promise<tracked>>());
        c.ret();
    }
    else if(n == "getfut")
    {
        int p = arg(0), f = arg(1);
        callev c("getfut", kv("x", p) + kv("f", f));
        auto z = guarded(
            [&]() -> std::string
            {
                if(PI[p]) F[f] = std::make_unique<holder<tpp::future<int>>>(PI[p]->get_future());
                else if(PV[p]) F[f] = std::make_unique<holder<tpp::future<void>>>(PV[p]->get_future());
                else if(PT[p]) F[f] = std::make_unique<holder<tpp::future<tracked>>>(PT[p]->get_future());
                else F[f] = std::make_unique<holder<tpp::future<moveonly>>>(PU[p]->get_future());
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "setv")
    {
        int p = arg(0), v = arg(1);
        callev c("setv", kv("x", p) + ks("w", "v" + std::to_string(PV[p] ? 0 : v)));
        auto z = guarded(
            [&]() -> std::string
            {
                if(PI[p])
                {
                    if(v % 2) PI[p]->set_value(static_cast<const int&>(v));
                    else PI[p]->set_value(int(v));
                }
                else if(PV[p]) PV[p]->set_value();
                else if(PT[p])
                {
                    tracked x(v);
                    if(v % 2) PT[p]->set_value(static_cast<const tracked&>(x));
                    else PT[p]->set_value(std::move(x));
                }
                else PU[p]->set_value(moveonly(v));
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "sete")
    {
        int p = arg(0), v = arg(1);
        callev c("setv", kv("x", p) + ks("w", "u" + std::to_string(v)));
        auto z = guarded(
            [&]() -> std::string
            {
                auto e = std::make_exception_ptr(user_error{v});
                if(PI[p]) PI[p]->set_exception(e);
                else if(PV[p]) PV[p]->set_exception(e);
                else if(PT[p]) PT[p]->set_exception(e);
                else PU[p]->set_exception(e);
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "abandon")
    {
        int p = arg(0);
        callev c("setv", kv("x", p) + ks("w", "broken"));
        auto z = guarded(
            [&]() -> std::string
            {
                if(PI[p]) PI[p]->abandon();
                else if(PV[p]) PV[p]->abandon();
                else if(PT[p]) PT[p]->abandon();
                else PU[p]->abandon();
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "drop")
    {
        int p = arg(0);
        callev c("drop", kv("x", p));
        auto z = guarded(
            [&]() -> std::string
            {
                // release the pointer first: continuations run by the destructor must not see it
                auto a = std::move(PI[p]);
                auto b = std::move(PV[p]);
                auto d = std::move(PU[p]);
                auto t = std::move(PT[p]);
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "passign" || n == "pmovector")
    {
        // promise p = std::move(promise q); afterwards name p owes what q owed
        int p = arg(0), q = arg(1);
        callev c("passign", kv("x", p) + kv("y", q));
        auto z = guarded(
            [&]() -> std::string
            {
                if(PI[p] && PI[q]) *PI[p] = std::move(*PI[q]);
                else if(PV[p] && PV[q]) *PV[p] = std::move(*PV[q]);
                else if(PU[p] && PU[q]) *PU[p] = std::move(*PU[q]);
                else if(PT[p] && PT[q]) *PT[p] = std::move(*PT[q]);
                else if(PT[q]) PT[p].reset(own<tpp::promise<tracked>>(std::move(*PT[q])));
                else if(PI[q]) PI[p].reset(own<tpp::promise<int>>(std::move(*PI[q])));
                else if(PV[q]) PV[p].reset(own<tpp::promise<void>>(std::move(*PV[q])));
                else if(PU[q]) PU[p].reset(own<tpp::promise<moveonly>>(std::move(*PU[q])));
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "pswap")
    {
        // two promises of the same kind
        int p = arg(0), q = arg(1);
        callev c("pswap", kv("x", p) + kv("y", q));
        auto z = guarded(
            [&]() -> std::string
            {
                if(PI[p] && PI[q]) std::swap(*PI[p], *PI[q]);
                else if(PV[p] && PV[q]) std::swap(*PV[p], *PV[q]);
                else if(PU[p] && PU[q]) std::swap(*PU[p], *PU[q]);
                else if(PT[p] && PT[q]) std::swap(*PT[p], *PT[q]);
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "fnull")
    {
        // a future object that stands for nothing
        int g = arg(0);
        callev c("fnull", kv("g", g) + kv("sh", o.a[1][0] == 's'));
        F[g] = empty_future(o.a[1]);
        c.ret();
    }
    else if(n == "fmove")
    {
        // assigned if there is an object of the same type, else a new object is made
        int f = arg(0), g = arg(1);
        callev c("fmove", kv("f", f) + kv("g", g));
        if(!F[g] || !F[g]->take(*F[f])) F[g] = F[f]->moved();
        c.ret();
    }
    else if(n == "fswap")
    {
        int f = arg(0), g = arg(1);
        callev c("fswap", kv("f", f) + kv("g", g));
        F[f]->exchange(*F[g]);
        c.ret();
    }
    else if(n == "cassign")
    {
        int f = arg(0), g = arg(1);
        callev c("copy", kv("f", f) + kv("g", g));
        if(!F[g] || !F[g]->take_copy(*F[f])) F[g] = F[f]->copy();
        c.ret();
    }
    else if(n == "vlive")
    {
        // how many objects hold this value
        callev c("vlive", ks("w", "v" + o.a[0]));
        c.ret(kv("v", alive[arg(0)]));
    }
    else if(n == "share")
    {
        int f = arg(0), g = arg(1);
        callev c("share", kv("f", f) + kv("g", g));
        F[g] = F[f]->share();
        c.ret();
    }
    else if(n == "copy")
    {
        int f = arg(0), g = arg(1);
        callev c("copy", kv("f", f) + kv("g", g));
        F[g] = F[f]->copy();
        c.ret();
    }
    else if(n == "fdrop")
    {
        int f = arg(0);
        callev c("fdrop", kv("f", f));
        F[f].reset();
        c.ret();
    }
    else if(n == "fwait")
    {
        int f = arg(0);
        callev c("fwait", kv("f", f));
        auto z = guarded(
            [&]() -> std::string
            {
                F[f]->wait();
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "fwaitfor" || n == "fwaituntil")
    {
        int f = arg(0);
        callev c("fwaitfor", kv("f", f) + kv("d", arg(1)));
        auto z = guarded(
            [&]() -> std::string
            {
                auto s = F[f]->wait_for(arg(1) * prog.unit, n == "fwaituntil");
                return s == std::future_status::ready ? "ready"
                                                      : s == std::future_status::timeout ? "timeout" : "deferred";
            });
        c.ret(ks("z", z));
    }
    else if(n == "get")
    {
        int f = arg(0);
        callev c("get", kv("f", f));
        auto z = guarded([&]() -> std::string { return F[f]->get(); });
        c.ret(ks("z", z));
    }
    else if(n == "ready" || n == "err" || n == "valid")
    {
        int f = arg(0);
        callev c(n == "ready" ? "ready" : n == "err" ? "err" : "valid", kv("f", f));
        auto z = guarded(
            [&]() -> std::string
            {
                bool b = n == "ready" ? F[f]->ready() : n == "err" ? F[f]->err() : F[f]->valid();
                return b ? "1" : "0";
            });
        c.ret(ks("z", z));
    }
    else if(n == "then")
    {
        // then f g target policy task kind
        int f = arg(0), g = arg(1), x = arg(4);
        int form = form_of(o.a[2], o.a[3]);
        auto id = form < 2 ? target(o.a[2]) : 0;
        callev c("then",
                 kv("f", f) + kv("g", g) + kv("k", static_cast<long>(id)) + kv("fresh", form >= 2) + kv("i", x) +
                     ks("p", polname(o.a[3])) + ks("vk", std::string(1, o.a[5][0])));
        auto z = guarded(
            [&]() -> std::string
            {
                auto r = F[f]->then(form, id, policy(o.a[3]), x, o.a[5][0]);
                F[g] = std::move(r);
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "async")
    {
        // async g target policy task kind
        int g = arg(0), x = arg(3);
        int form = form_of(o.a[1], o.a[2]);
        auto id = form < 2 ? target(o.a[1]) : 0;
        char k = o.a[4][0];
        callev c("async",
                 kv("g", g) + kv("k", static_cast<long>(id)) + kv("fresh", form >= 2) + kv("i", x) +
                     ks("p", polname(o.a[2])) + ks("vk", std::string(1, k)));
        auto pol = policy(o.a[2]);
        auto z = guarded(
            [&]() -> std::string
            {
                std::unique_ptr<afut> r;
                if(k == 'I')
                    r = std::make_unique<holder<tpp::future<int>>>(
                        call_async<int>(form, id, pol, [x, g = luggage()]() { return body(x, ""); }));
                else if(k == 'V')
                    r = std::make_unique<holder<tpp::future<void>>>(
                        call_async<void>(form, id, pol, [x, g = luggage()]() { body(x, ""); }));
                else
                    r = std::make_unique<holder<tpp::future<moveonly>>>(
                        call_async<moveonly>(form, id, pol, [x, g = luggage()]() { return moveonly(body(x, "")); }));
                F[g] = std::move(r);
                return "";
            });
        c.ret(ks("z", z));
    }
    else if(n == "mkready")
    {
        int g = arg(0), v = arg(2);
        char k = o.a[1][0];
        callev c("mkready", kv("g", g) + ks("w", "v" + std::to_string(k == 'V' ? 0 : v)));
        if(k == 'I') F[g] = std::make_unique<holder<tpp::future<int>>>(tpp::make_ready_future(int(v)));
        else if(k == 'V') F[g] = std::make_unique<holder<tpp::future<void>>>(tpp::make_ready_future());
        else F[g] = std::make_unique<holder<tpp::future<moveonly>>>(tpp::make_ready_future(moveonly(v)));
        c.ret();
    }
    else if(n == "mkexc")
    {
        int g = arg(0), v = arg(2);
        char k = o.a[1][0];
        callev c("mkready", kv("g", g) + ks("w", "u" + std::to_string(v)));
        auto e = std::make_exception_ptr(user_error{v});
        if(k == 'I' && v % 2) F[g] = std::make_unique<holder<tpp::future<int>>>(tpp::make_exceptional_future<int>(user_error{v}));
        else if(k == 'I') F[g] = std::make_unique<holder<tpp::future<int>>>(tpp::make_exceptional_future<int>(e));
        else if(k == 'V') F[g] = std::make_unique<holder<tpp::future<void>>>(tpp::make_exceptional_future<void>(e));
        else F[g] = std::make_unique<holder<tpp::future<moveonly>>>(tpp::make_exceptional_future<moveonly>(e));
        c.ret();
    }
    else return false;
    return true;
}
} // namespace drv

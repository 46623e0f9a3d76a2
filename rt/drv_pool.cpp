// Thread pools.
#include "holder.h"
#include <threadpp/thread_pool.h>

namespace drv
{
static std::unique_ptr<tpp::thread_pool> POOL[N];
static tpp::job_id JID[NF];

template<typename Fn>
static std::string guarded(Fn&& f)
{
    try
    {
        f();
        return "";
    }
    catch(...)
    {
        return classify();
    }
}

// programs use small priority ranks; the table maps them to actual priority numbers (order preserving)
static size_t rank(long r)
{
    switch(prog.prio_table)
    {
        case 1: return (static_cast<size_t>(r) << 33) | static_cast<size_t>(63 - r);
        case 2: return static_cast<size_t>(-1) - 63 + static_cast<size_t>(r);
        case 3: return static_cast<size_t>(r) * 0x7fffffffull;
        default: return static_cast<size_t>(r);
    }
}
tpp::priority::group grp(long l, long r)
{
    switch(l)
    {
        case 0: return tpp::priority::normal(rank(r));
        case 1: return tpp::priority::high(rank(r));
        default: return tpp::priority::critical(rank(r));
    }
}

tpp::thread_pool& pool_at(int p)
{
    return *POOL[p];
}
void name_job(int g, tpp::job_id id)
{
    JID[g] = id;
}

bool pool_op(const op& o)
{
    const auto& n = o.name;
    auto arg = [&](size_t i) { return static_cast<int>(num(o.a[i])); };
    if(n == "pool")
    {
        // pool p normal high critical
        int p = arg(0);
        callev c("pool", kv("x", p) + ",\"w\":[" + o.a[1] + "," + o.a[2] + "," + o.a[3] + "]");
        std::map<tpp::priority::category, size_t> w;
        for(int l = 0; l < 3; ++l)
            if(arg(1 + static_cast<size_t>(l)) > 0 || o.a.size() > 4)
                w[static_cast<tpp::priority::category>(l)] = static_cast<size_t>(arg(1 + static_cast<size_t>(l)));
        POOL[p].reset(own<tpp::thread_pool>(w));
        c.ret();
    }
    else if(n == "sched")
    {
        // sched p g level rank task kind
        int p = arg(0), g = arg(1), x = arg(4);
        char k = o.a[5][0];
        bool dflt = o.a[2] == "-";
        long lv = dflt ? 0 : num(o.a[2]), rk = dflt ? 0 : num(o.a[3]);
        callev c("sched", kv("x", p) + kv("g", g) + kv("l", lv) + kv("a", rk) + kv("i", x) + ks("vk", std::string(1, k)));
        std::unique_ptr<afut> r;
        auto gr = grp(lv, rk);
        if(k == 'I')
        {
            auto fn = [x, g = luggage()]() { return body(x, ""); };
            r = std::make_unique<holder<tpp::job_future<int>>>(dflt ? POOL[p]->schedule(fn) : POOL[p]->schedule(gr, fn));
        }
        else if(k == 'V')
        {
            auto fn = [x, g = luggage()]() { body(x, ""); };
            r = std::make_unique<holder<tpp::job_future<void>>>(dflt ? POOL[p]->schedule(fn) : POOL[p]->schedule(gr, fn));
        }
        else
        {
            auto fn = [x, g = luggage()]() { return moveonly(body(x, "")); };
            r = std::make_unique<holder<tpp::job_future<moveonly>>>(dflt ? POOL[p]->schedule(fn)
                                                                         : POOL[p]->schedule(gr, fn));
        }
        JID[g] = r->job();
        F[g] = std::move(r);
        c.ret(kv("v", static_cast<long>(JID[g])));
    }
    else if(n == "jstop")
    {
        // through the job's future f (name may be that of a shared copy); j: the job's own name
        callev c("jstop", kv("j", arg(1)));
        auto z = guarded([&] { F[arg(0)]->stop(); });
        c.ret(ks("z", z));
    }
    else if(n == "jprio")
    {
        callev c("jprio", kv("j", arg(1)) + kv("l", arg(2)) + kv("a", arg(3)));
        auto z = guarded([&] { F[arg(0)]->prio(arg(2), rank(arg(3))); });
        c.ret(ks("z", z));
    }
    else if(n == "pstop")
    {
        callev c("jstop", kv("j", arg(1)));
        auto z = guarded([&] { POOL[arg(0)]->stop(JID[arg(1)]); });
        c.ret(ks("z", z));
    }
    else if(n == "pprio")
    {
        callev c("jprio", kv("j", arg(1)) + kv("l", arg(2)) + kv("a", arg(3)));
        auto z = guarded([&] { POOL[arg(0)]->change_priority(JID[arg(1)], grp(arg(2), arg(3))); });
        c.ret(ks("z", z));
    }
    else if(n == "pstopall")
    {
        callev c("pstopall", kv("x", arg(0)));
        auto z = guarded([&] { POOL[arg(0)]->stop_all(); });
        c.ret(ks("z", z));
    }
    else if(n == "pwait")
    {
        callev c("pwait", kv("x", arg(0)) + kv("j", arg(1)));
        auto z = guarded([&] { POOL[arg(0)]->wait(JID[arg(1)]); });
        c.ret(ks("z", z));
    }
    else if(n == "pwaitall")
    {
        callev c("pwaitall", kv("x", arg(0)));
        auto z = guarded([&] { POOL[arg(0)]->wait_all(); });
        c.ret(ks("z", z));
    }
    else if(n == "pcount")
    {
        callev c("pcount", kv("x", arg(0)));
        auto v = POOL[arg(0)]->get_jobs_count();
        c.ret(kv("v", static_cast<long>(v)));
    }
    else if(n == "pdestroy")
    {
        int p = arg(0);
        callev c("pdestroy", kv("x", p));
        POOL[p].reset();
        c.ret();
    }
    else return false;
    return true;
}
} // namespace drv

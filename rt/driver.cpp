// Core operations, program parsing, exploration of schedules (one forked child per execution).
#include "driver.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <system_error>
#include <unistd.h>

namespace drv
{
program prog;
tpp::thread::id V[NF];
std::unique_ptr<afut> F[NF];

static tpp::thread* H[N];           // library threads (owned)
static tpp::shared_thread HS[N];
static std::thread* SH[N];          // plain threads

std::string kv(const char* k, long v)
{
    return std::string(",\"") + k + "\":" + std::to_string(v);
}
std::string ks(const char* k, const std::string& v)
{
    return std::string(",\"") + k + "\":\"" + v + "\"";
}

// an object captured by the next function given to the library; its destructor runs a task body
static thread_local std::shared_ptr<void> carried;
static thread_local int carried_task = -1;
struct carry_guard
{
    int y;
    explicit carry_guard(int t) : y(t) {}
    ~carry_guard()
    {
        try
        {
            body(y, "");
        }
        catch(...)
        {
        }
    }
};
std::shared_ptr<void> luggage()
{
    carried_task = -1;
    return std::move(carried);
}

static long lt()
{
    return static_cast<long>(ctl::now_us()) / prog.unit;
}

callev::callev(const char* nm, const std::string& extra) : name(nm)
{
    ctl::logf("{\"e\":\"c\",\"t\":%d,\"o\":\"%s\",\"n\":%ld%s%s,\"lg\":%ld}", ctl::tid(), nm, lt(), extra.c_str(),
              carried_task < 0 ? "" : kv("dt", carried_task).c_str(), static_cast<long>(ctl::lag_us()) / prog.unit);
}
callev::~callev()
{
    if(!returned) ret(kv("v", -1) + ks("z", "escaped"));
}
void callev::ret(const std::string& extra)
{
    returned = true;
    ctl::logf("{\"e\":\"r\",\"t\":%d,\"o\":\"%s\",\"n\":%ld%s}", ctl::tid(), name, lt(), extra.c_str());
}

long num(const std::string& s)
{
    return std::strtol(s.c_str(), nullptr, 10);
}

// m: main thread, s: self, 0: invalid, n<k>: literal id, otherwise variable number
tpp::thread::id target(const std::string& s)
{
    if(s == "s") return tpp::this_thread::get_id();
    if(s[0] == 'n') return static_cast<tpp::thread::id>(num(s.substr(1)));
    return V[num(s.substr(1))];
}

std::launch policy(const std::string& s)
{
    if(s == "a") return std::launch::async;
    if(s == "e") return std::launch::deferred;
    return std::launch::async | std::launch::deferred;
}

std::string classify()
{
    try
    {
        throw;
    }
    catch(const user_error& e)
    {
        return "u" + std::to_string(e.code);
    }
    catch(const user_failure& e)
    {
        return "u" + std::to_string(e.code);
    }
    catch(int v)
    {
        return "u" + std::to_string(v);
    }
    catch(const std::future_error& e)
    {
        if(e.code() == std::future_errc::broken_promise) return "broken";
        if(e.code() == std::future_errc::promise_already_satisfied) return "satisfied";
        if(e.code() == std::future_errc::future_already_retrieved) return "retrieved";
        if(e.code() == std::future_errc::no_state) return "nostate";
        return "future";
    }
    catch(const std::system_error& e)
    {
        if(e.code() == std::errc::resource_deadlock_would_occur) return "deadlk";
        if(e.code() == std::errc::no_lock_available) return "nolock";
        return "system";
    }
    catch(...)
    {
        return "other";
    }
}

int body(int task, const std::string& parent, const std::string& as)
{
    ctl::logf("{\"e\":\"b\",\"t\":%d,\"i\":%d,\"k\":%ld,\"n\":%ld,\"z\":\"%s\"%s}",
              ctl::tid(),
              task,
              static_cast<long>(tpp::this_thread::get_id()),
              lt(),
              parent.c_str(),
              as.empty() ? "" : ks("as", as).c_str());
    int v = task;
    std::string z;
    auto it = prog.tasks.find(task);
    if(it != prog.tasks.end())
    {
        ops rest;
        for(const auto& o : it->second)
        {
            if(o.name == "ret")
            {
                v = static_cast<int>(num(o.a[0]));
                continue;
            }
            if(o.name == "throw")
            {
                z = "u" + o.a[0];
                v = static_cast<int>(num(o.a[0]));
                continue;
            }
            ops one{o};
            run(one);
        }
    }
    ctl::logf("{\"e\":\"f\",\"t\":%d,\"i\":%d,\"n\":%ld,\"z\":\"%s\",\"lg\":%ld}",
              ctl::tid(),
              task,
              lt(),
              z.empty() ? ("v" + std::to_string(v)).c_str() : z.c_str(),
              static_cast<long>(ctl::lag_us()) / prog.unit);
    if(z.empty()) return v;
    if(task % 3 == 0) throw user_error{v};
    if(task % 3 == 1) throw user_failure(v);
    throw v;
}

static void script(int i)
{
    ctl::logf("{\"e\":\"S\",\"t\":%d,\"i\":%d,\"n\":%ld}", ctl::tid(), i, lt());
    run(prog.threads[i]);
    ctl::logf("{\"e\":\"E\",\"t\":%d,\"i\":%d,\"n\":%ld}", ctl::tid(), i, lt());
}

template<typename D>
static std::cv_status wf(D d, bool until)
{
    return until ? tpp::this_thread::wait_until(tpp::clock::now() + d) : tpp::this_thread::wait_for(d);
}
template<typename D>
static void sl(D d, bool until)
{
    until ? tpp::this_thread::sleep_until(tpp::clock::now() + d) : tpp::this_thread::sleep_for(d);
}

static std::string guarded(const std::function<void()>& f)
{
    try
    {
        f();
        return "";
    }
    catch(...)
    {
        return classify();
    }
}

static void hook(const char* w, const std::string& name)
{
    ctl::logf("{\"e\":\"h\",\"t\":%d,\"n\":%ld,\"w\":\"%s\",\"k\":%ld,\"z\":\"%s\"}", ctl::tid(), lt(), w,
              tpp::this_thread::is_registered() ? static_cast<long>(tpp::this_thread::get_id()) : 0L, name.c_str());
}

// what is told to a log hook; the hook itself uses the library
static void logged(const char* w)
{
    ctl::logf("{\"e\":\"l\",\"t\":%d,\"n\":%ld,\"w\":\"%s\"}", ctl::tid(), lt(), w);
    for(auto id : tpp::get_all_registered_threads())
    {
        tpp::get_pending_task_count(id);
    }
}

static void do_invoke(const char* nm, tpp::thread::id k, int x, bool disp)
{
    callev c(nm, kv("k", static_cast<long>(k)) + kv("i", x));
    bool r = false;
    auto z = guarded(
        [&]()
        {
            auto fn = [x, g = luggage()]() { body(x, ""); };
            r = disp ? tpp::dispatch(k, std::move(fn)) : tpp::invoke(k, std::move(fn));
        });
    c.ret(kv("v", r) + ks("z", z));
}

bool core_op(const op& o)
{
    const auto& n = o.name;
    auto arg = [&](size_t i) { return num(o.a[i]); };
    if(n == "init")
    {
        const auto which = o.a.empty() ? std::string() : o.a[0];
        const bool hooks = which.find('h') != std::string::npos;
        const bool logs = which.find('l') != std::string::npos;
        callev c("init", kv("h", hooks + 2 * logs) + ks("nm", "Main Thread"));
        tpp::init_data d;
        if(logs)
        {
            d.log_info = [](const std::string&) { logged("info"); };
            d.log_error = [](const std::string&) { logged("err"); };
        }
        if(hooks)
        {
            d.set_thread_name = [](const std::string& s) { hook("name", s); };
            d.on_thread_start = [](const std::string& s) { hook("start", s); };
        }
        tpp::init(d);
        V[0] = tpp::this_thread::get_id();
        c.ret(kv("v", static_cast<long>(V[0])));
    }
    else if(n == "shutdown")
    {
        callev c("shutdown", kv("d", arg(0) * 1000000 / prog.unit));
        int r = tpp::shutdown(std::chrono::seconds(arg(0)));
        c.ret(kv("v", r));
    }
    else if(n == "reg")
    {
        callev c("reg", ks("nm", o.a.size() > 1 ? o.a[1] : ""));
        if(o.a.size() > 1) tpp::this_thread::register_this_thread(o.a[1]);
        else tpp::this_thread::register_this_thread();
        auto id = tpp::this_thread::get_id();
        V[arg(0)] = id;
        c.ret(kv("v", static_cast<long>(id)));
    }
    else if(n == "regn")
    {
        int h = static_cast<int>(arg(1));
        callev c("regn", kv("x", h) + ks("nm", o.a.size() > 2 ? o.a[2] : ""));
        auto native = H[h] ? static_cast<std::thread*>(H[h])->get_id() : SH[h]->get_id();
        auto id = o.a.size() > 2 ? tpp::register_thread(native, o.a[2]) : tpp::register_thread(native);
        V[arg(0)] = id;
        c.ret(kv("v", static_cast<long>(id)));
    }
    else if(n == "unreg")
    {
        callev c("unreg");
        tpp::this_thread::unregister_this_thread();
        c.ret();
    }
    else if(n == "getid")
    {
        callev c("getid");
        auto v = tpp::this_thread::get_id();
        c.ret(kv("v", static_cast<long>(v)));
    }
    else if(n == "isreg")
    {
        callev c("isreg");
        auto v = tpp::this_thread::is_registered();
        c.ret(kv("v", v));
    }
    else if(n == "mainid")
    {
        callev c("mainid");
        auto v = tpp::main_thread::get_id();
        c.ret(kv("v", static_cast<long>(v)));
    }
    else if(n == "list")
    {
        callev c("list");
        auto l = tpp::get_all_registered_threads();
        std::sort(l.begin(), l.end());
        std::string s = ",\"v\":[";
        for(size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + std::to_string(l[i]);
        c.ret(s + "]");
    }
    else if(n == "exitq")
    {
        callev c("exitq");
        auto v = tpp::this_thread::notified_for_exit();
        c.ret(kv("v", v));
    }
    else if(n == "notify")
    {
        auto k = target(o.a[0]);
        callev c("notify", kv("k", static_cast<long>(k)));
        tpp::notify(k);
        c.ret();
    }
    else if(n == "nexit")
    {
        auto k = target(o.a[0]);
        callev c("nexit", kv("k", static_cast<long>(k)));
        tpp::notify_for_exit(k);
        c.ret();
    }
    else if(n == "invoke" || n == "dispatch")
    {
        do_invoke(n == "invoke" ? "invoke" : "dispatch", target(o.a[0]), static_cast<int>(arg(1)), n == "dispatch");
    }
    else if(n == "burst")
    {
        auto k = target(o.a[0]);
        for(int i = 0; i < arg(2); ++i) do_invoke("invoke", k, static_cast<int>(arg(1)) + i, false);
    }
    else if(n == "pend")
    {
        auto k = target(o.a[0]);
        callev c("pend", kv("k", static_cast<long>(k)));
        auto v = tpp::get_pending_task_count(k);
        c.ret(kv("v", static_cast<long>(v)));
    }
    else if(n == "pname")
    {
        auto k = target(o.a[0]);
        callev c("pname", kv("k", static_cast<long>(k)));
        auto i = tpp::get_pending_task_count_detailed(k);
        c.ret(kv("v", static_cast<long>(i.count)) + ks("z", i.thread_name));
    }
    else if(n == "depth")
    {
        callev c("depth");
        auto v = tpp::this_thread::get_depth();
        c.ret(kv("v", static_cast<long>(v)));
    }
    else if(n == "config")
    {
        auto k = target(o.a[0]);
        callev c("config", kv("k", static_cast<long>(k)));
        tpp::tasks_capacity_config cfg;
        cfg.default_reserved_tasks = static_cast<size_t>(arg(1));
        cfg.capacity_shrink_threashold = static_cast<size_t>(arg(2));
        bool v = tpp::set_thread_config(k, cfg);
        c.ret(kv("v", v));
    }
    else if(n == "process")
    {
        callev c("process");
        auto z = guarded([] { tpp::this_thread::process(); });
        c.ret(ks("z", z));
    }
    else if(n == "processfor")
    {
        callev c("processfor", kv("d", arg(0)));
        auto z = guarded([&] { tpp::this_thread::process_for(std::chrono::microseconds(arg(0) * prog.unit)); });
        c.ret(ks("z", z));
    }
    else if(n == "wait")
    {
        callev c("wait");
        auto z = guarded([] { tpp::this_thread::wait(); });
        c.ret(ks("z", z));
    }
    else if(n == "waitfor" || n == "waituntil")
    {
        callev c("waitfor", kv("d", arg(0)));
        std::cv_status st{};
        long us = arg(0) * prog.unit;
        bool u = n == "waituntil";
        auto z = guarded(
            [&]
            {
                if(us % 1000000 == 0) st = wf(std::chrono::seconds(us / 1000000), u);
                else if(us % 1000 == 0) st = wf(std::chrono::milliseconds(us / 1000), u);
                else st = wf(std::chrono::microseconds(us), u);
            });
        c.ret(ks("z", z) + kv("v", st == std::cv_status::timeout));
    }
    else if(n == "sleep" || n == "sleepuntil")
    {
        callev c("sleep", kv("d", arg(0)));
        long us = arg(0) * prog.unit;
        bool u = n == "sleepuntil";
        auto z = guarded(
            [&]
            {
                if(us % 1000000 == 0) sl(std::chrono::seconds(us / 1000000), u);
                else if(us % 1000 == 0) sl(std::chrono::milliseconds(us / 1000), u);
                else sl(std::chrono::microseconds(us), u);
            });
        c.ret(ks("z", z));
    }
    else if(n == "serve")
    {
        // the loop of a user written worker thread
        for(;;)
        {
            callev c("exitq");
            bool x = tpp::this_thread::notified_for_exit();
            c.ret(kv("v", x));
            if(x) break;
            callev w("wait");
            auto z = guarded([] { tpp::this_thread::wait(); });
            w.ret(ks("z", z));
        }
    }
    else if(n == "mkthread")
    {
        int i = static_cast<int>(arg(0));
        callev c("mkthread", kv("x", i) + ks("nm", o.a.size() > 1 && o.a[1] == "u" ? "" : "w" + o.a[0]));
        if(o.a.size() > 1 && o.a[1] == "s")
        {
            HS[i] = tpp::make_shared_thread("w" + o.a[0]);
            H[i] = HS[i].get();
        }
        else if(o.a.size() > 1 && o.a[1] == "u") H[i] = own<tpp::thread>(tpp::make_thread());
        else H[i] = own<tpp::thread>(tpp::make_thread("w" + o.a[0]));
        V[i] = H[i]->get_id();
        c.ret(kv("v", static_cast<long>(V[i])));
    }
    else if(n == "spawn")
    {
        int i = static_cast<int>(arg(0));
        callev c("spawn", kv("x", i) + ks("nm", o.a.size() > 1 ? "s" + o.a[0] : ""));
        if(o.a.size() > 1) { const std::string nm = "s" + o.a[0]; H[i] = own<tpp::thread>(nm, [i]() { script(i); }); }
        else H[i] = own<tpp::thread>([i]() { script(i); });
        V[i] = H[i]->get_id();
        c.ret(kv("v", static_cast<long>(V[i])));
    }
    else if(n == "sspawn")
    {
        int i = static_cast<int>(arg(0));
        callev c("sspawn", kv("x", i));
        SH[i] = own<std::thread>([i]() { script(i); });
        c.ret();
    }
    else if(n == "join" || n == "destroy")
    {
        int i = static_cast<int>(arg(0));
        callev c("join", kv("x", i));
        if(SH[i]) SH[i]->join();
        else if(n == "join") H[i]->join();
        else if(HS[i]) HS[i].reset();
        else delete H[i];
        c.ret();
    }
    else if(n == "tassign" || n == "tswap")
    {
        // handle i becomes handle j (tassign joins the thread of i first)
        int i = static_cast<int>(arg(0));
        int j = static_cast<int>(arg(1));
        callev c(n == "tassign" ? "tassign" : "tswap", kv("x", i) + kv("y", j));
        if(n == "tassign") *H[i] = std::move(*H[j]);
        else H[i]->swap(*H[j]);
        c.ret(kv("v", static_cast<long>(H[i]->get_id())) + kv("w", static_cast<long>(H[j]->get_id())));
    }
    else if(n == "tmove")
    {
        // a new handle i takes over what handle j stood for
        int i = static_cast<int>(arg(0));
        int j = static_cast<int>(arg(1));
        callev c("tmove", kv("x", i) + kv("y", j));
        H[i] = own<tpp::thread>(std::move(*H[j]));
        c.ret(kv("v", static_cast<long>(H[i]->get_id())));
    }
    else if(n == "tnull")
    {
        int i = static_cast<int>(arg(0));
        callev c("tnull", kv("x", i));
        H[i] = own<tpp::thread>();
        c.ret(kv("v", static_cast<long>(H[i]->get_id())));
    }
    else if(n == "hid")
    {
        int i = static_cast<int>(arg(0));
        callev c("hid", kv("x", i));
        c.ret(kv("v", static_cast<long>(H[i]->get_id())) + ks("z", H[i]->joinable() ? "1" : "0"));
    }
    else if(n == "put")
    {
        int x = static_cast<int>(arg(0));
        callev c("put", kv("x", x));
        ctl::put(x);
        c.ret();
    }
    else if(n == "see")
    {
        int x = static_cast<int>(arg(0));
        callev c("see", kv("x", x));
        c.ret(kv("v", ctl::sees(x)));
    }
    else if(n == "carry")
    {
        carried = std::make_shared<carry_guard>(static_cast<int>(arg(0)));
        carried_task = static_cast<int>(arg(0));
    }
    else if(n == "detach")
    {
        int i = static_cast<int>(arg(0));
        callev c("detach", kv("x", i));
        if(SH[i]) SH[i]->detach();
        else H[i]->detach();
        c.ret();
    }
    else if(n == "await")
    {
        callev c("await", kv("x", arg(0)));
        ctl::flag_wait(static_cast<int>(arg(0)));
        c.ret();
    }
    else if(n == "signal")
    {
        callev c("signal", kv("x", arg(0)));
        ctl::flag_set(static_cast<int>(arg(0)));
        c.ret();
    }
    else if(n == "busy")
    {
        callev c("busy", kv("d", arg(0)));
        ctl::busy_us(static_cast<uint64_t>(arg(0) * prog.unit));
        c.ret();
    }
    else if(n == "yield")
    {
        ctl::yield();
    }
    else return false;
    return true;
}

void run(const ops& os)
{
    for(const auto& o : os)
    {
        try
        {
            if(core_op(o) || fut_op(o) || when_op(o) || sync_op(o) || pool_op(o) || args_op(o)) continue;
        }
        catch(...)
        {
            continue;
        }
        ctl::fail(("unknown op " + o.name).c_str());
    }
}

// ---- program text ----------------------------------------------------------------------------------
static bool parse(std::istream& in, program& p)
{
    std::string line;
    ops* dst = nullptr;
    p = {};
    while(std::getline(in, line))
    {
        std::istringstream ss(line);
        std::string w;
        if(!(ss >> w) || w[0] == '#') continue;
        if(w == "end") return true;
        if(w == "thread")
        {
            int i;
            ss >> i;
            dst = &p.threads[i];
            continue;
        }
        if(w == "task")
        {
            int i;
            ss >> i;
            dst = &p.tasks[i];
            continue;
        }
        if(w == "unit")
        {
            ss >> p.unit;
            continue;
        }
        if(w == "prios")
        {
            ss >> p.prio_table;
            continue;
        }
        op o;
        o.name = w;
        while(ss >> w) o.a.push_back(w);
        if(!dst) return false;
        dst->push_back(o);
    }
    return false;
}

// ---- exploration -----------------------------------------------------------------------------------
struct outcome
{
    std::vector<std::string> ev;
    bool ok = true;
};

static outcome execute()
{
    ctl::area->ndec = 0;
    ctl::area->npre = 0;
    ctl::area->steps = 0;
    ctl::area->ended = 0;
    ctl::area->len = 0;
    pid_t pid = fork();
    if(pid == 0)
    {
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        freopen("/dev/null", "w", stderr);
        alarm(20);
        ctl::begin();
        watch_sync();
        script(0);
        ctl::main_done();
    }
    int st = 0;
    waitpid(pid, &st, 0);
    outcome r;
    std::string cur;
    for(size_t i = 0; i < ctl::area->len; ++i)
    {
        char c = ctl::area->log[i];
        if(c == '\n')
        {
            r.ev.push_back(cur);
            cur.clear();
        }
        else cur += c;
    }
    if(ctl::area->ended == 2)
    {
        r.ok = false;
    }
    else if(!ctl::area->ended)
    {
        std::string w = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                        : "exit " + std::to_string(WEXITSTATUS(st));
        r.ev.push_back("{\"e\":\"crash\",\"n\":" + std::to_string(lt()) + ",\"w\":\"" + w + "\"}");
    }
    return r;
}

static uint64_t hash_trace(const std::vector<std::string>& ev, bool with_time)
{
    uint64_t h = 1469598103934665603ull;
    for(const auto& s : ev)
    {
        size_t skip_from = std::string::npos, skip_to = 0;
        if(!with_time)
        {
            skip_from = s.find(",\"n\":");
            if(skip_from != std::string::npos)
            {
                skip_to = skip_from + 5;
                while(skip_to < s.size() && isdigit(static_cast<unsigned char>(s[skip_to]))) ++skip_to;
            }
        }
        size_t end = s.size();
        if(!with_time && s.rfind(",\"lg\":") != std::string::npos) end = s.rfind(",\"lg\":");
        for(size_t i = 0; i < end; ++i)
        {
            if(skip_from != std::string::npos && i >= skip_from && i < skip_to) continue;
            h = (h ^ static_cast<unsigned char>(s[i])) * 1099511628211ull;
        }
        h = (h ^ 10) * 1099511628211ull;
    }
    return h;
}

static std::string replay_spec()
{
    std::ostringstream o;
    o << ctl::cfg.adv << ":" << ctl::cfg.spurious << ":";
    int n = ctl::area->ndec;
    // trailing zeros are the default
    if(ctl::cfg.mode != ctl::M_REPLAY)
        while(n > 0 && ctl::area->dec[n - 1] == 0) --n;
    for(int i = 0; i < n; ++i)
    {
        int run = 1;
        while(i + run < n && ctl::area->dec[i + run] == ctl::area->dec[i]) ++run;
        o << int(ctl::area->dec[i]) << (run > 1 ? "x" + std::to_string(run) : "") << ",";
        i += run - 1;
    }
    o << ":";
    for(int i = 0; i < ctl::area->npre; ++i) o << ctl::area->pre[i] << ",";
    return o.str();
}

static void set_replay(const std::string& s)
{
    auto& c = ctl::cfg;
    c.mode = ctl::M_REPLAY;
    std::vector<std::string> part(1);
    for(char ch : s)
    {
        if(ch == ':') part.emplace_back();
        else part.back() += ch;
    }
    part.resize(4);
    c.adv = atoi(part[0].c_str());
    c.spurious = atoi(part[1].c_str());
    c.nrep = 0;
    std::istringstream d(part[2]);
    std::string w;
    while(std::getline(d, w, ','))
    {
        if(w.empty()) continue;
        size_t x = w.find('x');
        int v = atoi(w.c_str());
        int n = x == std::string::npos ? 1 : atoi(w.c_str() + x + 1);
        while(n-- && c.nrep < ctl::MAX_DEC) c.rep[c.nrep++] = static_cast<unsigned char>(v);
    }
    c.npre = 0;
    std::istringstream e(part[3]);
    while(std::getline(e, w, ','))
        if(!w.empty() && c.npre < ctl::MAX_PRE) c.pre[c.npre++] = strtoull(w.c_str(), nullptr, 10);
}

static void emit(std::ostream& out, int pid, const std::string& spec, const outcome& o)
{
    out << "{\"p\":" << pid << ",\"k\":\"" << spec << "\",\"ev\":[";
    for(size_t i = 0; i < o.ev.size(); ++i) out << (i ? "," : "") << o.ev[i];
    out << "]}\n";
}

static double mono()
{
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

} // namespace drv

using namespace drv;

// usage: driver JOBS OUT CPU
// JOBS: repeated   prog <id> <maxruns> <maxtraces> <seed> <adv> <spurious> <plain> <withtime> <budget_ms>  text.. end
//       or         replay <id> <spec>   text.. end
int main(int argc, char** argv)
{
    if(argc < 3) return 2;
    if(argc > 3 && atoi(argv[3]) >= 0)
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(atoi(argv[3]), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    ctl::area = static_cast<ctl::shared_area*>(
        mmap(nullptr, sizeof(ctl::shared_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while(std::getline(in, line))
    {
        std::istringstream ss(line);
        std::string w;
        if(!(ss >> w)) continue;
        if(w == "replay")
        {
            int id;
            std::string spec;
            ss >> id >> spec;
            if(!parse(in, prog)) return 2;
            set_replay(spec);
            auto o = execute();
            if(!o.ok) return 2;
            emit(out, id, spec, o);
            continue;
        }
        if(w != "prog") return 2;
        int id, maxruns, maxtraces, adv, spur, plain, withtime;
        uint64_t seed;
        double budget;
        ss >> id >> maxruns >> maxtraces >> seed >> adv >> spur >> plain >> withtime >> budget;
        if(!parse(in, prog)) return 2;
        std::set<uint64_t> seen;
        std::vector<std::pair<std::string, outcome>> good; // executions that ran to completion
        int ill = 0;                                       // the others
        int raced = 0;                                     // executions with a data race
        int runs = 0, bad = 0, kinds[6] = {0, 0, 0, 0, 0, 0};
        long points = 0;
        double t0 = mono();
        auto once = [&](int kind)
        {
            auto o = execute();
            ++runs;
            ++kinds[kind];
            points += ctl::area->steps;
            if(!o.ok)
            {
                ++bad;
                return;
            }
            if(!seen.insert(hash_trace(o.ev, withtime != 0)).second) return;
            bool race = false;
            for(auto& e : o.ev) race = race || e.find("\"e\":\"race\"") != std::string::npos;
            if(race && ++raced <= 3) emit(out, id, replay_spec(), o);
            else if(o.ev.back().find("\"done\"") != std::string::npos) good.emplace_back(replay_spec(), std::move(o));
            else if(++ill <= maxtraces) emit(out, id, replay_spec(), o);
        };
        auto more = [&]() { return runs < maxruns && (mono() - t0) * 1000 < budget; };
        auto& c = ctl::cfg;
        c.mode = ctl::M_DEFAULT;
        c.seed = seed;
        c.adv = 0;
        c.spurious = 0;
        c.plain_gap = 0;
        c.ndev = 0;
        once(0);
        int base = ctl::area->ndec;
        std::vector<int> nopt(static_cast<size_t>(base));
        for(int i = 0; i < base; ++i) nopt[static_cast<size_t>(i)] = ctl::area->nopt[i];
        uint64_t rs = seed * 0x9E3779B97F4A7C15ull + 99;
        auto rnd = [&]()
        {
            rs ^= rs << 13;
            rs ^= rs >> 7;
            rs ^= rs << 17;
            return rs >> 8;
        };
        // every single deviation from the default schedule (sampled if there are too many)
        {
            std::vector<std::pair<int, int>> devs;
            for(int i = 0; i < base; ++i)
                for(int k = 1; k < nopt[static_cast<size_t>(i)]; ++k) devs.emplace_back(i, k);
            size_t cap = static_cast<size_t>(maxruns / 3 + 1);
            for(size_t i = 0; i < devs.size(); ++i) std::swap(devs[i], devs[i + rnd() % (devs.size() - i)]);
            if(devs.size() > cap) devs.resize(cap);
            for(auto& d : devs)
            {
                if(!more()) break;
                c.mode = ctl::M_DEFAULT;
                c.adv = 0;
                c.spurious = 0;
                c.plain_gap = 0;
                c.ndev = 1;
                c.dev[0] = {d.first, d.second};
                once(1);
            }
        }
        int it = 0;
        while(more())
        {
            ++it;
            c.seed = seed * 1000003ull + static_cast<uint64_t>(it);
            c.ndev = 0;
            c.adv = (adv && it % 2) ? adv : 0;
            c.spurious = (spur && it % 5 == 0) ? spur : 0;
            c.plain_gap = 0;
            if(plain && it % 4 == 3) c.plain_gap = (it % 8 == 3) ? 30 : 300;
            switch(it % 3)
            {
                case 0:
                    c.mode = ctl::M_RANDOM;
                    c.cont_num = static_cast<int>(rnd() % 15);
                    once(2);
                    break;
                case 1:
                    c.mode = ctl::M_PCT;
                    c.pct_depth = 1 + static_cast<int>(rnd() % 4);
                    c.pct_len = base + base / 2 + 10;
                    once(3);
                    break;
                default:
                    c.mode = ctl::M_DEFAULT;
                    c.ndev = 2 + static_cast<int>(rnd() % 3);
                    for(int i = 0; i < c.ndev; ++i)
                        c.dev[i] = {static_cast<int>(rnd() % static_cast<uint64_t>(base + base / 4 + 2)),
                                    1 + static_cast<int>(rnd() % 3)};
                    once(4);
                    break;
            }
        }
        // all executions that did not complete and some with a data race are kept (up to the limit), the others are sampled
        for(size_t i = 1; i < good.size(); ++i) std::swap(good[i], good[i + rnd() % (good.size() - i)]);
        for(size_t i = 0; i < good.size() && static_cast<int>(i) < maxtraces; ++i)
            emit(out, id, good[i].first, good[i].second);
        out << "{\"stat\":" << id << ",\"runs\":" << runs << ",\"bad\":" << bad << ",\"points\":" << points
            << ",\"base\":" << base << ",\"distinct\":" << seen.size() << ",\"ill\":" << ill << ",\"secs\":" << (mono() - t0) << "}\n";
        out.flush();
    }
    return 0;
}

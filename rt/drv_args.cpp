// Argument passing: the same calls as elsewhere (invoke, dispatch, async, schedule, then), made with various
// callables and arguments.  The call event says what the callable has to see ("as") and what the caller's own
// objects must look like after the call ("cx"); the begin event of the task says what it saw, the return event
// what became of the caller's objects ("ca").  Compiled once per PART (-1: left out).
#include "holder.h"
namespace drv
{
#if PART == -1
bool args_op(const op&)
{
    return false;
}
#else
tpp::thread_pool& pool_at(int p);
void name_job(int g, tpp::job_id id);
tpp::priority::group grp(long l, long r);

// every live object is counted; an object that is destroyed twice or used after its end is noticed
extern long live, broken;
// not a scheduling point
__attribute__((no_sanitize("thread"), noinline)) void tally(long alive, long bad);

struct trk
{
    int v;
    std::string pay;
    unsigned magic = 0x600d600d;
    static std::string load(int v) { return "a payload that needs memory of its own " + std::to_string(v); }
    explicit trk(int x) : v(x), pay(load(x)) { tally(1, 0); }
    trk(const trk& o) : v(o.v), pay(o.pay) { o.check(); tally(1, 0); }
    trk(trk&& o) noexcept : v(o.v), pay(std::move(o.pay))
    {
        o.check();
        o.v = -2;
        tally(1, 0);
    }
    trk& operator=(const trk& o)
    {
        check();
        o.check();
        v = o.v;
        pay = o.pay;
        return *this;
    }
    trk& operator=(trk&& o) noexcept
    {
        check();
        o.check();
        v = o.v;
        pay = std::move(o.pay);
        o.v = -2;
        return *this;
    }
    ~trk()
    {
        check();
        magic = 0xdeadbeef;
        tally(-1, 0);
    }
    void check() const
    {
        if(magic != 0x600d600d) tally(0, 1);
    }
    void set(int x)
    {
        v = x;
        pay = load(x);
    }
};
struct mtrk
{
    trk t;
    explicit mtrk(int x) : t(x) {}
    mtrk(mtrk&&) = default;
    mtrk& operator=(mtrk&&) = default;
    mtrk(const mtrk&) = delete;
    mtrk& operator=(const mtrk&) = delete;
};
inline std::string S(const trk& t)
{
    t.check();
    return t.pay == trk::load(t.v) ? std::to_string(t.v) : "damaged";
}
inline std::string S(const mtrk& t) { return S(t.t); }
template<typename A, typename... R>
std::string S(const A& a, const R&... r)
{
    return S(a) + "/" + S(r...);
}

inline int fptr(int x, trk p)
{
    return body(x, "", S(p));
}
struct functor
{
    int x;
    trk t;
    int operator()(const trk& a) const { return body(x, "", S(t, a)); }
};
struct mfunctor
{
    int x;
    std::unique_ptr<trk> t;
    int operator()(trk a) { return body(x, "", t ? S(*t, a) : "gone"); }
};

// what the task has to see / what the caller has to find afterwards
inline std::string expect_as(char f, int x)
{
    auto n = [&](int i) { return std::to_string(10 * x + i); };
    switch(f)
    {
        case 'c': return n(1) + "/" + n(2) + "/" + n(3);
        case 'g': case 'h': case 'p': return n(1) + "/" + n(2);
        case 'k': return "s" + n(1) + "/2:" + n(2);
        default: return n(1);
    }
}
inline std::string expect_ca(char f, int x)
{
    auto n = [&](int i) { return std::to_string(10 * x + i); };
    switch(f)
    {
        case 'a': case 'e': case 'i': case 'j': case 'l': return n(1);
        case 'c': return n(1) + "/" + n(3);
        case 'g': case 'p': return n(1) + "/" + n(2);
        case 'k': return "s" + n(1);
        case 'o': return "callable";
        default: return "";
    }
}

// makes the call in form f; returns what the caller finds afterwards.  call(fn, args...) is the library call.
template<typename Call>
std::string with_form(char f, int x, Call&& call)
{
    int a = 10 * x + 1, b = 10 * x + 2, d = 10 * x + 3;
    std::string ca;
    switch(f)
    {
        case 'a':
        {
            trk t(a);
            call([x](const trk& p) { return body(x, "", S(p)); }, t);
            ca = S(t);
            t.set(7);
            break;
        }
        case 'b': call([x](trk p) { return body(x, "", S(p)); }, trk(a)); break;
        case 'c':
        {
            trk t(a), u(b), w(d);
            call([x](const trk& p, trk q, trk r) { return body(x, "", S(p, q, r)); }, t, std::move(u), w);
            ca = S(t, w);
            t.set(7);
            w.set(8);
            break;
        }
        case 'd': call([x](mtrk p) { return body(x, "", S(p)); }, mtrk(a)); break;
        case 'e':
        {
            trk t(a);
            call(&fptr, x, t);
            ca = S(t);
            t.set(7);
            break;
        }
        case 'g':
        {
            functor fn{x, trk(a)};
            trk t(b);
            call(fn, t);
            ca = S(fn.t, t);
            fn.t.set(7);
            fn.x = 0;
            break;
        }
        case 'h': call(mfunctor{x, std::make_unique<trk>(a)}, trk(b)); break;
        case 'i':
        {
            const trk t(a);
            call([x](const trk& p) { return body(x, "", S(p)); }, t);
            ca = S(t);
            break;
        }
        case 'j':
        {
            auto p = std::make_shared<trk>(a);
            call([x](const std::shared_ptr<trk>& q) { return body(x, "", q ? S(*q) : "null"); }, p);
            ca = p ? S(*p) : "null";
            break;
        }
        case 'k':
        {
            std::string s = "s" + std::to_string(a);
            std::vector<int> v{b, b};
            call([x](std::string p, std::vector<int> q)
                 { return std::to_string(body(x, "", p + "/" + std::to_string(q.size()) + ":" +
                                                      (q.empty() ? "" : std::to_string(q.back())))); },
                 s, std::move(v));
            ca = s;
            s = "changed";
            break;
        }
        case 'l':
        {
            trk t(a);
            call([x](trk& p)
                 {
                     auto z = S(p);
                     p.set(9);
                     return body(x, "", z);
                 },
                 t);
            ca = S(t);
            t.set(7);
            break;
        }
        case 'n':
        {
            trk t(a);
            call([x, t]() { return body(x, "", S(t)); });
            break;
        }
        case 'o':
        {
            std::function<int(int)> fn = [x, t = trk(a)](int v) { return body(x, "", v == t.v ? S(t) : "wrong"); };
            call(fn, a);
            ca = fn ? "callable" : "empty";
            break;
        }
        default:
        {
            const functor fn{x, trk(a)};
            trk t(b);
            call(fn, t);
            ca = S(fn.t, t);
            break;
        }
    }
    return ca;
}

template<typename Fn>
static std::string guarded(Fn&& f)
{
    try
    {
        f();
        return "";
    }
    catch(...)
    {
        return classify();
    }
}

template<typename R>
static void hold(int g, tpp::future<R>&& f)
{
    F[g] = std::make_unique<holder<tpp::future<R>>>(std::move(f));
}
template<typename R>
static void hold(int g, tpp::job_future<R>&& f)
{
    name_job(g, f.id);
    F[g] = std::make_unique<holder<tpp::job_future<R>>>(std::move(f));
}

static std::string exps(char f, int x)
{
    return ks("as", expect_as(f, x)) + ks("cx", expect_ca(f, x));
}
static int form_of(const std::string& tgt, const std::string& pol)
{
    bool fresh = tgt == "new";
    return fresh ? (pol == "d" ? 3 : 2) : (pol == "d" ? 1 : 0);
}

void args_inv(const op& o);
void args_disp(const op& o);
void args_async(const op& o);
void args_sched(const op& o);
void args_then(const op& o);

#if PART == 0
long live, broken;
void tally(long alive, long bad)
{
    live += alive;
    broken += bad;
}
bool args_op(const op& o)
{
    const auto& n = o.name;
    if(n == "inva") args_inv(o);
    else if(n == "dispa") args_disp(o);
    else if(n == "asyna") args_async(o);
    else if(n == "scheda") args_sched(o);
    else if(n == "thena") args_then(o);
    else if(n == "census")
    {
        // objects still alive, and whether any was mistreated
        callev c("census");
        c.ret(kv("v", live) + ks("z", broken ? "broken" : ""));
    }
    else return false;
    return true;
}
void args_inv(const op& o)
{
    // inva target task form
    int x = static_cast<int>(num(o.a[1]));
    auto k = target(o.a[0]);
    callev c("invoke", kv("k", static_cast<long>(k)) + kv("i", x) + exps(o.a[2][0], x));
    bool r = false;
    std::string ca;
    auto z = guarded(
        [&]
        {
            ca = with_form(o.a[2][0], x,
                           [&](auto&& fn, auto&&... as)
                           { r = tpp::invoke(k, std::forward<decltype(fn)>(fn), std::forward<decltype(as)>(as)...); });
        });
    c.ret(kv("v", r) + ks("z", z) + ks("ca", ca));
}
#elif PART == 1
void args_disp(const op& o)
{
    // dispa target task form; a direct call may change what it got by reference
    int x = static_cast<int>(num(o.a[1]));
    char f = o.a[2][0] == 'l' ? 'a' : o.a[2][0];
    auto k = target(o.a[0]);
    callev c("dispatch", kv("k", static_cast<long>(k)) + kv("i", x) + exps(f, x));
    bool r = false;
    std::string ca;
    auto z = guarded(
        [&]
        {
            ca = with_form(f, x,
                           [&](auto&& fn, auto&&... as)
                           { r = tpp::dispatch(k, std::forward<decltype(fn)>(fn), std::forward<decltype(as)>(as)...); });
        });
    c.ret(kv("v", r) + ks("z", z) + ks("ca", ca));
}
void args_then(const op& o)
{
    // thena f g target policy task form; the parent is an int future
    int f = static_cast<int>(num(o.a[0])), g = static_cast<int>(num(o.a[1])), x = static_cast<int>(num(o.a[4]));
    int form = form_of(o.a[2], o.a[3]);
    char m = o.a[5][0];
    auto id = form < 2 ? target(o.a[2]) : 0;
    std::string as = std::to_string(10 * x + 1);
    callev c("then",
             kv("f", f) + kv("g", g) + kv("k", static_cast<long>(id)) + kv("fresh", form >= 2) + kv("i", x) +
                 ks("p", o.a[3] == "a" ? "a" : "d") + ks("vk", "I") + ks("as", as) + ks("cx", m == 'h' ? "" : as));
    std::string ca;
    auto go = [&](auto& fut)
    {
        using B = std::decay_t<decltype(fut)>;
        struct cf
        {
            int x;
            trk t;
            int operator()(B p) { return body(x, peek_parent(p), S(t)); }
        };
        struct cm
        {
            int x;
            std::unique_ptr<trk> t;
            int operator()(B p) { return body(x, peek_parent(p), t ? S(*t) : "gone"); }
        };
        auto pol = policy(o.a[3]);
        if(m == 'h') hold(g, then_call(fut, form, id, pol, cm{x, std::make_unique<trk>(10 * x + 1)}));
        else
        {
            cf fn{x, trk(10 * x + 1)};
            hold(g, then_call(fut, form, id, pol, fn));
            ca = S(fn.t);
            fn.t.set(7);
        }
    };
    auto z = guarded(
        [&]
        {
            if(auto* h = dynamic_cast<holder<tpp::future<int>>*>(F[f].get())) go(h->f);
            else if(auto* s = dynamic_cast<holder<tpp::shared_future<int>>*>(F[f].get())) go(s->f);
        });
    c.ret(ks("z", z) + ks("ca", ca));
}
#elif PART == 2
void args_async(const op& o)
{
    // asyna g target policy task form
    int g = static_cast<int>(num(o.a[0])), x = static_cast<int>(num(o.a[3]));
    char f = o.a[4][0];
    int form = form_of(o.a[1], o.a[2]);
    auto id = form < 2 ? target(o.a[1]) : 0;
    auto pol = policy(o.a[2]);
    callev c("async",
             kv("g", g) + kv("k", static_cast<long>(id)) + kv("fresh", form >= 2) + kv("i", x) +
                 ks("p", o.a[2] == "a" ? "a" : "d") + ks("vk", "I") + exps(f, x));
    std::string ca;
    auto z = guarded(
        [&]
        {
            ca = with_form(f, x,
                           [&](auto&& fn, auto&&... as)
                           {
                               using Fn = decltype(fn);
                               if(form == 0) hold(g, tpp::async(id, pol, std::forward<Fn>(fn), std::forward<decltype(as)>(as)...));
                               else if(form == 1) hold(g, tpp::async(id, std::forward<Fn>(fn), std::forward<decltype(as)>(as)...));
                               else if(form == 2) hold(g, tpp::async(pol, std::forward<Fn>(fn), std::forward<decltype(as)>(as)...));
                               else hold(g, tpp::async(std::forward<Fn>(fn), std::forward<decltype(as)>(as)...));
                           });
        });
    c.ret(ks("z", z) + ks("ca", ca));
}
#else
void args_sched(const op& o)
{
    // scheda p g level rank task form
    int p = static_cast<int>(num(o.a[0])), g = static_cast<int>(num(o.a[1])), x = static_cast<int>(num(o.a[4]));
    char f = o.a[5][0];
    bool dflt = o.a[2] == "-";
    long lv = dflt ? 0 : num(o.a[2]), rk = dflt ? 0 : num(o.a[3]);
    callev c("sched", kv("x", p) + kv("g", g) + kv("l", lv) + kv("a", rk) + kv("i", x) + ks("vk", "I") + exps(f, x));
    auto gr = grp(lv, rk);
    auto ca = with_form(f, x,
                        [&](auto&& fn, auto&&... as)
                        {
                            using Fn = decltype(fn);
                            if(dflt) hold(g, pool_at(p).schedule(std::forward<Fn>(fn), std::forward<decltype(as)>(as)...));
                            else hold(g, pool_at(p).schedule(gr, std::forward<Fn>(fn), std::forward<decltype(as)>(as)...));
                        });
    c.ret(ks("ca", ca));
}
#endif
#endif
} // namespace drv

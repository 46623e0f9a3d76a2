// when_all / when_any over tuples and ranges of unique and shared futures.  Compiled once per PART (the
// instantiations are slow to compile).
#include "holder.h"
#if PART == -1
bool drv::when_op(const op&)
{
    return false;
}
#else
#include <threadpp/when_all_any.hpp>

#include <array>

namespace drv
{
// a future of a collection of futures: getting it puts the futures back in their slots
template<typename FT>
struct slotted
{
    static FT take(int s)
    {
        auto* h = dynamic_cast<holder<FT>*>(F[s].get());
        if(!h) ctl::fail("when: wrong future kind");
        return std::move(h->f);
    }
    static void put(int s, FT&& f)
    {
        F[s] = std::make_unique<holder<FT>>(std::move(f));
    }
};

template<typename R>
struct when_holder : afut
{
    tpp::future<R> f;
    std::vector<int> slots;
    std::function<std::string(R&&, const std::vector<int>&)> unpack;
    bool valid() override { return f.valid(); }
    bool ready() override { return f.is_ready(); }
    bool err() override { return f.has_error(); }
    void wait() override { f.wait(); }
    std::future_status wait_for(long us, bool until) override
    {
        return until ? f.wait_until(tpp::clock::now() + std::chrono::microseconds(us))
                     : f.wait_for(std::chrono::microseconds(us));
    }
    std::string get() override { return unpack(f.get(), slots); }
    std::unique_ptr<afut> share() override { return nullptr; }
    std::unique_ptr<afut> copy() override { return nullptr; }
    std::unique_ptr<afut> then(int form, tpp::thread::id id, std::launch pol, int task, char) override
    {
        auto s = slots;
        auto u = unpack;
        (void)form;
        (void)pol;
        auto g = f.then(id,
                           [task, s, u](tpp::future<R> p)
                           {
                               std::string d;
                               if(!p.valid()) d = "invalid";
                               else if(!p.is_ready()) d = "notready";
                               else
                               {
                                   try
                                   {
                                       d = u(p.get(), s);
                                   }
                                   catch(...)
                                   {
                                       d = classify();
                                   }
                               }
                               return body(task, d);
                           });
        return std::make_unique<holder<tpp::future<int>>>(std::move(g));
    }
};

template<typename R, typename U>
static std::unique_ptr<afut> wrap(tpp::future<R>&& f, const std::vector<int>& s, U u)
{
    auto h = std::make_unique<when_holder<R>>();
    h->f = std::move(f);
    h->slots = s;
    h->unpack = u;
    return h;
}

// a future that is handed back invalid (or, for when_all, not ready) spoils the result
template<typename FT>
static std::string fault(const FT& f, bool all)
{
    return !f.valid() ? "!invalid" : all && !f.is_ready() ? "!notready" : "";
}
template<typename... Fs>
static std::string faults(const std::tuple<Fs...>& t, bool all)
{
    return std::apply([all](const auto&... f) { return (std::string() + ... + fault(f, all)); }, t);
}
template<typename FT>
static std::string faults(const std::vector<FT>& v, bool all)
{
    std::string r;
    for(const auto& f : v) r += fault(f, all);
    return r;
}

// visit_at calls the function once, with the element asked for
template<typename... Fs>
static std::string visits(std::tuple<Fs...>& t)
{
    auto all = std::apply([](const auto&... f) { return std::array<const void*, sizeof...(Fs)>{{&f...}}; }, t);
    std::string r;
    for(size_t i = 0; i < sizeof...(Fs); ++i)
    {
        std::vector<const void*> got;
        tpp::visit_at(t, i, [&](auto& f) { got.push_back(&f); });
        if(got.size() != 1 || got[0] != all[i]) r += "!visit";
    }
    return r;
}

template<size_t I, typename... Fs>
static std::enable_if_t<I == sizeof...(Fs)> put_all(std::tuple<Fs...>&, const std::vector<int>&)
{
}
template<size_t I, typename... Fs>
static std::enable_if_t<(I < sizeof...(Fs))> put_all(std::tuple<Fs...>& t, const std::vector<int>& s)
{
    using FT = std::tuple_element_t<I, std::tuple<Fs...>>;
    slotted<FT>::put(s[I], std::move(std::get<I>(t)));
    put_all<I + 1>(t, s);
}
template<typename... Fs>
static std::string unpack_all(std::tuple<Fs...>&& t, const std::vector<int>& s)
{
    auto bad = faults(t, true);
    put_all<0>(t, s);
    return "v" + std::to_string(sizeof...(Fs)) + bad;
}
template<typename... Fs>
static std::string unpack_any(tpp::when_any_result<std::tuple<Fs...>>&& r, const std::vector<int>& s)
{
    auto bad = faults(r.futures, false) + visits(r.futures);
    put_all<0>(r.futures, s);
    return "v" + std::to_string(static_cast<long>(r.index)) + bad;
}
template<typename FT>
static std::string unpack_vec(std::vector<FT>&& v, const std::vector<int>& s)
{
    auto bad = faults(v, true);
    for(size_t i = 0; i < v.size() && i < s.size(); ++i) slotted<FT>::put(s[i], std::move(v[i]));
    return "v" + std::to_string(v.size()) + bad;
}
template<typename FT>
static std::string unpack_anyvec(tpp::when_any_result<std::vector<FT>>&& r, const std::vector<int>& s)
{
    size_t n = r.futures.size();
    auto bad = faults(r.futures, false);
    for(size_t i = 0; i < n && i < s.size(); ++i) slotted<FT>::put(s[i], std::move(r.futures[i]));
    if(n != s.size()) return "badsize";
    return "v" + std::to_string(static_cast<long>(r.index)) + bad;
}

template<typename FT>
static std::unique_ptr<afut> range(bool all, const std::vector<int>& s)
{
    std::vector<FT> v;
    for(int i : s) v.push_back(slotted<FT>::take(i));
    if(all) return wrap(tpp::when_all(v.begin(), v.end()), s, unpack_vec<FT>);
    return wrap(tpp::when_any(v.begin(), v.end()), s, unpack_anyvec<FT>);
}

template<typename... Fs>
static std::unique_ptr<afut> tup(bool all, const std::vector<int>& s, Fs&&... fs)
{
    if(all) return wrap(tpp::when_all(std::move(fs)...), s, unpack_all<Fs...>);
    return wrap(tpp::when_any(std::move(fs)...), s, unpack_any<Fs...>);
}


using fi = tpp::future<int>;
using fv = tpp::future<void>;
using si = tpp::shared_future<int>;
using sv = tpp::shared_future<void>;
using slots_t = std::vector<int>;
inline fi I(const slots_t& s, size_t i) { return slotted<fi>::take(s[i]); }
inline fv W(const slots_t& s, size_t i) { return slotted<fv>::take(s[i]); }
inline si S(const slots_t& s, size_t i) { return slotted<si>::take(s[i]); }

#define PARTFN(n) std::unique_ptr<afut> when_part##n(bool all, char form, char kind, const slots_t& s)
PARTFN(0);
PARTFN(1);
PARTFN(2);
PARTFN(3);
PARTFN(4);
PARTFN(5);
PARTFN(6);
PARTFN(7);

#if PART == 0
PARTFN(0)
{
    if(form == 'r' && kind == 'I') return range<fi>(all, s);
    return nullptr;
}
bool when_op(const op& o)
{
    if(o.name != "whenall" && o.name != "whenany") return false;
    bool all = o.name == "whenall";
    // when.. g form kind f1 f2 ...   form: t|r   kind: I V S(shared int) M(mixed: I S V) W (shared void)
    int g = static_cast<int>(num(o.a[0]));
    char form = o.a[1][0], kind = o.a[2][0];
    slots_t s;
    std::string l = ",\"fs\":[";
    for(size_t i = 3; i < o.a.size(); ++i)
    {
        s.push_back(static_cast<int>(num(o.a[i])));
        l += (i > 3 ? "," : "") + o.a[i];
    }
    callev c(all ? "whenall" : "whenany", kv("g", g) + l + "]");
    std::unique_ptr<afut> r;
    if(!r) r = when_part0(all, form, kind, s);
    if(!r) r = when_part1(all, form, kind, s);
    if(!r) r = when_part2(all, form, kind, s);
    if(!r) r = when_part3(all, form, kind, s);
    if(!r) r = when_part4(all, form, kind, s);
    if(!r) r = when_part5(all, form, kind, s);
    if(!r) r = when_part6(all, form, kind, s);
    if(!r) r = when_part7(all, form, kind, s);
    if(!r) ctl::fail("when: unknown form");
    F[g] = std::move(r);
    c.ret();
    return true;
}
#elif PART == 1
PARTFN(1)
{
    if(form == 'r' && kind == 'V') return range<fv>(all, s);
    if(form == 't' && s.empty() && all)
        return wrap(tpp::when_all(), s, [](std::tuple<>&&, const slots_t&) { return std::string("v0"); });
    if(form == 't' && s.empty())
        return wrap(tpp::when_any(),
                    s,
                    [](tpp::when_any_result<std::tuple<>>&& x, const slots_t&)
                    { return "v" + std::to_string(static_cast<long>(x.index)); });
    return nullptr;
}
#elif PART == 2
PARTFN(2)
{
    if(form == 'r' && kind == 'S') return range<si>(all, s);
    if(form == 'r' && kind == 'W') return range<sv>(all, s);
    return nullptr;
}
#elif PART == 3
PARTFN(3)
{
    if(form == 't' && kind == 'M' && s.size() == 2) return tup(all, s, I(s, 0), S(s, 1));
    if(form == 't' && kind == 'M' && s.size() == 3) return tup(all, s, I(s, 0), S(s, 1), W(s, 2));
    return nullptr;
}
#elif PART == 4
PARTFN(4)
{
    if(form == 't' && kind == 'S' && s.size() == 2) return tup(all, s, S(s, 0), S(s, 1));
    if(form == 't' && kind == 'S' && s.size() == 3) return tup(all, s, S(s, 0), S(s, 1), S(s, 2));
    return nullptr;
}
#elif PART == 5
PARTFN(5)
{
    if(form == 't' && kind == 'V' && s.size() == 1) return tup(all, s, W(s, 0));
    if(form == 't' && kind == 'V' && s.size() == 2) return tup(all, s, W(s, 0), W(s, 1));
    return nullptr;
}
#elif PART == 6
PARTFN(6)
{
    if(form == 't' && kind == 'I' && s.size() == 1) return tup(all, s, I(s, 0));
    if(form == 't' && kind == 'I' && s.size() == 2) return tup(all, s, I(s, 0), I(s, 1));
    return nullptr;
}
#elif PART == 7
PARTFN(7)
{
    if(form == 't' && kind == 'I' && s.size() == 3) return tup(all, s, I(s, 0), I(s, 1), I(s, 2));
    if(form == 't' && kind == 'I' && s.size() == 4) return tup(all, s, I(s, 0), I(s, 1), I(s, 2), I(s, 3));
    return nullptr;
}
#endif
} // namespace drv
#endif

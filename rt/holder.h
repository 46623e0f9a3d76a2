// Type-erased holder of the library's future types.
#pragma once
#include "driver.h"
#include <threadpp/thread_pool.h>

namespace drv
{
template<typename FT>
struct holder;

inline std::string show(int v) { return "v" + std::to_string(v); }
inline std::string show(const moveonly& v) { return "v" + std::to_string(v.v); }
inline std::string show(const tracked& v) { return "v" + std::to_string(v.v); }
inline std::string show(const std::string& v) { return "v" + v; }

template<typename FT>
struct fget
{
    template<typename X>
    static std::string get(X& f)
    {
        return show(f.get());
    }
};
template<typename B>
struct fget_void
{
    template<typename X>
    static std::string get(X& f)
    {
        f.get();
        return "v0";
    }
};
template<>
struct fget<tpp::future<void>> : fget_void<tpp::future<void>>
{
};
template<>
struct fget<tpp::shared_future<void>> : fget_void<tpp::shared_future<void>>
{
};
template<>
struct fget<tpp::job_future<void>> : fget_void<tpp::job_future<void>>
{
};
template<>
struct fget<tpp::job_shared_future<void>> : fget_void<tpp::job_shared_future<void>>
{
};

template<typename FT>
std::string peek_parent(FT& f)
{
    std::string s;
    if(!f.valid()) return "invalid";
    if(!f.is_ready()) return "notready";
    bool e = f.has_error();
    try
    {
        s = fget<FT>::get(f);
        if(e) return "mismatch";
    }
    catch(...)
    {
        s = classify();
        if(!e) return "mismatch";
    }
    return s;
}

template<typename X, typename Fn>
auto then_call(X& f, int form, tpp::thread::id id, std::launch pol, Fn&& fn)
{
    switch(form)
    {
        case 0: return f.then(id, pol, std::forward<Fn>(fn));
        case 1: return f.then(id, std::forward<Fn>(fn));
        case 2: return f.then(pol, std::forward<Fn>(fn));
        default: return f.then(std::forward<Fn>(fn));
    }
}

template<typename FT>
struct base_of
{
    using type = FT;
};
template<typename T>
struct base_of<tpp::job_future<T>>
{
    using type = tpp::future<T>;
};
template<typename T>
struct base_of<tpp::job_shared_future<T>>
{
    using type = tpp::shared_future<T>;
};

template<typename FT>
std::unique_ptr<afut> do_then(FT& f, int form, tpp::thread::id id, std::launch pol, int task, char kind);

inline int conversions = 0; // share() and the converting constructor take turns

template<typename FT>
struct holder : afut
{
    FT f;
    holder() = default;
    explicit holder(FT&& x) : f(std::move(x)) {}
    explicit holder(const FT& x, int) : f(x) {}
    bool valid() override { return f.valid(); }
    bool ready() override { return f.is_ready(); }
    bool err() override { return f.has_error(); }
    void wait() override { f.wait(); }
    std::future_status wait_for(long us, bool until) override
    {
        std::future_status st{};
        if(until) st = f.wait_until(tpp::clock::now() + std::chrono::microseconds(us));
        else if(us % 1000000 == 0) st = f.wait_for(std::chrono::seconds(us / 1000000));
        else if(us % 1000 == 0) st = f.wait_for(std::chrono::milliseconds(us / 1000));
        else st = f.wait_for(std::chrono::microseconds(us));
        return st;
    }
    std::string get() override { return fget<FT>::get(f); }
    template<typename T>
    static std::unique_ptr<afut> share_impl(tpp::future<T>& f)
    {
        if(conversions++ % 2) return std::make_unique<holder<tpp::shared_future<T>>>(tpp::shared_future<T>(std::move(f)));
        return std::make_unique<holder<tpp::shared_future<T>>>(f.share());
    }
    template<typename T>
    static std::unique_ptr<afut> share_impl(tpp::job_future<T>& f)
    {
        return std::make_unique<holder<tpp::job_shared_future<T>>>(f.share());
    }
    template<typename X>
    static std::unique_ptr<afut> share_impl(X&)
    {
        return nullptr;
    }
    std::unique_ptr<afut> share() override { return share_impl(f); }
    template<typename X, std::enable_if_t<std::is_copy_constructible<X>::value>* = nullptr>
    static std::unique_ptr<afut> copy_impl(X& f)
    {
        return std::make_unique<holder<X>>(f, 0);
    }
    template<typename X, std::enable_if_t<!std::is_copy_constructible<X>::value>* = nullptr>
    static std::unique_ptr<afut> copy_impl(X&)
    {
        return nullptr;
    }
    std::unique_ptr<afut> copy() override { return copy_impl(f); }
    std::unique_ptr<afut> moved() override { return std::make_unique<holder<FT>>(std::move(f)); }
    bool take(afut& from) override
    {
        auto h = dynamic_cast<holder<FT>*>(&from);
        if(h) f = std::move(h->f);
        return h;
    }
    template<typename X, std::enable_if_t<std::is_copy_constructible<X>::value>* = nullptr>
    static void copy_to(const X& from, X& to)
    {
        to = from;
    }
    template<typename X, std::enable_if_t<!std::is_copy_constructible<X>::value>* = nullptr>
    static void copy_to(const X&, X&)
    {
    }
    bool take_copy(afut& from) override
    {
        auto h = dynamic_cast<holder<FT>*>(&from);
        if(h) copy_to(h->f, f);
        return h;
    }
    bool exchange(afut& with) override
    {
        auto h = dynamic_cast<holder<FT>*>(&with);
        if(h) std::swap(f, h->f);
        return h;
    }
    std::unique_ptr<afut> then(int form, tpp::thread::id id, std::launch pol, int task, char kind) override
    {
        return do_then(f, form, id, pol, task, kind);
    }
    template<typename T>
    static tpp::job_future_storage* st(tpp::job_future<T>& x) { return &x; }
    template<typename T>
    static tpp::job_future_storage* st(tpp::job_shared_future<T>& x) { return &x; }
    template<typename X>
    static tpp::job_future_storage* st(X&) { return nullptr; }
    void stop() override
    {
        if(auto s = st(f)) s->stop();
    }
    void prio(int level, size_t pr) override
    {
        if(auto s = st(f)) s->change_priority({static_cast<tpp::priority::category>(level), pr});
    }
    uint64_t job() override
    {
        auto s = st(f);
        return s ? s->id : 0;
    }
};

template<typename FT>
struct is_void_future : std::false_type
{
};
template<>
struct is_void_future<tpp::future<void>> : std::true_type
{
};
template<>
struct is_void_future<tpp::shared_future<void>> : std::true_type
{
};

template<typename FT>
std::unique_ptr<afut> do_then(FT& f, int form, tpp::thread::id id, std::launch pol, int task, char kind)
{
    using B = typename base_of<FT>::type;
    // continuations of void futures cannot return values (the library does not compile for that)
    if constexpr(!is_void_future<B>::value)
    {
        if(kind == 'I')
        {
            auto g = then_call(f, form, id, pol, [task, g = luggage()](B p) { return body(task, peek_parent(p)); });
            return std::make_unique<holder<tpp::future<int>>>(std::move(g));
        }
        if(kind == 'U')
        {
            auto g = then_call(f, form, id, pol, [task, g = luggage()](B p) { return moveonly(body(task, peek_parent(p))); });
            return std::make_unique<holder<tpp::future<moveonly>>>(std::move(g));
        }
    }
    auto g = then_call(f, form, id, pol, [task, g = luggage()](B p) { body(task, peek_parent(p)); });
    return std::make_unique<holder<tpp::future<void>>>(std::move(g));
}
} // namespace drv

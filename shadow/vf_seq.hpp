// Abstract sequences: an index range [lo,hi) of any length.  Element i initially holds the value
// uf("<name>",i); up to 4 arbitrary (symbolic) ghost indices are tracked exactly.
#ifndef VF_SEQ_HPP
#define VF_SEQ_HPP
#include <iterator>
#include <memory>
#include <verif.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/algorithm/detail/safe_advance.hpp>

namespace vf {


struct user_error { int code; };
// the environment decides whether a user callback throws
inline int thrown = 0;
inline bool may_throw = false;
inline void throws() { may_throw = true; shallow = 1; }
inline void maybe_throw()
{
    if (may_throw && verif_nondet_bool("callback throws")) { ++thrown; throw user_error{1}; }
}


// a value: v names it; moved-from elements hold -1
struct Elem
{
    long v;
    Elem() : v(0) {}
    explicit Elem(long x) : v(x) {}
    Elem(Elem const& o) : v(o.v) { if (copy_throws) maybe_throw(); }
    Elem(Elem&& o) noexcept : v(o.v) { o.v = -1; }
    Elem& operator=(Elem const& o) { if (copy_throws || assign_throws) maybe_throw(); v = o.v; return *this; }
    Elem& operator=(Elem&& o) { if (copy_throws) maybe_throw(); long x = o.v; o.v = -1; v = x; return *this; }
    static inline bool copy_throws = false, assign_throws = false;
};
inline bool operator==(Elem const& a, Elem const& b) { return a.v == b.v; }
inline bool operator!=(Elem const& a, Elem const& b) { return a.v != b.v; }
inline void swap(Elem& a, Elem& b) { if (Elem::copy_throws) maybe_throw(); long x = a.v; a.v = b.v; b.v = x; }
struct track { long k; Elem cell; int path; int epoch; };
template <int S> struct seq
{
    static inline long lo = 0, hi = 0;
    static inline int nt = 0;
    static inline track t[4] = {};
    static inline bool race = true;
    static long init(long i)
    {
        static const char* const names[] = {"x0","x1","x2","x3","x4","x5"};
        return verif_uf1(names[S], i);
    }
    static void setup(long l, long h) { lo = l; hi = h; nt = 0; }
    static int add(long k) { t[nt].k = k; t[nt].cell.v = init(k); t[nt].path = -1; t[nt].epoch = -1; return nt++; }
    static Elem& hit(track& x)
    {
        verif_touch();
        if (race && vf::path != 0)
        {
            if (x.path > 0 && x.epoch == vf::epoch)
                verif_assert(x.path == vf::path, "data-race: concurrent subtasks do not access the same element");
            x.path = vf::path; x.epoch = vf::epoch;
        }
        return x.cell;
    }
    static Elem& at(long i)
    {
        verif_assert(verif_and(lo <= i, i < hi), "frame: only elements inside the given range are accessed");
        if (nt > 0 && i == t[0].k) return hit(t[0]);
        if (nt > 1 && i == t[1].k) return hit(t[1]);
        if (nt > 2 && i == t[2].k) return hit(t[2]);
        if (nt > 3 && i == t[3].k) return hit(t[3]);
        return *new Elem(init(i));
    }
    static long val(int n) { return t[n].cell.v; }
};

template <int S, class Cat = std::random_access_iterator_tag, class Ref = Elem&>
struct iter
{
    typedef Cat iterator_category;
    typedef Elem value_type;
    typedef long difference_type;
    typedef typename std::remove_reference<Ref>::type* pointer;
    typedef Ref reference;
    long i;
    iter() : i(0) {}
    explicit iter(long x) : i(x) {}
    reference operator*() const { return seq<S>::at(i); }
    pointer operator->() const { return &seq<S>::at(i); }
    reference operator[](long n) const { return seq<S>::at(i + n); }
    iter& operator++() { ++i; return *this; }
    iter operator++(int) { iter r(*this); ++i; return r; }
    iter& operator--() { --i; return *this; }
    iter operator--(int) { iter r(*this); --i; return r; }
    iter& operator+=(long n) { i += n; return *this; }
    iter& operator-=(long n) { i -= n; return *this; }
    friend iter operator+(iter a, long n) { return iter(a.i + n); }
    friend iter operator+(long n, iter a) { return iter(a.i + n); }
    friend iter operator-(iter a, long n) { return iter(a.i - n); }
    friend long operator-(iter a, iter b) { return a.i - b.i; }
    friend bool operator==(iter a, iter b) { return a.i == b.i; }
    friend bool operator!=(iter a, iter b) { return a.i != b.i; }
    friend bool operator<(iter a, iter b) { return a.i < b.i; }
    friend bool operator>(iter a, iter b) { return a.i > b.i; }
    friend bool operator<=(iter a, iter b) { return a.i <= b.i; }
    friend bool operator>=(iter a, iter b) { return a.i >= b.i; }
};
template <int S, class C, class R> long idx_of(iter<S,C,R> it) { return it.i; }
template <int S, class C, class R> void set_idx(iter<S,C,R>& it, long v) { it.i = v; }

// a range object over seq<S>
template <int S, class Ref = Elem&> struct range
{
    typedef iter<S,std::random_access_iterator_tag,Ref> iterator;
    typedef iterator const_iterator;   // view semantics
    typedef Elem value_type;
    typedef long difference_type;
    typedef unsigned long size_type;
    long b, e;
    bool live;
    range() : b(0), e(0), live(false) {}
    range(long x, long y) : b(x), e(y), live(true) {}
    range(range const& o) : b(o.b), e(o.e), live(o.live) {}
    range(range&& o) : b(o.b), e(o.e), live(o.live) { o.live = false; o.b = o.e = 0; }
    range& operator=(range const& o) { b = o.b; e = o.e; live = o.live; return *this; }
    range& operator=(range&& o) { b = o.b; e = o.e; live = o.live; o.live = false; o.b = o.e = 0; return *this; }
    iterator begin() { return iterator(b); }
    iterator end() { return iterator(e); }
    const_iterator begin() const { return const_iterator(b); }
    const_iterator end() const { return const_iterator(e); }
    size_type size() const { return (size_type)(e - b); }
    bool empty() const { return e == b; }
};

// iterators of one type over any of the sequences: which one is part of the (concrete) state
struct dit
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef Elem value_type;
    typedef long difference_type;
    typedef Elem* pointer;
    typedef Elem& reference;
    int s; long i;
    dit() : s(0), i(0) {}
    dit(int q, long x) : s(q), i(x) {}
    static Elem& at(int s, long i)
    {
        switch (s) { case 0: return seq<0>::at(i); case 1: return seq<1>::at(i); case 2: return seq<2>::at(i); default: return seq<3>::at(i); }
    }
    static void same(dit a, dit b) { if (a.s != b.s) verif_assert(false, "frame: iterators into different sequences are not mixed"); }
    reference operator*() const { return at(s, i); }
    pointer operator->() const { return &at(s, i); }
    reference operator[](long n) const { return at(s, i + n); }
    dit& operator++() { ++i; return *this; }
    dit operator++(int) { dit r(*this); ++i; return r; }
    dit& operator--() { --i; return *this; }
    dit operator--(int) { dit r(*this); --i; return r; }
    dit& operator+=(long n) { i += n; return *this; }
    dit& operator-=(long n) { i -= n; return *this; }
    friend dit operator+(dit a, long n) { return dit(a.s, a.i + n); }
    friend dit operator+(long n, dit a) { return dit(a.s, a.i + n); }
    friend dit operator-(dit a, long n) { return dit(a.s, a.i - n); }
    friend long operator-(dit a, dit b) { same(a, b); return a.i - b.i; }
    friend bool operator==(dit a, dit b) { same(a, b); return a.i == b.i; }
    friend bool operator!=(dit a, dit b) { same(a, b); return a.i != b.i; }
    friend bool operator<(dit a, dit b) { same(a, b); return a.i < b.i; }
    friend bool operator>(dit a, dit b) { same(a, b); return a.i > b.i; }
    friend bool operator<=(dit a, dit b) { same(a, b); return a.i <= b.i; }
    friend bool operator>=(dit a, dit b) { same(a, b); return a.i >= b.i; }
};
inline long idx_of(dit it) { return it.i; }
inline void set_idx(dit& it, long v) { it.i = v; }
struct drange
{
    typedef dit iterator;
    typedef dit const_iterator;   // view semantics
    typedef Elem value_type;
    typedef long difference_type;
    typedef unsigned long size_type;
    int s; long b, e;
    bool live;
    drange() : s(0), b(0), e(0), live(false) {}
    drange(int q, long x, long y) : s(q), b(x), e(y), live(true) {}
    drange(drange const& o) : s(o.s), b(o.b), e(o.e), live(o.live) {}
    drange(drange&& o) : s(o.s), b(o.b), e(o.e), live(o.live) { o.live = false; o.b = o.e = 0; }
    drange& operator=(drange const& o) { s = o.s; b = o.b; e = o.e; live = o.live; return *this; }
    drange& operator=(drange&& o) { s = o.s; b = o.b; e = o.e; live = o.live; o.live = false; o.b = o.e = 0; return *this; }
    dit begin() const { return dit(s, b); }
    dit end() const { return dit(s, e); }
    size_type size() const { return (size_type)(e - b); }
    bool empty() const { return e == b; }
    dit begin() { return dit(s, b); }
    dit end() { return dit(s, e); }
};
inline dit D0(long i) { return dit(0, i); }
inline dit D1(long i) { return dit(1, i); }
inline dit D2(long i) { return dit(2, i); }
inline dit D3(long i) { return dit(3, i); }

// outcome of a whole algorithm
struct outcome { int fired = 0; bool exc = false; bool user = false; };
template <class R> void classify(outcome& o, boost::asynchronous::expected<R>& r)
{
    ++o.fired;
    o.exc = r.has_exception();
    if (o.exc)
    {
        try { std::rethrow_exception(r.get_exception_ptr()); }
        catch (user_error&) { o.user = true; }
        catch (...) { }
    }
}
inline long some_size(const char* n) { return verif_nondet_range(n, 0, 1L << 60); }
inline long some_cutoff() { return verif_nondet_range("cutoff", 1, 1L << 60); }
// some algorithms treat cutoffs above 1000 differently: split the case here
inline long some_cutoff2() { return verif_nondet_range("cutoff", 1, 1001); }
// (the split is the same code for both: only a leaf is examined here)
inline long large_cutoff() { shallow = verif_depth(); return verif_nondet_range("cutoff", 1001, 1L << 60); }
inline long inside(const char* n, long lo, long hi) { return verif_nondet_range(n, lo, hi); }
inline void cov() { if (splits) verif_cover("split"); else verif_cover("leaf"); }
// run a whole algorithm; the outcome is delivered exactly once
template <class Cont> void finish(Cont& c, outcome& o)
{
    outcome* op = &o;
    c.on_done([op](std::tuple<boost::asynchronous::expected<typename Cont::return_type>> r) { classify(*op, std::get<0>(r)); });
    run_pending();
    verif_assert(o.fired == 1, "completion: the result is delivered exactly once");
    cov();
}
template <class Cont, class F> void finish(Cont& c, outcome& o, F f)
{
    outcome* op = &o;
    c.on_done([op, f](std::tuple<boost::asynchronous::expected<typename Cont::return_type>> r) mutable {
        classify(*op, std::get<0>(r));
        if (!op->exc) f(std::get<0>(r).get());
    });
    run_pending();
    verif_assert(o.fired == 1, "completion: the result is delivered exactly once");
    cov();
}
template <class C> void ok(C c)
{
    outcome o; finish(c, o);
    verif_assert(!o.exc, "post: no exception without cause");
}
template <class C, class F> void ok(C c, F f)
{
    outcome o; finish(c, o, f);
    verif_assert(!o.exc, "post: no exception without cause");
}
// with callbacks that may throw: an exception is delivered iff one was thrown
template <class C> void throwing(C c)
{
    outcome o; finish(c, o);
    if (o.exc) verif_cover("throw"); else verif_cover("nothrow");
    verif_assert(o.exc == (thrown > 0), "exception: delivered to the caller iff a callback threw");
    if (o.exc) verif_assert(o.user, "exception: the one thrown by the callback");
}
// for algorithms which may stop early: a delivered exception was thrown, at least
template <class C> void throwing_weak(C c)
{
    outcome o; finish(c, o);
    if (o.exc) verif_cover("throw"); else verif_cover("nothrow");
    if (o.exc) verif_assert(verif_and(o.user, thrown > 0), "exception: the one thrown by the callback");
}
// a continuation whose result is x (or an exception, if the environment says so)
template <class T> struct source_task : boost::asynchronous::continuation_task<T>
{
    T x;
    explicit source_task(T y) : boost::asynchronous::continuation_task<T>("source"), x(y) {}
    void operator()()
    {
        if (may_throw && verif_nondet_bool("source fails")) { ++thrown; this->this_task_result().set_exception(std::make_exception_ptr(user_error{2})); }
        else this->this_task_result().set_value(std::move(x));
    }
};
template <class T> boost::asynchronous::detail::callback_continuation<T> source(T x)
{
    return boost::asynchronous::top_level_callback_continuation<T>(source_task<T>(x));
}
}
#define ENTRY(n) extern "C" void check_##n()
#endif

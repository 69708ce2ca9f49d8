// Contracts of the containers the queues are built on, for any content: a sequence of jobs [lo, hi), each known by its key.
// An element which was there before the call is materialised on first access; its id is its key.
#pragma once
#include "core.hpp"
#include <deque>
#include <boost/circular_buffer.hpp>
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/spsc_queue.hpp>
namespace vc
{
struct vjob
{
    long id;
    vjob() : id(-1) {}
    explicit vjob(long i) : id(i) {}
    vjob(vjob const& o) : id(o.id) { A(o.id != -2, "queue: a job is taken only once"); }
    vjob(vjob&& o) noexcept : id(o.id) { o.id = -2; }
    vjob& operator=(vjob const& o) { A(o.id != -2, "queue: a job is taken only once"); id = o.id; return *this; }
    vjob& operator=(vjob&& o) noexcept { long i = o.id; o.id = -2; id = i; return *this; }
    void operator()() {}
};
struct vseq
{
    long lo = 0, hi = 0;
    struct { long key; vjob* p; } s[8];
    int n = 0;
    long size() const { return hi - lo; }
    vjob*& slot(long key)
    {
        A(lo <= key && key < hi, "queue: only jobs which are in the queue are accessed");
        for (int i = 0; i < n; ++i) if (s[i].key == key) return s[i].p;
        s[n].key = key; s[n].p = new vjob(key);
        return s[n++].p;
    }
    vjob& at(long key) { return *slot(key); }
    void put(long key, vjob* p) { s[n].key = key; s[n].p = p; ++n; }
    void drop(long key) { for (int i = 0; i < n; ++i) if (s[i].key == key) { s[i].key = -1000 - i; } }
    void any() { lo = 0; hi = verif_nondet_range("jobs in the queue", 0, 1L << 40); }
};
}
using vc::vjob;
namespace std
{
// front() is the newest key hi-1, back() the oldest key lo
template <> class deque<vjob, std::allocator<vjob>>
{
public:
    typedef vjob value_type; typedef std::size_t size_type; typedef vjob& reference; typedef vjob const& const_reference;
    vc::vseq q;
    bool empty() const { return q.lo == q.hi; }
    std::size_t size() const { return q.size(); }
    vjob& front() { return q.at(q.hi - 1); }
    vjob& back() { return q.at(q.lo); }
    vjob& operator[](std::size_t i) { return q.at(q.hi - 1 - (long)i); }
    vjob& at(std::size_t i) { if (i >= size()) throw std::out_of_range("deque"); return (*this)[i]; }
    template <class... X> vjob& emplace_front(X&&... x) { vjob* p = new vjob(std::forward<X>(x)...); q.put(q.hi, p); ++q.hi; return *p; }
    template <class... X> vjob& emplace_back(X&&... x) { vjob* p = new vjob(std::forward<X>(x)...); --q.lo; q.put(q.lo, p); return *p; }
    void push_front(vjob const& j) { emplace_front(j); }
    void push_front(vjob&& j) { emplace_front(std::move(j)); }
    void push_back(vjob const& j) { emplace_back(j); }
    void push_back(vjob&& j) { emplace_back(std::move(j)); }
    void pop_back() { A(!empty(), "queue: pop_back of an empty deque"); q.drop(q.lo); ++q.lo; }
    void pop_front() { A(!empty(), "queue: pop_front of an empty deque"); --q.hi; q.drop(q.hi); }
    void clear() { q.lo = q.hi; }
    template <class Ref> struct it_
    {
        typedef std::random_access_iterator_tag iterator_category; typedef vjob value_type; typedef std::ptrdiff_t difference_type; typedef vjob* pointer; typedef Ref reference;
        deque* d; long i;
        Ref operator*() const { return (*d)[i]; }
        vjob* operator->() const { return &(*d)[i]; }
        it_& operator++() { ++i; return *this; } it_& operator--() { --i; return *this; }
        it_ operator+(long n) const { return it_{d, i + n}; } it_ operator-(long n) const { return it_{d, i - n}; }
        long operator-(it_ o) const { return i - o.i; }
        bool operator==(it_ o) const { return i == o.i; }
        bool operator!=(it_ o) const { return i != o.i; }
    };
    typedef it_<vjob&> iterator; typedef it_<vjob const&> const_iterator;
    iterator begin() { return {this, 0}; } iterator end() { return {this, q.size()}; }
    iterator erase(iterator p) { if (p.i == 0) pop_front(); else { A(p.i == q.size() - 1, "contract: erase at the ends only"); pop_back(); } return p; }
};
}
namespace boost
{
// operator[](0) is the newest key hi-1; when full, push_front overwrites the oldest
template <> class circular_buffer<vjob, std::allocator<vjob>>
{
public:
    vc::vseq q; std::size_t cap;
    explicit circular_buffer(std::size_t c) : cap(c) {}
    std::size_t capacity() const { return cap; }
    std::size_t size() const { return q.size(); }
    bool empty() const { return q.lo == q.hi; }
    bool full() const { return size() == cap; }
    void set_capacity(std::size_t c) { if (c < size()) q.lo = q.hi - (long)c; cap = c; }
    vjob& operator[](std::size_t i) { A(i < size(), "queue: circular_buffer index in range"); return q.at(q.hi - 1 - (long)i); }
    vjob& front() { return (*this)[0]; }
    vjob& back() { return (*this)[size() - 1]; }
    void push_front(vjob const& j) { vjob* p = new vjob(j); add(p); }
    void push_front(vjob&& j) { vjob* p = new vjob(std::move(j)); add(p); }
    void pop_back() { A(!empty(), "queue: pop_back of an empty buffer"); q.drop(q.lo); ++q.lo; }
    void pop_front() { A(!empty(), "queue: pop_front of an empty buffer"); --q.hi; q.drop(q.hi); }
    void add(vjob* p) { if (cap == 0) return; if (full()) { q.drop(q.lo); ++q.lo; } q.put(q.hi, p); ++q.hi; }
};
// lock free containers: every operation is atomic; other threads push and pop in between (lf_env); push may fail (a bounded
// container is full): it then changes nothing, so the second attempt starts in the same state as the first one
namespace lockfree
{
struct vlf
{
    vc::vseq q;
    long pushed = -1, popped = -1, asked = 0; int npush = 0, npop = 0; bool failed = false; void* last = nullptr;
    bool fails() { if (failed) return false; return failed = verif_nondet_bool("push fails"); }
};
void lf_env(vlf&);
template <> class queue<vjob*> : public vlf
{
public:
    template <class... X> queue(X...) {}
    bool push(vjob* p) { lf_env(*this); if (fails()) return false; q.put(q.hi, p); pushed = q.hi++; ++npush; return true; }
    bool pop(vjob*& p) { lf_env(*this); ++asked; if (q.lo == q.hi) return false; p = q.slot(q.lo); last = p; q.drop(q.lo); popped = q.lo++; ++npop; return true; }
    bool empty() const { return q.lo == q.hi; }
};
template <> class stack<vjob*> : public vlf
{
public:
    template <class... X> stack(X...) {}
    bool push(vjob* p) { lf_env(*this); if (fails()) return false; q.put(q.hi, p); pushed = q.hi++; ++npush; return true; }
    bool pop(vjob*& p) { lf_env(*this); ++asked; if (q.lo == q.hi) return false; p = q.slot(q.hi - 1); last = p; q.drop(q.hi - 1); popped = --q.hi; ++npop; return true; }
    bool empty() const { return q.lo == q.hi; }
};
// one producer, one consumer
template <> class spsc_queue<vjob> : public vlf
{
public:
    template <class... X> spsc_queue(X...) {}
    bool push(vjob const& j) { lf_env(*this); if (fails()) return false; q.put(q.hi, new vjob(j)); pushed = q.hi++; ++npush; return true; }
    bool pop(vjob& j) { lf_env(*this); ++asked; if (q.lo == q.hi) return false; j = std::move(q.at(q.lo)); q.drop(q.lo); popped = q.lo++; ++npop; return true; }
    std::size_t read_available() const { return q.size(); }
};
}
}

// Read-only abstract sequences whose elements are their own positions: *it is Ix{sequence, index}.
// Predicates and comparisons over Ix are defined by the contract from the position ("the first element
// satisfying p is D": p(i) is false for i < D, true for i == D, arbitrary beyond), which covers every
// input because D is an arbitrary symbolic index (or the length, when there is none).
#ifndef VF_IDX_HPP
#define VF_IDX_HPP
#include <vf_seq.hpp>
namespace vf {
struct Ix { int s; long i; Ix() : s(0), i(0) {} Ix(int q, long x) : s(q), i(x) {} };
bool ix_eq(Ix const&, Ix const&);
bool ix_lt(Ix const&, Ix const&);
inline bool operator==(Ix const& a, Ix const& b) { return ix_eq(a, b); }
inline bool operator!=(Ix const& a, Ix const& b) { return !ix_eq(a, b); }
inline bool operator<(Ix const& a, Ix const& b) { return ix_lt(a, b); }
inline long xlo[4], xhi[4];
inline void xs(int s, long lo, long hi) { xlo[s] = lo; xhi[s] = hi; }
template <class Cat, class V = Ix> struct xit_t
{
    typedef Cat iterator_category;
    typedef V value_type;
    typedef long difference_type;
    typedef V const* pointer;
    typedef V reference;
    int s; long i;
    xit_t() : s(0), i(0) {}
    xit_t(int q, long x) : s(q), i(x) {}
    static void same(xit_t a, xit_t b) { if (a.s != b.s) verif_assert(false, "frame: iterators into different sequences are not mixed"); }
    static V at(int s, long i) { verif_assert(verif_and(xlo[s] <= i, i < xhi[s]), "frame: only elements inside the given range are accessed"); return V(s, i); }
    reference operator*() const { return at(s, i); }
    reference operator[](long n) const { return at(s, i + n); }
    xit_t& operator++() { ++i; return *this; }
    xit_t operator++(int) { xit_t r(*this); ++i; return r; }
    xit_t& operator--() { --i; return *this; }
    xit_t operator--(int) { xit_t r(*this); --i; return r; }
    xit_t& operator+=(long n) { i += n; return *this; }
    xit_t& operator-=(long n) { i -= n; return *this; }
    friend xit_t operator+(xit_t a, long n) { return xit_t(a.s, a.i + n); }
    friend xit_t operator+(long n, xit_t a) { return xit_t(a.s, a.i + n); }
    friend xit_t operator-(xit_t a, long n) { return xit_t(a.s, a.i - n); }
    friend long operator-(xit_t a, xit_t b) { same(a, b); return a.i - b.i; }
    friend bool operator==(xit_t a, xit_t b) { same(a, b); return a.i == b.i; }
    friend bool operator!=(xit_t a, xit_t b) { same(a, b); return a.i != b.i; }
    friend bool operator<(xit_t a, xit_t b) { same(a, b); return a.i < b.i; }
    friend bool operator>(xit_t a, xit_t b) { same(a, b); return a.i > b.i; }
    friend bool operator<=(xit_t a, xit_t b) { same(a, b); return a.i <= b.i; }
    friend bool operator>=(xit_t a, xit_t b) { same(a, b); return a.i >= b.i; }
};
typedef xit_t<std::random_access_iterator_tag> xit;
template <class C, class V> long idx_of(xit_t<C, V> it) { return it.i; }
template <class C, class V> void set_idx(xit_t<C, V>& it, long v) { it.i = v; }
template <class V> struct xrange_t
{
    typedef xit_t<std::random_access_iterator_tag, V> iterator; typedef iterator const_iterator; typedef V value_type; typedef V const& const_reference; typedef V& reference; typedef long difference_type; typedef unsigned long size_type;
    int s; long b, e; bool live;
    xrange_t() : s(0), b(0), e(0), live(false) {}
    xrange_t(int q, long x, long y) : s(q), b(x), e(y), live(true) {}
    xrange_t(xrange_t const& o) : s(o.s), b(o.b), e(o.e), live(o.live) {}
    xrange_t(xrange_t&& o) : s(o.s), b(o.b), e(o.e), live(o.live) { o.live = false; o.b = o.e = 0; }
    xrange_t& operator=(xrange_t const& o) { s = o.s; b = o.b; e = o.e; live = o.live; return *this; }
    xrange_t& operator=(xrange_t&& o) { s = o.s; b = o.b; e = o.e; live = o.live; o.live = false; o.b = o.e = 0; return *this; }
    iterator begin() const { return iterator(s, b); }
    iterator end() const { return iterator(s, e); }
    iterator begin() { return iterator(s, b); }
    iterator end() { return iterator(s, e); }
    size_type size() const { return (size_type)(e - b); }
    bool empty() const { return e == b; }
};
typedef xrange_t<Ix> xrange;
}
#endif

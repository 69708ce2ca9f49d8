// real:core
// Contract of safe_advance.hpp (used by every algorithm) and of the lazy integer range, on the real code.
#include "../shadow/verif.hpp"
#include <boost/asynchronous/algorithm/detail/safe_advance.hpp>
#include <boost/asynchronous/helpers/lazy_irange.hpp>
#define A(c, m) verif_assert(c, m)
#define ENTRY(x) extern "C" void check_##x()
namespace ba = boost::asynchronous;
namespace bd = boost::asynchronous::detail;
static const long BIG = 1L << 50;
template <class Cat> struct it
{
    typedef Cat iterator_category; typedef long value_type; typedef long difference_type; typedef long* pointer; typedef long& reference;
    long i;
    static inline long lo, hi;
    static it at(long x) { it r; r.i = x; return r; }
    void in() const { A(verif_and(lo <= i, i <= hi), "frame: an iterator does not leave the range"); }
    it& operator++() { ++i; in(); return *this; }
    it operator++(int) { it r(*this); ++i; in(); return r; }
    it& operator--() { --i; in(); return *this; }
    it& operator+=(long n) { i += n; in(); return *this; }
    it& operator-=(long n) { i -= n; in(); return *this; }
    friend it operator+(it a, long n) { return at(a.i + n); }
    friend it operator-(it a, long n) { return at(a.i - n); }
    friend long operator-(it a, it b) { return a.i - b.i; }
    friend bool operator==(it a, it b) { return a.i == b.i; }
    friend bool operator!=(it a, it b) { return a.i != b.i; }
    friend bool operator<(it a, it b) { return a.i < b.i; }
    friend bool operator>(it a, it b) { return a.i > b.i; }
    friend bool operator<=(it a, it b) { return a.i <= b.i; }
    friend bool operator>=(it a, it b) { return a.i >= b.i; }
};
typedef it<std::random_access_iterator_tag> ra; typedef it<std::forward_iterator_tag> fw;
static long b, e, n;
template <class I> void range() { b = verif_nondet_range("b", -BIG, BIG); e = verif_nondet_range("e", b, BIG); I::lo = b; I::hi = e; }
// the contract: r is the end, or strictly inside; a part longer than the cutoff is split, one which is not longer is not
static void split(long r) { A(verif_or(r == e, verif_and(b < r, r < e)), "cutoff: the cut is the end or strictly inside the range (progress of both halves)"); }
static void cut(long r) { split(r); A((r == e) == (e - b <= n), "cutoff: exactly a range longer than the cutoff is split"); }
ENTRY(find_cutoff_random) { range<ra>(); n = verif_nondet_range("n", 1, BIG); cut(bd::find_cutoff(ra::at(b), n, ra::at(e)).i); }
ENTRY(find_cutoff_forward) { range<fw>(); n = verif_nondet_range("n", 1, BIG); cut(bd::find_cutoff(fw::at(b), n, fw::at(e)).i); }
template <class T, class S> void integral(long lo, long hi)
{
    b = verif_nondet_range("b", lo, hi + 1); e = verif_nondet_range("e", b, hi + 1); n = verif_nondet_range("n", 1, BIG);
    verif_assume(e - b <= 0x7fffffffL); // the distance is representable
    T r = bd::find_cutoff((T)b, (S)n, (T)e);
    split((long)r);
    verif_assume(n > 1);
    A(((long)r == e) == (e - b <= n), "cutoff: exactly a range longer than the cutoff is split");
}
ENTRY(find_cutoff_int) { integral<int, long>(-0x80000000L, 0x7fffffffL); }
ENTRY(find_cutoff_unsigned) { integral<unsigned, long>(0, 0xffffffffL); }
ENTRY(find_cutoff_short) { integral<short, long>(-32768, 32767); }
ENTRY(find_cutoff_long) { range<ra>(); n = verif_nondet_range("n", 2, BIG); cut(bd::find_cutoff(b, n, e)); }
ENTRY(find_cutoff_long_cutoff1) { range<ra>(); n = 1; split(bd::find_cutoff(b, n, e)); }
ENTRY(find_cutoff_size_t) { range<ra>(); verif_assume(b >= 0); n = verif_nondet_range("n", 2, BIG); cut((long)bd::find_cutoff((unsigned long)b, n, (unsigned long)e)); }
template <class I> void prev(bool both)
{
    range<I>(); n = verif_nondet_range("n", 2, BIG);
    std::pair<I, I> r = bd::find_cutoff_and_prev(I::at(b), n, I::at(e));
    cut(r.second.i);
    if (r.second.i == e) { A(verif_or(r.first.i == e, verif_and(!both, r.first.i == e - 1)), "cutoff: the previous position of an uncut range is its end"); }
    else A(r.first.i == r.second.i - 1, "cutoff: the previous position is the one before the cut");
}
ENTRY(find_cutoff_and_prev_random) { prev<ra>(true); }
ENTRY(find_cutoff_and_prev_forward) { prev<fw>(false); }
template <class I> void adv()
{
    range<I>(); n = verif_nondet_range("n", 0, BIG);
    I i = I::at(b); bd::safe_advance(i, n, I::at(e));
    A(i.i == verif_ite(n < e - b, b + n, e), "advance: by n positions, but not past the end");
}
ENTRY(safe_advance_random) { adv<ra>(); }
ENTRY(safe_advance_forward) { adv<fw>(); }

// lazy_irange: element i of [start, end) is f(i); positions outside throw
struct Sq { long operator()(long i) const { return verif_uf1("f", i); } };
ENTRY(lazy_irange)
{
    range<ra>();
    auto r = ba::lazy_irange(b, e, Sq());
    A(r.size() == e - b, "lazy range: size");
    A(r.end() - r.begin() == e - b, "lazy range: distance of the iterators");
    long k = verif_nondet_range("k", -2 * BIG, 2 * BIG), s = verif_nondet_range("s", -BIG, BIG);
    auto i = r.begin();
    i += k - b; A(i.position() == k, "lazy range: iterator arithmetic");
    auto j = i + s; A(verif_and(j - i == s, j.position() == k + s), "lazy range: iterator arithmetic");
    A(j - s == i, "lazy range: iterator arithmetic");
    auto p = i; A(p++ == i, "lazy range: post increment returns the old position"); A(p - i == 1, "lazy range: increment");
    A(p-- - i == 1, "lazy range: post decrement returns the old position"); A(p == i, "lazy range: decrement");
    ++p; A(p.position() == k + 1, "lazy range: increment"); --p; A(p.position() == k, "lazy range: decrement"); p -= s; A(p.position() == k - s, "lazy range: iterator arithmetic");
    A((i < j) == (0 < s), "lazy range: order"); A((i <= j) == (0 <= s), "lazy range: order"); A((i > j) == (0 > s), "lazy range: order"); A((i >= j) == (0 >= s), "lazy range: order");
    A((i == j) == (s == 0), "lazy range: equality"); A((i != j) == (s != 0), "lazy range: equality");
}
ENTRY(lazy_irange_access)
{
    range<ra>();
    auto r = ba::lazy_irange(b, e, Sq());
    long k = verif_nondet_range("k", -2 * BIG, 2 * BIG);
    bool in = verif_and(b <= k, k < e); int how = verif_choice(4, "access");
    long v = 0; bool thrown = false;
    try { v = how == 0 ? r[k] : how == 1 ? r.at(k) : how == 2 ? *(r.begin() + (k - b)) : r.begin()[k - b]; } catch (std::logic_error&) { thrown = true; }
    A(thrown == !in, "lazy range: access outside the range throws");
    if (!thrown) A(v == verif_uf1("f", k), "lazy range: element i is f(i)");
}
ENTRY(lazy_irange_bounds)
{
    range<ra>(); long s = verif_nondet_range("s", b, e);
    auto r = ba::lazy_irange(b, e, Sq());
    r.setstart(s); A(verif_and(r.begin().position() == s, r.size() == e - s), "lazy range: setstart"); r.setend(s); A(r.size() == 0, "lazy range: setend");
}

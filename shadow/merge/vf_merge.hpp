// Model for parallel_merge: two sorted input ranges S0 [0,n1), S1 [0,n2) and one output.
// Stable merging = sorting by (key, range).  An arbitrary cut of that order is (C0, C1): the elements
// S0[0,C0) and S1[0,C1) come before all others.  The output is the stable merge iff for every cut no
// element before the cut is placed after one which is not.
#ifndef VF_MERGE_HPP
#define VF_MERGE_HPP
#include <vf_idx.hpp>
namespace vf {
inline long n_in[2], C[2], n_out;
inline bool contents = true;
inline long clampl(long x, long lo, long hi) { return verif_ite(x < lo, lo, verif_ite(x > hi, hi, x)); }
// order facts which follow from the cut: is x < y ?  1 yes, 0 no, -1 unknown
inline bool known_less(int s, long i, int t, long j, bool& res)
{
    // S0[i] vs S1[j]
    if (s == 1 && t == 0)
    {
        if (verif_and(i < C[1], j >= C[0])) { res = true; return true; }
        if (verif_and(i >= C[1], j < C[0])) { res = false; return true; }
    }
    else if (s == 0 && t == 1)
    {
        if (verif_and(i >= C[0], j < C[1])) { res = false; return true; }
    }
    else if (s == t)
    {
        if (i >= j) { res = false; return true; }
    }
    return false;
}
struct Less
{
    bool live = true;
    Less() {}
    Less(Less const& o) : live(o.live) {}
    Less(Less&& o) : live(o.live) { o.live = false; }
    Less& operator=(Less const& o) { live = o.live; return *this; }
    Less& operator=(Less&& o) { live = o.live; o.live = false; return *this; }
    bool operator()(Ix const& a, Ix const& b) const
    {
        verif_assert(live, "post: the given comparison is used (not a moved-from one)");
        if (a.s == 9 && b.s == 9) return a.i < b.i;
        maybe_throw();
        bool r;
        if (contents && known_less(a.s, a.i, b.s, b.i, r)) return r;
        return verif_nondet_bool("order of two elements");
    }
};
template <class F> bool is_order(F& f) { return f(Ix(9, 0), Ix(9, 1)) && !f(Ix(9, 0), Ix(9, 0)) && !f(Ix(9, 1), Ix(9, 0)); }
template <int S> struct mit_t        // S: makes the iterator types of the two ranges different
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef Ix value_type;
    typedef long difference_type;
    typedef Ix const* pointer;
    typedef Ix reference;
    int s; long i;
    mit_t() : s(0), i(0) {}
    mit_t(int q, long x) : s(q), i(x) {}
    static void same(mit_t a, mit_t b) { if (a.s != b.s) verif_assert(false, "frame: iterators into different sequences are not mixed"); }
    static Ix at(int s, long i) { verif_assert(verif_and(0 <= i, i < n_in[s]), "frame: only elements inside the given ranges are accessed"); return Ix(s, i); }
    reference operator*() const { return at(s, i); }
    reference operator[](long n) const { return at(s, i + n); }
    mit_t& operator++() { ++i; return *this; }
    mit_t operator++(int) { mit_t r(*this); ++i; return r; }
    mit_t& operator--() { --i; return *this; }
    mit_t operator--(int) { mit_t r(*this); --i; return r; }
    mit_t& operator+=(long n) { i += n; return *this; }
    mit_t& operator-=(long n) { i -= n; return *this; }
    friend mit_t operator+(mit_t a, long n) { return mit_t(a.s, a.i + n); }
    friend mit_t operator+(long n, mit_t a) { return mit_t(a.s, a.i + n); }
    friend mit_t operator-(mit_t a, long n) { return mit_t(a.s, a.i - n); }
    friend long operator-(mit_t a, mit_t b) { same(a, b); return a.i - b.i; }
    friend bool operator==(mit_t a, mit_t b) { same(a, b); return a.i == b.i; }
    friend bool operator!=(mit_t a, mit_t b) { same(a, b); return a.i != b.i; }
    friend bool operator<(mit_t a, mit_t b) { same(a, b); return a.i < b.i; }
    friend bool operator>(mit_t a, mit_t b) { same(a, b); return a.i > b.i; }
    friend bool operator<=(mit_t a, mit_t b) { same(a, b); return a.i <= b.i; }
    friend bool operator>=(mit_t a, mit_t b) { same(a, b); return a.i >= b.i; }
};
template <int S> long idx_of(mit_t<S> it) { return it.i; }
template <int S> void set_idx(mit_t<S>& it, long v) { it.i = v; }
// what has been written to the output: [o, o+length) is the merge of S0[a0,b0) and S1[a1,b1)
struct Rec { long o, a0, b0, a1, b1; };
inline Rec recs[16];
inline int nrecs = 0;
inline void record(long o, long a0, long b0, long a1, long b1)
{
    verif_assert(verif_and(verif_and(0 <= a0, a0 <= b0), verif_and(b0 <= n_in[0], verif_and(0 <= a1, verif_and(a1 <= b1, b1 <= n_in[1])))), "frame: only elements inside the given ranges are accessed");
    verif_assert(verif_and(0 <= o, o + (b0 - a0) + (b1 - a1) <= n_out), "frame: only the output range is written");
    if (!contents) return;
    Rec& r = recs[nrecs++];
    r.o = o; r.a0 = a0; r.b0 = b0; r.a1 = a1; r.b1 = b1;
}
struct oref
{
    long o;
    oref& operator=(Ix const& x) { if (x.s == 0) record(o, x.i, x.i + 1, 0, 0); else record(o, 0, 0, x.i, x.i + 1); return *this; }
};
struct oit
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef Ix value_type;
    typedef long difference_type;
    typedef void pointer;
    typedef oref reference;
    long i;
    explicit oit(long x = 0) : i(x) {}
    oref operator*() const { return oref{i}; }
    oref operator[](long n) const { return oref{i + n}; }
    oit& operator++() { ++i; return *this; }
    oit operator++(int) { oit r(*this); ++i; return r; }
    oit& operator--() { --i; return *this; }
    oit& operator+=(long n) { i += n; return *this; }
    oit& operator-=(long n) { i -= n; return *this; }
    friend oit operator+(oit a, long n) { return oit(a.i + n); }
    friend oit operator+(long n, oit a) { return oit(a.i + n); }
    friend oit operator-(oit a, long n) { return oit(a.i - n); }
    friend long operator-(oit a, oit b) { return a.i - b.i; }
    friend bool operator==(oit a, oit b) { return a.i == b.i; }
    friend bool operator!=(oit a, oit b) { return a.i != b.i; }
    friend bool operator<(oit a, oit b) { return a.i < b.i; }
};
inline long idx_of(oit it) { return it.i; }
inline void set_idx(oit& it, long v) { it.i = v; }
inline void in_order(int s, long a, long b) { verif_assert(verif_and(0 <= a, verif_and(a <= b, b <= n_in[s])), "frame: a valid part of an input range is used"); }
// first position of [a,b) of s which is not less than (upper: which is greater than) the pivot
template <class F> long bound(int s, long a, long b, Ix p, F& f, bool upper)
{
    in_order(s, a, b);
    maybe_throw();
    verif_assert(is_order(f), "post: merged with the given comparison");
    long r = verif_nondet_range("bound", a, b + 1);
    if (!contents) return r;
    long c = clampl(C[s], a, b);
    if (s == p.s)
    {
        // the pivot is the element p.i of the same sorted range: equivalent elements may lie on both sides
        if (upper) verif_assume(verif_or(p.i < a, r > verif_ite(p.i < b, p.i, b - 1)));
        else verif_assume(r <= verif_ite(p.i < a, a, verif_ite(p.i < b, p.i, b)));
        return r;
    }
    bool before = p.i < C[p.s];      // the pivot comes before the cut
    if (s == 1 && !upper) verif_assume(verif_ite(before, r <= c, r >= c));
    else if (s == 0 && upper) verif_assume(verif_ite(before, r <= c, r >= c));
    else if (s == 0) { verif_assume(verif_or(!before, r <= c)); }
    else { verif_assume(verif_or(before, r >= c)); }
    return r;
}
template <class F> void merge_(int s, long a, long b, int t, long c, long d, long o, F& f)
{
    in_order(s, a, b); in_order(t, c, d);
    maybe_throw();
    verif_assert(is_order(f), "post: merged with the given comparison");
    verif_assert(verif_or(s != t, verif_or(a == b, c == d)), "post: parts of both input ranges are merged");
    verif_assert(verif_or(s == 0, verif_or(a == b, c == d)), "post: equivalent elements: those of the first range come first");
    if (s == 0) record(o, a, b, t == 1 ? c : 0, t == 1 ? d : 0);
    else record(o, t == 0 ? c : 0, t == 0 ? d : 0, a, b);
}
// the records tile the output [o, o+length), use every element of the given parts once and are in order
inline void merged(long o, long a0, long b0, long a1, long b1)
{
    bool used[16] = {};
    long p = o, e = o + (b0 - a0) + (b1 - a1), x0 = a0, x1 = a1;
    bool one = false;               // an element which is not before the cut has been placed
    for (int k = 0; k < nrecs; ++k)
    {
        if (verif_must(p == e)) break;
        int q = -1;
        for (int i = 0; i < nrecs; ++i)
            if (!used[i] && verif_must(recs[i].o == p) && !verif_must(verif_and(recs[i].a0 == recs[i].b0, recs[i].a1 == recs[i].b1))) { q = i; break; }
        if (q < 0) break;
        used[q] = true;
        Rec& r = recs[q];
        bool n0 = r.a0 < r.b0, n1 = r.a1 < r.b1;
        verif_assert(verif_or(!n0, r.a0 == x0), "post: every element of the first range is in the output once");
        verif_assert(verif_or(!n1, r.a1 == x1), "post: every element of the second range is in the output once");
        bool zero = verif_or(verif_and(n0, r.a0 < C[0]), verif_and(n1, r.a1 < C[1]));
        verif_assert(verif_or(!one, !zero), "post: the output is the stable merge of both ranges");
        one = verif_or(one, verif_or(verif_and(n0, r.b0 > C[0]), verif_and(n1, r.b1 > C[1])));
        x0 = verif_ite(n0, r.b0, x0); x1 = verif_ite(n1, r.b1, x1);
        p += (r.b0 - r.a0) + (r.b1 - r.a1);
    }
    verif_assert(verif_and(p == e, verif_and(x0 == b0, x1 == b1)), "post: the whole output is written");
    for (int i = 0; i < nrecs; ++i)
        verif_assert(verif_or(used[i], verif_and(recs[i].a0 == recs[i].b0, recs[i].a1 == recs[i].b1)), "post: nothing is written twice, or outside the output");
}
}
namespace std {
template <int S> vf::mit_t<S> lower_bound(vf::mit_t<S> b, vf::mit_t<S> e, vf::Ix p, vf::Less const& f) { vf::mit_t<S>::same(b, e); return vf::mit_t<S>(b.s, vf::bound(b.s, b.i, e.i, p, f, false)); }
template <int S> vf::mit_t<S> upper_bound(vf::mit_t<S> b, vf::mit_t<S> e, vf::Ix p, vf::Less const& f) { vf::mit_t<S>::same(b, e); return vf::mit_t<S>(b.s, vf::bound(b.s, b.i, e.i, p, f, true)); }
template <int S, int T> vf::oit merge(vf::mit_t<S> a, vf::mit_t<S> b, vf::mit_t<T> c, vf::mit_t<T> d, vf::oit o, vf::Less const& f)
{
    vf::mit_t<S>::same(a, b); vf::mit_t<T>::same(c, d);
    vf::merge_(a.s, a.i, b.i, c.s, c.i, d.i, o.i, f);
    return o + ((b - a) + (d - c));
}
template <int S> vf::oit one_range(vf::mit_t<S> a, vf::mit_t<S> b, vf::oit o)
{
    vf::mit_t<S>::same(a, b);
    vf::in_order(a.s, a.i, b.i);
    if (a.s == 0) vf::record(o.i, a.i, b.i, 0, 0); else vf::record(o.i, 0, 0, a.i, b.i);
    return o + (b - a);
}
template <int S> vf::oit copy(vf::mit_t<S> a, vf::mit_t<S> b, vf::oit o) { return one_range(a, b, o); }
template <int S> vf::oit move(vf::mit_t<S> a, vf::mit_t<S> b, vf::oit o) { return one_range(a, b, o); }
}
#endif

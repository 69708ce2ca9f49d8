// Model for algorithms which order a range in place by partitioning.  All operations on the range are
// permutations of a part of it, so only the order is left to prove.  It is proved for an arbitrary cut K
// of the comparison: class 0 = elements before K, class 1 = all others.  The range is a list of parts,
// each with the number of its elements of class 0 (arbitrary for the input):
//   ANY  in arbitrary order       ORD  sorted         REV  sorted in reverse order
#ifndef VF_PART_HPP
#define VF_PART_HPP
#include <vf_idx.hpp>
namespace vf {
enum { ANY, ORD, REV };
struct Part { long a, b, z; int st; };
inline Part parts[32];              // ordered, tiling [0,N)
inline int nparts = 0;
inline long N;
inline bool contents = true;
struct E                            // an element: its class; probe: used to examine a functor
{
    long one, probe, i;             // i: where it was read
    E() : one(false), probe(0), i(-1) {}
    E(bool o, int p, long x) : one(verif_ite(o, 1L, 0L)), probe(p), i(x) {}
};
inline bool probed_one;
inline long probed_i;
inline int probed = 0;              // how the probe met the other element: 1 left, 2 right
struct Less
{
    bool live = true;
    Less() {}
    Less(Less const& o) : live(o.live) {}
    Less(Less&& o) : live(o.live) { o.live = false; }
    Less& operator=(Less const& o) { live = o.live; return *this; }
    Less& operator=(Less&& o) { live = o.live; o.live = false; return *this; }
    bool operator()(E const& a, E const& b) const
    {
        verif_assert(live, "post: the given comparison is used (not a moved-from one)");
        if (a.probe && b.probe) return a.probe < b.probe;
        if (a.probe) { probed = 1; probed_one = b.one != 0; probed_i = b.i; return true; }
        if (b.probe) { probed = 2; probed_one = a.one != 0; probed_i = a.i; return true; }
        maybe_throw();
        if (!contents) return verif_nondet_bool("order of two elements");
        if (a.i >= 0 && verif_must(a.i == b.i)) return false;
        bool lt = verif_nondet_bool("order of two elements");
        verif_assume(verif_and(verif_or(a.one != 0, verif_or(b.one == 0, lt)), verif_or(a.one == 0, verif_or(b.one != 0, !lt))));
        return lt;
    }
};
template <class F> int order_of(F& f) { bool x = f(E(false, 1, 0), E(false, 2, 0)), y = f(E(false, 2, 0), E(false, 1, 0)), r = f(E(false, 1, 0), E(false, 1, 0)); return r ? 0 : x && !y ? 1 : y && !x ? 2 : 0; }
inline void bounds(long a, long b) { verif_assert(verif_and(0 <= a, verif_and(a <= b, b <= N)), "frame: only elements inside the given range are accessed"); }
inline int find(long a, long b)
{
    for (int i = 0; i < nparts; ++i) if (verif_must(verif_and(parts[i].a == a, parts[i].b == b))) return i;
    return -1;
}
// the part [a,b), which may be empty; -1: not a part of the list
inline Part* part(long a, long b)
{
    bounds(a, b);
    int i = find(a, b);
    if (i < 0)                      // consecutive parts
    {
        for (int k = 0; k < nparts; ++k)
        {
            if (!verif_must(parts[k].a == a)) continue;
            long z = parts[k].z;
            int e = k;
            while (e + 1 < nparts && !verif_must(parts[e].b == b)) { ++e; z += parts[e].z; }
            if (!verif_must(parts[e].b == b)) continue;
            parts[k].b = b; parts[k].z = z; parts[k].st = ANY;
            for (int x = k + 1; x + (e - k) < nparts; ++x) parts[x] = parts[x + (e - k)];
            nparts -= e - k;
            i = k;
            break;
        }
    }
    verif_assert(i >= 0, "post: an operation works on a part of the range which is known as a whole");
    return &parts[i];
}
inline long zmin(long z, long n) { return verif_ite(z < n, z, n); }
// splits parts[i] into [a,m) with za and [m,b) with the rest
inline void split(int i, long m, long za, int s1, int s2)
{
    for (int k = nparts; k > i + 1; --k) parts[k] = parts[k - 1];
    ++nparts;
    Part p = parts[i];
    parts[i].b = m; parts[i].z = za; parts[i].st = s1;
    parts[i + 1].a = m; parts[i + 1].b = p.b; parts[i + 1].z = p.z - za; parts[i + 1].st = s2;
}
inline void input(bool thr)
{
    N = some_size("n");
    if (thr) { contents = false; throws(); return; }
    nparts = 1; parts[0].a = 0; parts[0].b = N; parts[0].st = ANY;
    parts[0].z = verif_nondet_range("elements before the cut", 0, N + 1);
}
inline E element(long i)
{
    bounds(i, i + 1);
    if (!contents) return E(verif_nondet_bool("class"), 0, i);
    bool one = verif_nondet_bool("class of an element");
    for (int k = 0; k < nparts; ++k)
    {
        Part& p = parts[k];
        bool in = verif_and(p.a <= i, i < p.b);
        verif_assume(verif_or(!in, verif_and(verif_or(p.z > 0, one), verif_or(p.z < p.b - p.a, !one))));
        if (p.st == ORD) verif_assume(verif_or(!in, one == (i - p.a >= p.z)));
        if (p.st == REV) verif_assume(verif_or(!in, one == (i - p.a < p.b - p.a - p.z)));
    }
    return E(one, 0, i);
}
struct pit
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef E value_type;
    typedef long difference_type;
    typedef E const* pointer;
    typedef E reference;
    long i;
    explicit pit(long x = 0) : i(x) {}
    reference operator*() const { return element(i); }
    reference operator[](long n) const { return element(i + n); }
    pit& operator++() { ++i; return *this; }
    pit operator++(int) { pit r(*this); ++i; return r; }
    pit& operator--() { --i; return *this; }
    pit operator--(int) { pit r(*this); --i; return r; }
    pit& operator+=(long n) { i += n; return *this; }
    pit& operator-=(long n) { i -= n; return *this; }
    friend pit operator+(pit a, long n) { return pit(a.i + n); }
    friend pit operator+(long n, pit a) { return pit(a.i + n); }
    friend pit operator-(pit a, long n) { return pit(a.i - n); }
    friend long operator-(pit a, pit b) { return a.i - b.i; }
    friend bool operator==(pit a, pit b) { return a.i == b.i; }
    friend bool operator!=(pit a, pit b) { return a.i != b.i; }
    friend bool operator<(pit a, pit b) { return a.i < b.i; }
    friend bool operator>(pit a, pit b) { return a.i > b.i; }
    friend bool operator<=(pit a, pit b) { return a.i <= b.i; }
    friend bool operator>=(pit a, pit b) { return a.i >= b.i; }
};
inline long idx_of(pit it) { return it.i; }
inline void set_idx(pit& it, long v) { it.i = v; }
// ---- contracts ----
template <class F> bool is_sorted_(long a, long b, F& f)
{
    bounds(a, b); maybe_throw();
    bool r = verif_nondet_bool("is_sorted");
    if (!contents) return r;
    int o = order_of(f);
    verif_assert(o != 0, "post: examined with the given comparison");
    Part* p = part(a, b);
    if (r)
    {
        if (p->st == ANY) p->st = o == 1 ? ORD : REV;
        else if ((p->st == ORD) != (o == 1)) verif_assume(verif_or(p->z == 0, p->z == b - a));
    }
    else verif_assume(b - a >= 2);
    return r;
}
inline void reverse_(long a, long b)
{
    bounds(a, b);
    if (!contents) return;
    Part* p = part(a, b);
    p->st = p->st == ORD ? REV : p->st == REV ? ORD : ANY;
}
template <class F> void sort_(long a, long b, F& f)
{
    bounds(a, b); maybe_throw();
    if (!contents) return;
    verif_assert(order_of(f) == 1, "post: sorted with the given comparison");
    part(a, b)->st = ORD;
}
template <class F> void nth_(long a, long n, long b, F& f)
{
    bounds(a, b); verif_assert(verif_and(a <= n, n <= b), "pre: the nth position lies inside the range");
    maybe_throw();
    if (!contents) return;
    verif_assert(order_of(f) == 1, "post: ordered with the given comparison");
    Part* p = part(a, b);
    p->st = ANY;
    if (verif_must(n == b)) return;
    verif_assume(n < b);
    int i = find(a, b);
    long z = p->z;
    split(i, n, zmin(z, n - a), ANY, ANY);
    split(i + 1, n + 1, verif_ite(z > n - a, 1L, 0L), ANY, ANY);
}
template <class F> void partial_(long a, long m, long b, F& f)
{
    bounds(a, b); verif_assert(verif_and(a <= m, m <= b), "pre: the middle lies inside the range");
    maybe_throw();
    if (!contents) return;
    verif_assert(order_of(f) == 1, "post: sorted with the given comparison");
    Part* p = part(a, b);
    p->st = ANY;
    split(find(a, b), m, zmin(p->z, m - a), ORD, ANY);
}
// returns the partition point: [a,r) satisfies f, [r,b) does not
template <class F> long partition_(long a, long b, F& f)
{
    bounds(a, b); maybe_throw();
    long r = verif_nondet_range("partition point", a, b + 1);
    probed = 0;
    bool v = f(E(false, 1, 0));
    verif_assert(probed != 0, "post: partitioned by comparing with the pivot");
    // the comparison does not hold for the pivot and itself: if it is one of the elements, its side is not empty
    bool here = verif_and(a <= probed_i, probed_i < b);
    if (v) verif_assume(verif_or(!here, r < b)); else verif_assume(verif_or(!here, r > a));
    if (!contents) return r;
    bool lt = probed == 1;           // f(x) is (v): x < pivot, pivot < x, or the negation
    bool one = probed_one;           // class of the pivot
    Part* p = part(a, b);
    p->st = ANY;
    long z = p->z, za = verif_nondet_range("elements before the cut in the first half", 0, N + 1);
    verif_assume(verif_and(za <= z, verif_and(za <= r - a, z - za <= b - r)));
    // H: the elements for which the comparison holds, L: the others
    //   x < pivot:  pivot before the cut => H has no element of class 1;  else L has none of class 0
    //   pivot < x:  pivot before the cut => L has no element of class 1;  else H has none of class 0
    bool first_is_h = v;
    long n1 = r - a, n2 = b - r, z1 = za, z2 = z - za;
    bool f1 = lt ? first_is_h : !first_is_h;             // the first half has the smaller elements
    if (f1) verif_assume(verif_or(verif_and(!one, z1 == n1), verif_and(one, z2 == 0)));
    else verif_assume(verif_or(verif_and(!one, z2 == n2), verif_and(one, z1 == 0)));
    split(find(a, b), r, za, ANY, ANY);
    return r;
}
// obligation: [a,b) is a sequence of parts, in order and each of them sorted
inline void is_ordered(long a, long b, const char* m)
{
    if (!contents) return;
    bool one = false;
    for (int i = 0; i < nparts; ++i)
    {
        Part& p = parts[i];
        if (verif_must(p.b <= a) || verif_must(p.a >= b)) continue;
        if (verif_must(p.a == p.b)) continue;
        bool e = verif_or(p.a == p.b, verif_or(p.b <= a, p.a >= b));
        // [x,y): its elements inside [a,b)
        long x = verif_ite(p.a < a, a, p.a), y = verif_ite(p.b < b, p.b, b);
        bool uni = verif_or(p.z == 0, p.z == p.b - p.a);
        verif_assert(verif_or(e, verif_or(p.st == ORD, verif_or(uni, y - x <= 1))), m);
        if (p.st == ORD) { verif_assert(verif_or(e, verif_or(!one, p.z <= x - p.a)), m); one = verif_or(one, verif_and(!e, p.z < y - p.a)); }
        else { verif_assert(verif_or(e, verif_or(!one, p.z == 0)), m); one = verif_or(one, verif_and(!e, p.z < p.b - p.a)); }
    }
}
// obligation: no element of [m,b) is less than an element of [a,m)
inline void is_split(long a, long m, long b, const char* msg)
{
    if (!contents) return;
    bool one = false, zero = false;
    for (int i = 0; i < nparts; ++i)
    {
        Part& p = parts[i];
        bool in = verif_and(p.a < p.b, verif_and(a <= p.a, p.b <= b));
        bool l = verif_and(in, p.b <= m), r = verif_and(in, p.a >= m);
        // a sorted part across m
        bool x = verif_and(in, verif_and(p.a < m, m < p.b));
        if (p.st == ORD)
        {
            one = verif_or(one, verif_and(x, p.z < m - p.a));
            zero = verif_or(zero, verif_and(x, p.z > m - p.a));
        }
        else verif_assert(verif_or(!x, verif_or(p.z == 0, p.z == p.b - p.a)), msg);
        if (p.st != ORD) { one = verif_or(one, verif_and(x, p.z == 0)); zero = verif_or(zero, verif_and(x, p.z > 0)); }
        one = verif_or(one, verif_and(l, p.z < p.b - p.a));
        zero = verif_or(zero, verif_and(r, p.z > 0));
    }
    verif_assert(!verif_and(one, zero), msg);
}
}
namespace std {
template <class F> bool is_sorted(vf::pit b, vf::pit e, F f) { return vf::is_sorted_(b.i, e.i, f); }
inline void reverse(vf::pit b, vf::pit e) { vf::reverse_(b.i, e.i); }
template <class F> void sort(vf::pit b, vf::pit e, F f) { vf::sort_(b.i, e.i, f); }
template <class F> void stable_sort(vf::pit b, vf::pit e, F f) { vf::sort_(b.i, e.i, f); }
template <class F> void nth_element(vf::pit b, vf::pit n, vf::pit e, F f) { vf::nth_(b.i, n.i, e.i, f); }
template <class F> void partial_sort(vf::pit b, vf::pit n, vf::pit e, F f) { vf::partial_(b.i, n.i, e.i, f); }
template <class F> vf::pit partition(vf::pit b, vf::pit e, F f) { return vf::pit(vf::partition_(b.i, e.i, f)); }
}
#endif

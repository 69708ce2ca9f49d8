// Contents of memory for the sorting algorithms, as disjoint regions: [a,b) of sequence s holds a
// permutation of the elements [oa,ob) of the input.  State of a region:
//   RAW  the elements in their original order      REV  in reverse order
//   OK   sorted (and stable, if the entry asks for it)      GARB  unspecified
// The order of the input is arbitrary: G is an arbitrary adjacent pair (G, G+1) of the input and its
// relation is arbitrary.  "sorted" for a RAW or REV region is asked of that pair, hence of all of them.
#ifndef VF_REG_HPP
#define VF_REG_HPP
#include <vf_idx.hpp>
namespace vf {
enum { RAW, REV, OK_, GARB };
struct Reg { int s; long a, b, oa, ob; int st; bool live; bool empty; };
inline Reg regs[48];
inline int nregs = 0;
inline long N, G, REL;              // REL: -1 x[G] < x[G+1], 0 equivalent, 1 greater
inline bool need_stable = false, contents = true;
inline int nseq = 2;                // next sequence for a new range
inline long slen[16];
inline bool isin[16] = {true};      // the sequence holds the input (the given range, or a copy of it)
inline void put(int s, long a, long b, long oa, long ob, int st)
{
    Reg& r = regs[nregs++];
    r.s = s; r.a = a; r.b = b; r.oa = oa; r.ob = ob; r.st = st; r.live = true; r.empty = false;
}
inline void input(bool stable)
{
    N = some_size("n"); slen[0] = N; need_stable = stable;
    G = verif_nondet_long("G"); verif_assume(verif_and(0 <= G, G < N));
    REL = verif_choice(3, "relation of an arbitrary adjacent pair") - 1;
    put(0, 0, N, 0, N, RAW);
}
inline void bounds(int s, long a, long b)
{
    verif_assert(verif_and(0 <= a, verif_and(a <= b, b <= slen[s])), "frame: only elements inside the given range are accessed");
}
// the region [a,b) of s; it is removed (take) from the table
inline Reg take(int s, long a, long b, bool remove = true)
{
    Reg e; e.s = s; e.a = a; e.b = b; e.oa = e.ob = 0; e.st = OK_; e.live = true; e.empty = true;
    bounds(s, a, b);
    if (!contents) return e;
    if (verif_must(a == b)) return e;
    for (int i = 0; i < nregs; ++i)
    {
        Reg& r = regs[i];
        if (!r.live || r.s != s) continue;
        if (verif_must(verif_and(r.a == a, r.b == b)))
        {
            e = r;
            if (remove) r.live = false;
            return e;
        }
        if (r.st == RAW && verif_must(verif_and(r.a <= a, b <= r.b)))
        {
            e = r; e.a = a; e.b = b; e.oa = r.oa + (a - r.a); e.ob = e.oa + (b - a);
            if (remove)
            {
                long rb = r.b, ra = r.a, roa = r.oa, rob = r.ob;
                r.live = false;
                put(s, ra, a, roa, e.oa, RAW);
                put(s, b, rb, e.ob, rob, RAW);
            }
            return e;
        }
    }
    verif_assert(false, "post: an operation works on a part of the range which is complete (all elements there, none of them twice)");
    return e;
}
// new contents of [a,b): whatever was there is overwritten
inline void store(int s, long a, long b, Reg const& x)
{
    bounds(s, a, b);
    if (!contents || verif_must(a == b)) return;
    for (int i = 0; i < nregs; ++i)
    {
        Reg& r = regs[i];
        if (!r.live || r.s != s) continue;
        if (verif_must(verif_or(r.b <= a, b <= r.a))) continue;
        if (verif_must(verif_and(a <= r.a, r.b <= b))) { r.live = false; continue; }
        if (verif_must(r.a == r.b)) { r.live = false; continue; }
        verif_assert(false, "post: a part which was sorted is not overwritten partially");
    }
    if (x.empty) return;
    put(s, a, b, x.oa, x.ob, x.st);
}
// obligation: the region is sorted
inline void sorted_now(Reg const& r, const char* m)
{
    if (!contents || r.empty || r.st == OK_) return;
    bool out = verif_or(G < r.oa, G >= r.ob - 1);
    if (r.st == RAW) verif_assert(verif_or(out, REL <= 0), m);
    else if (r.st == REV) verif_assert(verif_or(out, verif_or(REL > 0, verif_and(REL == 0, !need_stable))), m);
    else verif_assert(false, m);
}
// elements are their positions
template <class F> bool cmp_probe(F& f, long i, long j) { return f(Ix(9, i), Ix(9, j)); }
template <class F> bool is_order(F& f) { return cmp_probe(f, 0, 1) && !cmp_probe(f, 0, 0) && !cmp_probe(f, 1, 0); }
// the user's comparison
struct Less
{
    bool live = true;
    Less() {}
    Less(Less const& o) : live(o.live) {}
    Less(Less&& o) : live(o.live) { o.live = false; }
    Less& operator=(Less const& o) { live = o.live; return *this; }
    Less& operator=(Less&& o) { live = o.live; o.live = false; return *this; }
    bool operator()(Ix const& a, Ix const& b) const
    {
        verif_assert(live, "post: the given comparison is used (not a moved-from one)");
        if (a.s == 9 && b.s == 9) return a.i < b.i;
        maybe_throw();
        if (isin[a.s] && isin[b.s])
        {
            if (verif_and(a.i == G, b.i == G + 1)) return REL < 0;
            if (verif_and(a.i == G + 1, b.i == G)) return REL > 0;
            if (a.i == b.i) return false;
        }
        return verif_nondet_bool("order of two elements");
    }
    template <class A> void serialize(A&, const unsigned int) {}
    std::string get_task_name() const { return std::string(); }
};
struct Cell
{
    Cell() {}
    Cell(Cell const&) {}
    Cell& operator=(Cell const&) { return *this; }
    ~Cell() {}
    char c;
};
struct TCell { char c; };           // trivial destructor
template <class V> struct rit_t
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef V value_type;
    typedef long difference_type;
    typedef V const* pointer;
    typedef Ix reference;
    int s; long i;
    rit_t() : s(0), i(0) {}
    rit_t(int q, long x) : s(q), i(x) {}
    static void same(rit_t a, rit_t b) { if (a.s != b.s) verif_assert(false, "frame: iterators into different sequences are not mixed"); }
    reference operator*() const { bounds(s, i, i + 1); return Ix(s, i); }
    reference operator[](long n) const { return *(*this + n); }
    rit_t& operator++() { ++i; return *this; }
    rit_t operator++(int) { rit_t r(*this); ++i; return r; }
    rit_t& operator--() { --i; return *this; }
    rit_t operator--(int) { rit_t r(*this); --i; return r; }
    rit_t& operator+=(long n) { i += n; return *this; }
    rit_t& operator-=(long n) { i -= n; return *this; }
    friend rit_t operator+(rit_t a, long n) { return rit_t(a.s, a.i + n); }
    friend rit_t operator+(long n, rit_t a) { return rit_t(a.s, a.i + n); }
    friend rit_t operator-(rit_t a, long n) { return rit_t(a.s, a.i - n); }
    friend long operator-(rit_t a, rit_t b) { same(a, b); return a.i - b.i; }
    friend bool operator==(rit_t a, rit_t b) { same(a, b); return a.i == b.i; }
    friend bool operator!=(rit_t a, rit_t b) { same(a, b); return a.i != b.i; }
    friend bool operator<(rit_t a, rit_t b) { same(a, b); return a.i < b.i; }
    friend bool operator>(rit_t a, rit_t b) { same(a, b); return a.i > b.i; }
    friend bool operator<=(rit_t a, rit_t b) { same(a, b); return a.i <= b.i; }
    friend bool operator>=(rit_t a, rit_t b) { same(a, b); return a.i >= b.i; }
};
template <class V> long idx_of(rit_t<V> it) { return it.i; }
template <class V> void set_idx(rit_t<V>& it, long v) { it.i = v; }
typedef rit_t<Cell> rit;
// a container: sequence of its own
struct rng
{
    typedef rit iterator;
    typedef rit const_iterator;
    typedef Cell value_type;
    typedef long difference_type;
    typedef unsigned long size_type;
    int s; long n;
    rng() : s(15), n(0) {}
    explicit rng(unsigned long k) : s(nseq++), n((long)k) { slen[s] = n; }
    rng(int q, long k) : s(q), n(k) {}
    rng(rng const& o) : s(15), n(o.n) { dup(o); }
    rng(rng&& o) : s(o.s), n(o.n) { o.s = 15; o.n = 0; }
    rng& operator=(rng const& o) { n = o.n; dup(o); return *this; }
    void dup(rng const& o)
    {
        if (o.s == 15) { s = 15; return; }
        s = nseq++; slen[s] = n; isin[s] = o.s < 15 && isin[o.s];
        for (int i = 0, k = nregs; i < k; ++i)
            if (regs[i].live && regs[i].s == o.s) put(s, regs[i].a, regs[i].b, regs[i].oa, regs[i].ob, regs[i].st);
    }
    rng& operator=(rng&& o) { s = o.s; n = o.n; o.s = 15; o.n = 0; return *this; }
    rit begin() const { return rit(s, 0); }
    rit end() const { return rit(s, n); }
    size_type size() const { return (size_type)n; }
    bool empty() const { return n == 0; }
};
inline rng whole_range() { return rng(0, N); }
// the buffer of the merge sort: raw memory
inline char* buf = nullptr;
inline long elem_size = 1, bufn = 0;
inline int built = 0, cleared = 0;
template <class V> rit_t<V> place(rit_t<V> i) { return i; }
template <class V> rit_t<V> place(V* p)
{
    verif_assert(built == 1, "post: the merge memory holds elements when it is used");
    verif_assert(cleared == 0, "post: the merge memory is not used after it was released");
    return rit_t<V>(1, ((char*)p - buf) / (long)sizeof(V));
}
// ---- contracts of the std algorithms ----
template <class F> bool is_sorted_(int s, long a, long b, F& f)
{
    maybe_throw();
    bool lt = cmp_probe(f, 1, 0), eq = cmp_probe(f, 0, 0), gt = cmp_probe(f, 0, 1);   // f(x[i+1], x[i]) for x[i] < = > x[i+1]
    if (!contents) { bounds(s, a, b); return verif_nondet_bool("is_sorted"); }
    Reg r = take(s, a, b, false);
    if (r.empty) return true;
    bool res = verif_nondet_bool("is_sorted");
    bool bad = REL < 0 ? lt : REL == 0 ? eq : gt;
    if (r.st == RAW && res) verif_assume(verif_or(verif_or(G < r.oa, G >= r.ob - 1), !bad));
    if (!res) verif_assume(b - a >= 2);
    return res;
}
inline void reverse_(int s, long a, long b)
{
    Reg r = take(s, a, b);
    r.st = r.empty ? OK_ : r.st == RAW ? REV : r.st == REV ? RAW : GARB;
    store(s, a, b, r);
}
template <class F> void sort_(int s, long a, long b, F& f, bool stable)
{
    maybe_throw();
    verif_assert(is_order(f), "post: sorted with the given comparison");
    Reg r = take(s, a, b);
    if (!r.empty) r.st = !need_stable || (stable && (r.st == RAW || r.st == OK_)) ? OK_ : GARB;
    store(s, a, b, r);
}
template <class F> void merge_(int s1, long a1, long b1, int s2, long a2, long b2, int so, long o, F& f)
{
    maybe_throw();
    verif_assert(is_order(f), "post: merged with the given comparison");
    Reg x = take(s1, a1, b1), y = take(s2, a2, b2);
    sorted_now(x, "post: only sorted parts are merged");
    sorted_now(y, "post: only sorted parts are merged");
    Reg r = x;
    r.st = OK_;
    if (contents)
    {
        if (x.empty && y.empty) { bounds(so, o, o); return; }
        if (x.empty) { r = y; r.st = OK_; }
        else if (y.empty) ;
        else if (verif_must(x.ob == y.oa)) r.ob = y.ob;
        else if (verif_must(y.ob == x.oa)) { r.oa = y.oa; if (need_stable) r.st = GARB; }
        else verif_assert(false, "post: adjacent parts of the input are merged");
    }
    if (so == s1) verif_assert(verif_or(a1 == b1, verif_or(o + (b1 - a1) + (b2 - a2) <= a1, b1 <= o)), "post: the output of a merge does not overlap its input");
    if (so == s2) verif_assert(verif_or(a2 == b2, verif_or(o + (b1 - a1) + (b2 - a2) <= a2, b2 <= o)), "post: the output of a merge does not overlap its input");
    store(so, o, o + (b1 - a1) + (b2 - a2), r);
}
template <class F> void inplace_merge_(int s, long a, long m, long b, F& f)
{
    maybe_throw();
    verif_assert(is_order(f), "post: merged with the given comparison");
    Reg x = take(s, a, m), y = take(s, m, b);
    sorted_now(x, "post: only sorted parts are merged");
    sorted_now(y, "post: only sorted parts are merged");
    Reg r = x;
    if (x.empty) r = y;
    else if (!y.empty) { verif_assert(x.ob == y.oa, "post: adjacent parts of the input are merged"); r.ob = y.ob; }
    r.st = OK_;
    store(s, a, b, r);
}
inline void move_(int s, long a, long b, int so, long o)
{
    Reg r = take(s, a, b);
    store(so, o, o + (b - a), r);
}
// the result: all elements, sorted, in [0,n) of sequence s
inline void result(int s)
{
    Reg r = take(s, 0, N, false);
    if (r.empty) { verif_assert(N == 0, "post: all elements are in the result"); return; }
    verif_assert(verif_and(r.oa == 0, r.ob == N), "post: all elements are in the result");
    sorted_now(r, "post: the result is sorted");
}
}
namespace std {
template <class V, class F> bool is_sorted(vf::rit_t<V> b, vf::rit_t<V> e, F f) { vf::rit_t<V>::same(b, e); return vf::is_sorted_(b.s, b.i, e.i, f); }
template <class V> void reverse(vf::rit_t<V> b, vf::rit_t<V> e) { vf::rit_t<V>::same(b, e); vf::reverse_(b.s, b.i, e.i); }
template <class V, class F> void sort(vf::rit_t<V> b, vf::rit_t<V> e, F f) { vf::rit_t<V>::same(b, e); vf::sort_(b.s, b.i, e.i, f, false); }
template <class V, class F> void stable_sort(vf::rit_t<V> b, vf::rit_t<V> e, F f) { vf::rit_t<V>::same(b, e); vf::sort_(b.s, b.i, e.i, f, true); }
template <class V, class F> void inplace_merge(vf::rit_t<V> b, vf::rit_t<V> m, vf::rit_t<V> e, F f) { vf::rit_t<V>::same(b, e); vf::rit_t<V>::same(b, m); vf::inplace_merge_(b.s, b.i, m.i, e.i, f); }
template <class V, class F> vf::rit_t<V> merge(vf::rit_t<V> a, vf::rit_t<V> b, vf::rit_t<V> c, vf::rit_t<V> d, vf::rit_t<V> o, F f)
{
    vf::rit_t<V>::same(a, b); vf::rit_t<V>::same(c, d);
    vf::merge_(a.s, a.i, b.i, c.s, c.i, d.i, o.s, o.i, f);
    return o + ((b - a) + (d - c));
}
template <class V> vf::rit_t<V> move(vf::rit_t<V> b, vf::rit_t<V> e, vf::rit_t<V> o) { vf::rit_t<V>::same(b, e); vf::move_(b.s, b.i, e.i, o.s, o.i); return o + (e - b); }
}
#endif

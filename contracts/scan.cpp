// parallel_scan and the scans built on it.  Values are elements of the free monoid over the positions
// ("the sum of the elements [b,e)"): the operation is associative, but has no neutral element and does
// not commute.  The output is checked at an arbitrary position K.
#include <vf_idx.hpp>
namespace vf {
// b == -1: the initial value is included.  The default value is not a sum of anything.
struct Iv
{
    bool d; long b, e;
    Iv() : d(true), b(0), e(0) {}
    Iv(long x, long y) : d(false), b(x), e(y) {}
    Iv(Iv const& o) : d(o.d), b(o.b), e(o.e) {}
    Iv& operator=(Iv const& o) { written(); d = o.d; b = o.b; e = o.e; return *this; }
    void written();
};
static long n, K;
static int writes[2];                     // to position K
static bool inplace;
static Iv cell[2];                        // element K of the input (0) and of the output (1)
void Iv::written() { if (this == &cell[0]) { ++writes[0]; verif_touch(); } if (this == &cell[1]) { ++writes[1]; verif_touch(); } }
static Iv& element(int s, long i)
{
    verif_assert(verif_and(0 <= i, i < n), "frame: only elements inside the given range are accessed");
    if (i == K) return cell[s];
    return *new Iv(i, i + 1);
}
struct sct
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef Iv value_type; typedef long difference_type; typedef Iv* pointer; typedef Iv& reference;
    int s; long i;
    sct() : s(0), i(0) {}
    sct(int q, long x) : s(q), i(x) {}
    static void same(sct a, sct b) { if (a.s != b.s) verif_assert(false, "frame: iterators into different sequences are not mixed"); }
    static Iv& at(int s, long i) { return element(s, i); }
    reference operator*() const { return at(s, i); }
    reference operator[](long k) const { return at(s, i + k); }
    sct& operator++() { ++i; return *this; }
    sct operator++(int) { sct r(*this); ++i; return r; }
    sct& operator--() { --i; return *this; }
    sct operator--(int) { sct r(*this); --i; return r; }
    sct& operator+=(long k) { i += k; return *this; }
    sct& operator-=(long k) { i -= k; return *this; }
    friend sct operator+(sct a, long k) { return sct(a.s, a.i + k); }
    friend sct operator+(long k, sct a) { return sct(a.s, a.i + k); }
    friend sct operator-(sct a, long k) { return sct(a.s, a.i - k); }
    friend long operator-(sct a, sct b) { same(a, b); return a.i - b.i; }
    friend bool operator==(sct a, sct b) { same(a, b); return a.i == b.i; }
    friend bool operator!=(sct a, sct b) { same(a, b); return a.i != b.i; }
    friend bool operator<(sct a, sct b) { same(a, b); return a.i < b.i; }
    friend bool operator>(sct a, sct b) { same(a, b); return a.i > b.i; }
    friend bool operator<=(sct a, sct b) { same(a, b); return a.i <= b.i; }
    friend bool operator>=(sct a, sct b) { same(a, b); return a.i >= b.i; }
};
inline long idx_of(sct it) { return it.i; }
inline void set_idx(sct& it, long v) { it.i = v; }
struct srange
{
    typedef sct iterator; typedef sct const_iterator; typedef Iv value_type; typedef long difference_type; typedef unsigned long size_type;
    int s; bool live;
    srange() : s(0), live(false) {}
    explicit srange(int q) : s(q), live(true) {}
    srange(srange const& o) : s(o.s), live(o.live) {}
    srange(srange&& o) : s(o.s), live(o.live) { o.live = false; }
    srange& operator=(srange const& o) { s = o.s; live = o.live; return *this; }
    srange& operator=(srange&& o) { s = o.s; live = o.live; if (&o != this) o.live = false; return *this; }
    ~srange() { live = false; }
    sct begin() const { return sct(s, 0); } sct end() const { return sct(s, live ? n : 0); }
    sct begin() { return sct(s, 0); } sct end() { return sct(s, live ? n : 0); }
};
}
#include <boost/asynchronous/algorithm/parallel_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
bool vf::ix_eq(Ix const&, Ix const&) { return false; }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
struct Op
{
    bool live = true;
    Op() {}
    Op(Op const& o) : live(o.live) {}
    Op(Op&& o) : live(o.live) { o.live = false; }
    Op& operator=(Op const& o) { live = o.live; return *this; }
    Op& operator=(Op&& o) { live = o.live; if (&o != this) o.live = false; return *this; }
    Iv operator()(Iv const& a, Iv const& b) const
    {
        verif_assert(live, "post: the given operation is used (not a moved-from one)");
        maybe_throw();
        verif_assert(!verif_or(a.d, b.d), "post: only the initial value and elements are combined");
        verif_assert(a.e == b.b, "post: values are combined in the order of the sequence");
        return Iv(a.b, b.e);
    }
};
static void setup() { shallow = 1; n = verif_nondet_range("n", 0, 1L << 50); K = verif_nondet_range("K", 0, 1L << 50); verif_assume(verif_or(n == 0, K < n)); cell[0].d = false; cell[0].b = K; cell[0].e = K + 1; inplace = false; }
static void setupt() { setup(); throws(); }
static Iv init() { return Iv(-1, 0); }
static void outs(long b, long e)
{
    if (n == 0) return;
    int o = inplace ? 0 : 1;
    verif_assert(writes[o] == 1, "post: position k of the output is written exactly once");
    verif_assert(writes[1 - o] == 0, "frame: the input is not modified");
    verif_assert(verif_and(!cell[o].d, verif_and(cell[o].b == b, cell[o].e == e)), "post: position k of the output is the sum of the elements up to k");
}
static void incl() { outs(-1, K + 1); }
static void excl() { outs(-1, K); }
static void part() { outs(0, K + 1); }
static auto total = [](Iv r) { if (n > 0) verif_assert(verif_and(!r.d, verif_and(r.b == 0, r.e == n)), "post: the sum of all elements is returned"); };
static auto both = [](std::pair<srange, srange> r) { verif_assert(verif_and(verif_and(r.first.live, r.first.s == 0), verif_and(r.second.live, r.second.s == 1)), "post: the given ranges are returned"); };
static auto one = [](srange r) { verif_assert(verif_and(r.live, r.s == 0), "post: the given range is returned"); };
static sct I(long i) { return sct(0, i); }
static sct O(long i) { return sct(1, i); }
// user functions of parallel_scan: their own contracts
struct Red { Iv operator()(sct b, sct e) const { maybe_throw(); verif_assert(verif_and(b.s == 0, verif_and(0 <= b.i, verif_and(b.i <= e.i, e.i <= n))), "frame: only elements inside the given range are accessed"); return b.i == e.i ? Iv() : Iv(b.i, e.i); } };
static void scan_(sct b, sct e, sct out, Iv init)
{
    maybe_throw();
    verif_assert(verif_and(b.s == 0, verif_and(0 <= b.i, verif_and(b.i <= e.i, e.i <= n))), "frame: only elements inside the given range are accessed");
    verif_assert(out.i == b.i, "post: the results are written at the positions of the elements");
    verif_assert(verif_and(!init.d, verif_and(init.b == -1, init.e == b.i)), "post: a part is scanned with the sum of everything before it");
    if (verif_and(b.i <= K, K < e.i)) { verif_touch(); *sct(out.s, K) = Iv(-1, K + 1); }
}
struct Scn { void operator()(sct b, sct e, sct out, Iv init) const { scan_(b, e, out, init); } };
struct Scn5 { void operator()(sct b, sct e, sct out, Iv init, Iv tot) const
{
    scan_(b, e, out, init);
    if (n > 0) verif_assert(verif_and(!tot.d, verif_and(tot.b == 0, tot.e == n)), "post: the fifth argument is the sum of all elements");
} };
ENTRY(scan) { setup(); ok(ba::parallel_scan(I(0), I(n), O(0), init(), Red(), Op(), Scn(), some_cutoff()), total); incl(); }
ENTRY(scan_5) { setup(); ok(ba::parallel_scan(I(0), I(n), O(0), init(), Red(), Op(), Scn5(), some_cutoff()), total); incl(); }
ENTRY(scan_moved) { setup(); ok(ba::parallel_scan(srange(0), srange(1), init(), Red(), Op(), Scn(), some_cutoff()), both); incl(); }
ENTRY(scan_single) { setup(); inplace = true; ok(ba::parallel_scan(srange(0), init(), Red(), Op(), Scn(), some_cutoff()), one); incl(); }
ENTRY(scan_cont) { setup(); inplace = true; ok(ba::parallel_scan(source(srange(0)), init(), Red(), Op(), Scn(), some_cutoff()), one); incl(); }
ENTRY(inclusive) { setup(); ok(ba::parallel_inclusive_scan(I(0), I(n), O(0), init(), Op(), some_cutoff()), total); incl(); }
ENTRY(inclusive_inplace) { setup(); inplace = true; ok(ba::parallel_inclusive_scan(I(0), I(n), I(0), init(), Op(), some_cutoff()), total); incl(); }
ENTRY(inclusive_moved) { setup(); ok(ba::parallel_inclusive_scan(srange(0), srange(1), init(), Op(), some_cutoff()), both); incl(); }
ENTRY(inclusive_single) { setup(); inplace = true; ok(ba::parallel_inclusive_scan(srange(0), init(), Op(), some_cutoff()), one); incl(); }
ENTRY(inclusive_cont) { setup(); inplace = true; ok(ba::parallel_inclusive_scan(source(srange(0)), init(), Op(), some_cutoff()), one); incl(); }
ENTRY(exclusive) { setup(); ok(ba::parallel_exclusive_scan(I(0), I(n), O(0), init(), Op(), some_cutoff()), total); excl(); }
ENTRY(exclusive_inplace) { setup(); inplace = true; ok(ba::parallel_exclusive_scan(I(0), I(n), I(0), init(), Op(), some_cutoff()), total); excl(); }
ENTRY(exclusive_moved) { setup(); ok(ba::parallel_exclusive_scan(srange(0), srange(1), init(), Op(), some_cutoff()), both); excl(); }
struct Tr { Iv operator()(Iv const& a) const { maybe_throw(); return a; } };
ENTRY(transform_inclusive) { setup(); ok(ba::parallel_transform_inclusive_scan(I(0), I(n), O(0), init(), Op(), Tr(), some_cutoff()), total); incl(); }
ENTRY(transform_exclusive) { setup(); ok(ba::parallel_transform_exclusive_scan(I(0), I(n), O(0), init(), Op(), Tr(), some_cutoff()), total); excl(); }
ENTRY(partial_sum) { setup(); ok(ba::parallel_partial_sum(I(0), I(n), O(0), Op(), some_cutoff()), total); part(); }
ENTRY(partial_sum_inplace) { setup(); inplace = true; ok(ba::parallel_partial_sum(I(0), I(n), I(0), Op(), some_cutoff()), total); part(); }
ENTRY(partial_sum_moved) { setup(); ok(ba::parallel_partial_sum(srange(0), srange(1), Op(), some_cutoff()), both); part(); }
ENTRY(partial_sum_single) { setup(); inplace = true; ok(ba::parallel_partial_sum(srange(0), Op(), some_cutoff()), one); part(); }
ENTRY(partial_sum_cont) { setup(); inplace = true; ok(ba::parallel_partial_sum(source(srange(0)), Op(), some_cutoff()), one); part(); }
ENTRY(scan_throw) { setupt(); throwing(ba::parallel_scan(I(0), I(n), O(0), init(), Red(), Op(), Scn(), some_cutoff())); }
ENTRY(scan_moved_throw) { setupt(); throwing(ba::parallel_scan(srange(0), srange(1), init(), Red(), Op(), Scn(), some_cutoff())); }
ENTRY(scan_single_throw) { setupt(); inplace = true; throwing(ba::parallel_scan(srange(0), init(), Red(), Op(), Scn(), some_cutoff())); }
ENTRY(scan_cont_throw) { setupt(); inplace = true; throwing(ba::parallel_scan(source(srange(0)), init(), Red(), Op(), Scn(), some_cutoff())); }
ENTRY(inclusive_throw) { setupt(); throwing(ba::parallel_inclusive_scan(I(0), I(n), O(0), init(), Op(), some_cutoff())); }
ENTRY(exclusive_throw) { setupt(); throwing(ba::parallel_exclusive_scan(I(0), I(n), O(0), init(), Op(), some_cutoff())); }
ENTRY(transform_inclusive_throw) { setupt(); throwing(ba::parallel_transform_inclusive_scan(I(0), I(n), O(0), init(), Op(), Tr(), some_cutoff())); }
ENTRY(partial_sum_throw) { setupt(); throwing(ba::parallel_partial_sum(I(0), I(n), O(0), Op(), some_cutoff())); }

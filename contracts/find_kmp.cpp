// parallel_kmp: all 16 overloads over the contract of kmp_matcher; kmp_matcher itself (bounded: needles of
// up to 3 elements in up to 5)
#include <vf_idx.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
bool vf::ix_eq(Ix const& a, Ix const& b) { return verif_uf2(a.s == 0 ? "h" : "d", a.i, 0) == verif_uf2(b.s == 0 ? "h" : "d", b.i, 0); }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
static long n, m, K;
struct n_tag : std::random_access_iterator_tag {};
typedef xit_t<n_tag> nit;
struct Fn
{
    int k = 0; bool live = true, any = false; long lo = 0, hi = 0;
    Fn() {}
    Fn(Fn const& o) : k(o.k), live(o.live), any(o.any), lo(o.lo), hi(o.hi) {}
    Fn(Fn&& o) : k(o.k), live(o.live), any(o.any), lo(o.lo), hi(o.hi) { o.live = false; }
    Fn& operator=(Fn const& o) { k = o.k; live = o.live; any = o.any; lo = o.lo; hi = o.hi; return *this; }
    Fn& operator=(Fn&& o) { k = o.k; live = o.live; any = o.any; lo = o.lo; hi = o.hi; if (&o != this) o.live = false; return *this; }
    void operator()(long i)
    {
        verif_assert(live, "post: the given functor is called (not a moved-from one)");
        maybe_throw();
        if (i == K) ++k;
    }
    void cover(long b) { lo = hi = b; any = true; }
    void merge(Fn&& o)
    {
        verif_assert(verif_and(live, o.live), "post: the functors of the parts are merged");
        maybe_throw();
        if (verif_and(any, o.any)) verif_assert(hi < o.lo, "post: the functors of the parts are merged in order");
        k += o.k; if (o.any) hi = o.hi;
    }
};
// contract: the functor is called with every position (relative to the given offset) where the needle
// occurs completely inside [b,e)
namespace boost { namespace asynchronous { namespace detail {
template <> struct kmp_matcher<nit>
{
    bool live = true;
    ssize_t needle_size;
    kmp_matcher(nit b, nit e) : needle_size(e.i - b.i)
    {
        verif_assert(verif_and(b.s == 1, verif_and(b.i == 0, e.i == m)), "post: the given needle is searched");
    }
    kmp_matcher(kmp_matcher const& o) : live(o.live), needle_size(o.needle_size) {}
    kmp_matcher(kmp_matcher&& o) : live(o.live), needle_size(o.needle_size) { o.live = false; }
    template <class It, class Ind> void operator()(It b, It e, Ind off, Fn& f) const
    {
        verif_assert(live, "post: the needle is searched (not a moved-from one)");
        verif_assert(verif_and(b.s == 0, verif_and(0 <= b.i, verif_and(b.i <= e.i, e.i <= n))), "frame: only elements inside the given range are accessed");
        f.cover(b.i);
        if (may_throw) maybe_throw();
        if (verif_and(b.i <= K, K <= e.i - m)) { verif_cover("occurrence"); f(K - b.i + off); }
    }
};
} } }
static void setup()
{
    n = verif_nondet_range("n", 1, 1L << 50); m = verif_nondet_range("m", 1, 1L << 50); verif_assume(m <= n);
    K = verif_nondet_range("K", 0, n); verif_assume(K <= n - m); xs(0, 0, n); xs(1, 0, m);
}
// a needle longer than the haystack, or an empty one
static void setupnone()
{
    n = verif_nondet_range("n", 0, 1L << 50); m = verif_nondet_range("m", 0, 1L << 50); verif_assume(verif_or(m == 0, m > n));
    K = -1; xs(0, 0, n); xs(1, 0, m);
}
struct hrange
{
    typedef xit iterator; typedef xit const_iterator; typedef Ix value_type; typedef long difference_type; typedef unsigned long size_type;
    bool live; hrange() : live(true) {}
    hrange(hrange const& o) : live(o.live) {}
    hrange(hrange&& o) : live(o.live) { o.live = false; }
    hrange& operator=(hrange const& o) { live = o.live; return *this; }
    hrange& operator=(hrange&& o) { live = o.live; if (&o != this) o.live = false; return *this; }
    ~hrange() { live = false; }
    xit begin() const { return xit(0, 0); } xit end() const { return xit(0, live ? n : 0); }
};
struct nrange
{
    typedef nit iterator; typedef nit const_iterator; typedef Ix value_type; typedef long difference_type; typedef unsigned long size_type;
    bool live; nrange() : live(true) {}
    nrange(nrange const& o) : live(o.live) {}
    nrange(nrange&& o) : live(o.live) { o.live = false; }
    nrange& operator=(nrange const& o) { live = o.live; return *this; }
    nrange& operator=(nrange&& o) { live = o.live; if (&o != this) o.live = false; return *this; }
    ~nrange() { live = false; }
    nit begin() const { return nit(1, 0); } nit end() const { return nit(1, live ? m : 0); }
};
static auto once = [](Fn f) { verif_assert(f.live, "post: the functor is returned"); verif_assert(f.k == 1, "post: the functor is called exactly once for every occurrence"); };
static auto none = [](Fn f) { verif_assert(f.live, "post: the functor is returned"); verif_assert(f.k == 0, "post: the functor is not called without an occurrence"); };
static xit h0() { return xit(0, 0); } static xit h1() { return xit(0, n); } static nit n0() { return nit(1, 0); } static nit n1() { return nit(1, m); }
ENTRY(kmp_none) { setupnone(); ok(ba::parallel_kmp(h0(), h1(), n0(), n1(), Fn(), some_cutoff()), none); }
#define H_ITER h0(), h1()
#define H_RNGE static_cast<hrange const&>(hr)
#define H_MOVE hrange()
#define H_CONT source(hrange())
#define N_ITER n0(), n1()
#define N_RNGE static_cast<nrange const&>(nr)
#define N_MOVE nrange()
#define N_CONT source(nrange())
#define ONE(h, x) \
ENTRY(kmp_##h##_##x) { setup(); hrange hr; nrange nr; (void)hr; (void)nr; ok(ba::parallel_kmp(H_##h, N_##x, Fn(), some_cutoff()), once); } \
ENTRY(kmp_##h##_##x##_throw) { setup(); throws(); hrange hr; nrange nr; (void)hr; (void)nr; throwing(ba::parallel_kmp(H_##h, N_##x, Fn(), some_cutoff())); }
#define ALL(h) ONE(h, ITER) ONE(h, RNGE) ONE(h, MOVE) ONE(h, CONT)
ALL(ITER) ALL(RNGE) ALL(MOVE) ALL(CONT)
// the matcher itself: every occurrence of the needle in the range, exactly once (bounded)
struct Cnt { long k = 0; long off = 0; void operator()(long i) { verif_assert(verif_and(i >= off, i <= off + 5), "post: a position in the range is reported"); if (i == K) ++k; } };
ENTRY(kmp_matcher_bounded)
{
    m = 1 + verif_choice(3, "needle"); n = verif_choice(6, "haystack"); xs(0, 0, n); xs(1, 0, m);
    long off = verif_nondet_range("offset", 0, 1L << 50);
    long k = verif_nondet_range("k", 0, 6); K = off + k;
    bool occ = k + m <= n;
    for (long j = 0; j < m; ++j) occ = verif_and(occ, verif_uf2("h", k + j, 0) == verif_uf2("d", j, 0));
    ba::detail::kmp_matcher<xit> mt(xit(1, 0), xit(1, m));
    Cnt c; c.off = off; mt(xit(0, 0), xit(0, n), off, c);
    verif_assert(c.k == (occ ? 1 : 0), "post: the functor is called exactly once for every occurrence");
}

// find_first_of / adjacent_find / search / search_n / find_end / find_all / kmp
// Positions only: "the pattern occurs first (last) at D" for an arbitrary D.  Contracts of the std
// searches, on the iterators used here:
//   search(b,e,pattern): the first occurrence lying completely in [b,e), e if there is none
//   find_end: the last one.   find_first_of / adjacent_find: likewise
#include <vf_idx.hpp>
namespace vf {
static long n, m, D, K;
static bool last;                       // D is the last occurrence (find_end)
static long cnt_;                       // search_n
static bool eqv(long i, long j) { return verif_uf2("eq", i, j) & 1; }
static bool eqat(Ix const& a, Ix const& b)
{
    verif_assert(verif_and(a.s == 0, b.s == 1), "post: an element of the searched range is compared with one of the pattern");
    return eqv(a.i, b.i);
}
struct Pr
{
    bool live = true;
    Pr() {}
    Pr(Pr const& o) : live(o.live) {}
    Pr(Pr&& o) : live(o.live) { o.live = false; }
    Pr& operator=(Pr const& o) { live = o.live; return *this; }
    Pr& operator=(Pr&& o) { live = o.live; o.live = false; return *this; }
    bool operator()(Ix const& a, Ix const& b) const
    {
        verif_assert(live, "post: the given predicate is used (not a moved-from one)");
        return eqat(a, b);
    }
};
struct s_tag : std::random_access_iterator_tag {};
typedef xit_t<s_tag> sit;
inline void whole_in(sit b, sit e) { verif_assert(verif_and(b.i <= e.i, verif_and(xlo[b.s] <= b.i, e.i <= xhi[b.s])), "frame: only elements inside the given range are accessed"); verif_assert(verif_and(b.s == 0, e.s == 0), "post: the given range is searched"); }
template <class F> void use(F& f)
{
    long i = verif_nondet_range("any i", 0, 1L << 50), j = verif_nondet_range("any j", 0, 1L << 50);
    bool r = f(Ix(0, i), Ix(1, j));
    verif_assert(r == eqv(i, j), "post: the given predicate is used");
    maybe_throw();
}
// the first (last) occurrence of a pattern of length len in [b,e)
inline sit occ(sit b, sit e, long len)
{
    whole_in(b, e);
    if (len <= 0) return last ? e : b;
    if (e.i - b.i < len) { verif_cover("shorter than the pattern"); return e; }
    bool in = verif_and(b.i <= D, D <= e.i - len);
    if (in) { verif_cover("found"); return sit(0, D); }
    bool other = last ? b.i <= D && D < n : D < b.i;      // there may be occurrences which do not matter
    if (other && verif_choice(2, "other occurrence")) return sit(0, verif_nondet_range("occurrence", b.i, e.i - len + 1));
    return e;
}
inline void pattern(sit b2, sit e2) { verif_assert(verif_and(b2.s == 1, e2.s == 1), "post: the given pattern is searched"); verif_assert(verif_and(b2.i == 0, e2.i == m), "post: the whole pattern is searched"); }
}
namespace std {
template <class F> vf::sit search(vf::sit b, vf::sit e, vf::sit b2, vf::sit e2, F f) { vf::pattern(b2, e2); vf::use(f); return vf::occ(b, e, vf::m); }
template <class F> vf::sit find_end(vf::sit b, vf::sit e, vf::sit b2, vf::sit e2, F f) { vf::pattern(b2, e2); vf::use(f); return vf::occ(b, e, vf::m); }
template <class F> vf::sit find_first_of(vf::sit b, vf::sit e, vf::sit b2, vf::sit e2, F f) { vf::pattern(b2, e2); vf::use(f); return vf::occ(b, e, 1); }
template <class N, class F> vf::sit search_n(vf::sit b, vf::sit e, N c, vf::Ix const& v, F f)
{
    verif_assert(c == vf::cnt_, "post: the given number of elements is searched");
    verif_assert(verif_and(v.s == 1, v.i == 0), "post: the given value is searched");
    vf::use(f); return vf::occ(b, e, vf::cnt_);
}
// boost range algorithms on the result of find_all
}
// an ordered selection of source elements: which range it covers, and how often it has element K
namespace vf {
struct sel
{
    typedef Ix value_type;
    typedef Ix& reference; typedef Ix const& const_reference;
    long lo = 0, hi = 0; int k = 0; bool live = true, any = false, filtered = true;
    typedef xit iterator; typedef xit const_iterator; typedef long difference_type; typedef unsigned long size_type;
    sel() {}
    template <class C> sel(xit_t<C> b, xit_t<C> e) : lo(b.i), hi(e.i), k(verif_and(b.i <= K, K < e.i) ? 1 : 0), any(b.i < e.i), filtered(false)
    { verif_assert(verif_and(b.s == 0, verif_and(xlo[0] <= b.i, verif_and(b.i <= e.i, e.i <= xhi[0]))), "frame: only elements inside the given range are accessed"); if (Elem::copy_throws) maybe_throw(); }
    sel(sel const& o) : lo(o.lo), hi(o.hi), k(o.k), live(o.live), any(o.any), filtered(o.filtered) {}
    sel(sel&& o) : lo(o.lo), hi(o.hi), k(o.k), live(o.live), any(o.any), filtered(o.filtered) { o.gone(); }
    sel& operator=(sel const& o) { lo = o.lo; hi = o.hi; k = o.k; live = o.live; any = o.any; filtered = o.filtered; return *this; }
    sel& operator=(sel&& o) { lo = o.lo; hi = o.hi; k = o.k; live = o.live; any = o.any; filtered = o.filtered; if (&o != this) o.gone(); return *this; }
    void gone() { live = false; lo = hi = 0; k = 0; any = false; }
    // view semantics: usable as a source range, too
    iterator begin() const { return iterator(0, lo); }
    iterator end() const { return iterator(0, hi); }
    iterator begin() { return iterator(0, lo); }
    iterator end() { return iterator(0, hi); }
    void push_back(Ix const& v)
    {
        verif_assert(v.s == 0, "post: the elements of the range are collected");
        if (any) verif_assert(hi <= v.i, "post: the elements are collected in their order");
        if (!any) lo = v.i;
        hi = v.i + 1; any = true;
        if (v.i == K) k = k + 1;
    }
};
static bool pk;
struct Pall
{
    bool live = true;
    Pall() {}
    Pall(Pall const& o) : live(o.live) {}
    Pall(Pall&& o) : live(o.live) { o.live = false; }
    bool operator()(Ix const& a) const
    {
        verif_assert(live, "post: the given predicate is used (not a moved-from one)");
        maybe_throw(); return verif_up1("p", a.i);
    }
};
}
namespace boost {
// the elements satisfying pred are removed, the others keep their order
template <class P> vf::sel& remove_erase_if(vf::sel& r, P pred)
{
    if (pred(vf::Ix(0, vf::K))) r.k = 0;
    r.filtered = true; return r;
}
namespace range { template <class S> vf::sel& push_back(vf::sel& r, S&& o)
{
    verif_assert(verif_and(r.live, o.live), "post: results of the subtasks are used");
    if (verif_and(r.any, o.any)) verif_assert(r.hi <= o.lo, "post: the elements are collected in their order");
    if (!r.any) { r.lo = o.lo; r.any = o.any; }
    if (o.any) r.hi = o.hi;
    r.k = r.k + o.k; r.filtered = verif_and(r.filtered, o.filtered);
    return r;
} }
}
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
bool vf::ix_eq(Ix const& a, Ix const& b) { return eqat(a, b); }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
static sit A(long i) { return sit(0, i); }
static sit B(long i) { return sit(1, i); }
// the pattern occurs at D (D == n: nowhere)
static void setup(long len_min)
{
    n = verif_nondet_range("n", 0, 1L << 50); m = verif_nondet_range("m", len_min, 1L << 50);
    xs(0, 0, n); xs(1, 0, m); last = false;
    D = verif_nondet_range("D", 0, n + 1);
    verif_assume(verif_or(D == n, D + m <= n));
}
// an empty pattern occurs everywhere
static long want(long len) { return len <= 0 ? (last ? n : 0) : D; }
static auto first_ = [](sit r) { verif_assert(r.s == 0, "post: an iterator into the searched range is returned"); verif_assert(r.i == want(m), "post: the first occurrence is returned, the end if there is none"); };
static auto last_ = [](sit r) { verif_assert(r.s == 0, "post: an iterator into the searched range is returned"); verif_assert(r.i == want(m), "post: the last occurrence is returned, the end if there is none"); };
ENTRY(search_pred) { setup(0); ok(ba::parallel_search(A(0), A(n), B(0), B(m), Pr(), some_cutoff()), first_); }
ENTRY(search) { setup(0); ok(ba::parallel_search(A(0), A(n), B(0), B(m), some_cutoff()), first_); }
ENTRY(search_throw) { setup(1); throws(); throwing(ba::parallel_search(A(0), A(n), B(0), B(m), Pr(), some_cutoff())); }
static void setupl(long len_min) { setup(len_min); last = true; }
ENTRY(find_end_pred) { setupl(0); ok(ba::parallel_find_end(A(0), A(n), B(0), B(m), Pr(), some_cutoff()), last_); }
ENTRY(find_end) { setupl(0); ok(ba::parallel_find_end(A(0), A(n), B(0), B(m), some_cutoff()), last_); }
ENTRY(find_end_throw) { setupl(1); throws(); throwing(ba::parallel_find_end(A(0), A(n), B(0), B(m), Pr(), some_cutoff())); }
typedef xrange_t<Ix> rg;
struct prange                      // a pattern as a range (result of a continuation)
{
    typedef sit iterator; typedef sit const_iterator; typedef Ix value_type; typedef long difference_type; typedef unsigned long size_type;
    typedef Ix& reference; typedef Ix const& const_reference;
    bool live; prange() : live(true) {}
    prange(prange const& o) : live(o.live) {}
    prange(prange&& o) : live(o.live) { o.live = false; }
    prange& operator=(prange const& o) { live = o.live; return *this; }
    prange& operator=(prange&& o) { live = o.live; if (&o != this) o.live = false; return *this; }
    ~prange() { live = false; }
    sit begin() const { return sit(1, 0); } sit end() const { return sit(1, live ? m : 0); }
    sit begin() { return sit(1, 0); } sit end() { return sit(1, live ? m : 0); }
};
ENTRY(search_cont) { setup(0); ok(ba::parallel_search(A(0), A(n), source(prange()), Pr(), some_cutoff()), first_); }
ENTRY(find_end_cont) { setupl(0); ok(ba::parallel_find_end(A(0), A(n), source(prange()), Pr(), some_cutoff()), last_); }
ENTRY(search_cont_throw) { setup(1); throws(); throwing(ba::parallel_search(A(0), A(n), source(prange()), Pr(), some_cutoff())); }
ENTRY(find_end_cont_throw) { setupl(1); throws(); throwing(ba::parallel_find_end(A(0), A(n), source(prange()), Pr(), some_cutoff())); }
static void setupn() { setup(0); cnt_ = verif_nondet_range("count", -5, 1L << 50); verif_assume(verif_or(D == n, D + cnt_ <= n)); m = cnt_; }
ENTRY(search_n_pred) { setupn(); ok(ba::parallel_search_n(A(0), A(n), cnt_, Ix(1, 0), Pr(), some_cutoff()), first_); }
ENTRY(search_n) { setupn(); ok(ba::parallel_search_n(A(0), A(n), cnt_, Ix(1, 0), some_cutoff()), first_); }
ENTRY(search_n_throw) { setupn(); throws(); throwing(ba::parallel_search_n(A(0), A(n), cnt_, Ix(1, 0), Pr(), some_cutoff())); }
// find_first_of: D is the first element equal to one of the second range
static void setupf() { setup(0); verif_assume(D <= n); }
static auto ffirst = [](sit r) { verif_assert(r.s == 0, "post: an iterator into the searched range is returned"); verif_assert(r.i == D, "post: the first element which is in the second range is returned"); };
ENTRY(find_first_of_pred) { setupf(); ok(ba::parallel_find_first_of(A(0), A(n), B(0), B(m), Pr(), some_cutoff()), ffirst); }
ENTRY(find_first_of) { setupf(); ok(ba::parallel_find_first_of(A(0), A(n), B(0), B(m), some_cutoff()), ffirst); }
ENTRY(find_first_of_cont) { setupf(); ok(ba::parallel_find_first_of(A(0), A(n), source(prange()), Pr(), some_cutoff()), ffirst); }
ENTRY(find_first_of_throw) { setupf(); throws(); throwing(ba::parallel_find_first_of(A(0), A(n), B(0), B(m), Pr(), some_cutoff())); }
// adjacent_find, with the real std::adjacent_find: (D, D+1) is the first pair
struct Adj { bool operator()(Ix const& a, Ix const& b) const
{
    maybe_throw();
    verif_assert(verif_and(a.s == 0, verif_and(b.s == 0, b.i == a.i + 1)), "post: an element is compared with its successor");
    if (a.i < D) return false; if (a.i == D) { verif_touch(); return true; } return verif_up1("adj", a.i);
} };
static void setupa() { n = verif_nondet_range("n", 0, 1L << 50); xs(0, 0, n); D = verif_nondet_range("D", 0, n + 1); verif_assume(verif_or(D == n, D + 1 < n)); }
static auto afirst = [](xit r) { verif_assert(verif_and(r.s == 0, r.i == D), "post: the first pair of neighbours is returned, the end if there is none"); };
ENTRY(adjacent_find_pred) { setupa(); ok(ba::parallel_adjacent_find(xit(0, 0), xit(0, n), Adj(), some_cutoff()), afirst); }
ENTRY(adjacent_find_throw)
{
    setupa(); throws(); auto c = ba::parallel_adjacent_find(xit(0, 0), xit(0, n), Adj(), some_cutoff());
    outcome o; finish(c, o, afirst);
    if (o.exc) verif_cover("throw"); else verif_cover("nothrow");
    if (o.exc) verif_assert(verif_and(o.user, thrown > 0), "exception: the one thrown by the callback");
}
// find_all
static void setupall() { n = verif_nondet_range("n", 0, 1L << 50); xs(0, 0, n); K = inside("K", 0, n); pk = verif_up1("p", K); }
static void setupallt() { n = verif_nondet_range("n", 0, 1L << 50); xs(0, 0, n); K = 0; pk = verif_up1("p", K); throws(); }
static auto all_ = [](sel r) {
    verif_assert(verif_and(r.live, r.filtered), "post: the selected elements are returned");
    verif_assert(r.k == (pk ? 1 : 0), "post: element k is returned once iff it satisfies the predicate");
};
static sel srcr() { sel s; s.lo = 0; s.hi = n; s.any = true; s.filtered = false; return s; }
ENTRY(find_all_iterators) { setupall(); ok(ba::parallel_find_all<sit, Pall, sel>(A(0), A(n), Pall(), some_cutoff()), all_); }
ENTRY(find_all_range) { setupall(); sel r = srcr(); ok(ba::parallel_find_all<sel, Pall, sel>(static_cast<sel const&>(r), Pall(), some_cutoff()), all_); }
ENTRY(find_all_moved) { setupall(); ok(ba::parallel_find_all(srcr(), Pall(), some_cutoff()), all_); }
ENTRY(find_all_cont) { setupall(); ok(ba::parallel_find_all(source(srcr()), Pall(), some_cutoff()), all_); }
ENTRY(find_all_throw_iterators) { setupallt(); throwing(ba::parallel_find_all<sit, Pall, sel>(A(0), A(n), Pall(), some_cutoff())); }
ENTRY(find_all_throw_range) { setupallt(); sel r = srcr(); throwing(ba::parallel_find_all<sel, Pall, sel>(static_cast<sel const&>(r), Pall(), some_cutoff())); }
ENTRY(find_all_throw_moved) { setupallt(); throwing(ba::parallel_find_all(srcr(), Pall(), some_cutoff())); }
ENTRY(find_all_throw_cont) { setupallt(); throwing(ba::parallel_find_all(source(srcr()), Pall(), some_cutoff())); }

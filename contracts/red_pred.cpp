// all_of / any_of / none_of / equal / mismatch / lexicographical_compare / is_sorted / is_partitioned
#include <vf_idx.hpp>
// contract of std::all_of/any_of/none_of, used for the entries with large cutoffs (100 blocks per leaf)
namespace vf {
struct big_tag : std::random_access_iterator_tag {};
typedef xit_t<big_tag> bit;
static long n, m, D, E;
inline bool all_before(bit b, bit e)
{
    verif_assert(verif_and(b.i <= e.i, verif_and(xlo[b.s] <= b.i, e.i <= xhi[b.s])), "frame: only elements inside the given range are accessed");
    bool none = verif_or(e.i <= D, b.i == e.i);
    if (verif_or(none, verif_and(b.i > D, verif_nondet_bool("block after the first failing element")))) { verif_cover("good block"); return true; }
    verif_cover("bad block"); return false;
}
}
namespace std {
template <class P> bool all_of(vf::bit b, vf::bit e, P) { return vf::all_before(b, e); }
template <class P> bool any_of(vf::bit b, vf::bit e, P) { return !vf::all_before(b, e); }
template <class P> bool none_of(vf::bit b, vf::bit e, P) { return vf::all_before(b, e); }
}
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
static xit A(long i) { return xit(0, i); }
static xit B(long i) { return xit(1, i); }
// first position where the property fails is D (D == n: nowhere)
static bool firstfail(long i) { if (i < D) return true; if (i == D) return false; return verif_up1("p", i); }
struct P { bool operator()(Ix const& a) const { maybe_throw(); return firstfail(a.i); } };
struct NP { bool operator()(Ix const& a) const { maybe_throw(); return !firstfail(a.i); } };
static bool same_pos(Ix const& a, Ix const& b)
{
    verif_assert(verif_and(a.s == 0, b.s == 1), "post: the first argument comes from the first range, the second from the second");
    verif_assert(a.i == b.i, "post: only elements at the same position are compared");
    return firstfail(a.i);
}
bool vf::ix_eq(Ix const& a, Ix const& b) { return same_pos(a, b); }
// strict order between the two sequences: equal before D, different at D
static bool less_(Ix const& a, Ix const& b)
{
    verif_assert(a.i == b.i, "post: only elements at the same position are compared");
    verif_assert(a.s != b.s, "post: elements of different ranges are compared");
    if (a.i < D) return false;
    bool ab = verif_up1("less", a.i);
    if (a.i == D) return (a.s == 0) == ab;
    if (verif_up1("eq", a.i)) return false;
    return (a.s == 0) == ab;
}
bool vf::ix_lt(Ix const& a, Ix const& b) { return less_(a, b); }
struct Eq { bool operator()(Ix const& a, Ix const& b) const { maybe_throw(); return same_pos(a, b); } };
struct Lt { bool operator()(Ix const& a, Ix const& b) const { maybe_throw(); return less_(a, b); } };
static void setup()
{
    shallow = 1;
    n = verif_nondet_range("n", 0, 1L << 50); xs(0, 0, n); xs(1, 0, n); xs(2, 0, n); xs(3, 0, n);
    D = verif_nondet_range("D", 0, n + 1);
}
static void setupt() { setup(); throws(); }
static auto isall = [](bool r) { verif_assert(r == (D == n), "post: the result is true iff every element satisfies the predicate"); };
static auto isnotall = [](bool r) { verif_assert(r == (D != n), "post: the result is true iff one element satisfies the predicate"); };
ENTRY(all_of) { setup(); ok(ba::parallel_all_of(A(0), A(n), P(), some_cutoff2()), isall); }
ENTRY(all_of_large) { setup(); ok(ba::parallel_all_of(bit(0, 0), bit(0, n), P(), large_cutoff()), isall); }
ENTRY(any_of) { setup(); ok(ba::parallel_any_of(A(0), A(n), NP(), some_cutoff2()), isnotall); }
ENTRY(any_of_large) { setup(); ok(ba::parallel_any_of(bit(0, 0), bit(0, n), NP(), large_cutoff()), isnotall); }
ENTRY(none_of) { setup(); ok(ba::parallel_none_of(A(0), A(n), NP(), some_cutoff2()), isall); }
ENTRY(none_of_large) { setup(); ok(ba::parallel_none_of(bit(0, 0), bit(0, n), NP(), large_cutoff()), isall); }
ENTRY(all_of_cont) { setup(); ok(ba::parallel_all_of(source(xrange(0, 0, n)), P(), some_cutoff2()), isall); }
ENTRY(any_of_cont) { setup(); ok(ba::parallel_any_of(source(xrange(0, 0, n)), NP(), some_cutoff2()), isnotall); }
ENTRY(none_of_cont) { setup(); ok(ba::parallel_none_of(source(xrange(0, 0, n)), NP(), some_cutoff2()), isall); }
ENTRY(all_of_throw) { setupt(); throwing(ba::parallel_all_of(A(0), A(n), P(), some_cutoff2())); }
ENTRY(any_of_throw) { setupt(); throwing(ba::parallel_any_of(A(0), A(n), NP(), some_cutoff2())); }
ENTRY(none_of_throw) { setupt(); throwing(ba::parallel_none_of(A(0), A(n), NP(), some_cutoff2())); }
ENTRY(all_of_cont_throw) { setupt(); throwing(ba::parallel_all_of(source(xrange(0, 0, n)), P(), some_cutoff2())); }
ENTRY(any_of_cont_throw) { setupt(); throwing(ba::parallel_any_of(source(xrange(0, 0, n)), NP(), some_cutoff2())); }
ENTRY(none_of_cont_throw) { setupt(); throwing(ba::parallel_none_of(source(xrange(0, 0, n)), NP(), some_cutoff2())); }
ENTRY(equal_pred) { setup(); ok(ba::parallel_equal(A(0), A(n), B(0), Eq(), some_cutoff()), isall); }
ENTRY(equal) { setup(); ok(ba::parallel_equal(A(0), A(n), B(0), some_cutoff()), isall); }
ENTRY(equal_throw) { setupt(); throwing(ba::parallel_equal(A(0), A(n), B(0), Eq(), some_cutoff())); }
static auto mism = [](std::pair<xit,xit> r) {
    verif_assert(verif_and(r.first.s == 0, r.second.s == 1), "post: iterators into the first and the second range are returned");
    verif_assert(verif_and(r.first.i == D, r.second.i == D), "post: the first position where the ranges differ is returned");
};
ENTRY(mismatch_pred) { setup(); ok(ba::parallel_mismatch(A(0), A(n), B(0), Eq(), some_cutoff()), mism); }
ENTRY(mismatch) { setup(); ok(ba::parallel_mismatch(A(0), A(n), B(0), some_cutoff()), mism); }
ENTRY(mismatch_throw) { setupt(); throwing_weak(ba::parallel_mismatch(A(0), A(n), B(0), Eq(), some_cutoff())); }
static void setupl()
{
    n = verif_nondet_range("n", 0, 1L << 50); m = verif_nondet_range("m", 0, 1L << 50); xs(0, 0, n); xs(1, 0, m);
    D = verif_nondet_range("D", 0, 1L << 50); verif_assume(verif_and(D <= n, D <= m));
}
static auto lex = [](bool r) {
    bool want = verif_and(D < n, D < m) ? verif_up1("less", D) : n < m;
    verif_assert(r == want, "post: decided by the first different position, or by the lengths");
};
ENTRY(lexicographical_compare_pred) { setupl(); ok(ba::parallel_lexicographical_compare(A(0), A(n), B(0), B(m), Lt(), some_cutoff()), lex); }
ENTRY(lexicographical_compare) { setupl(); ok(ba::parallel_lexicographical_compare(A(0), A(n), B(0), B(m), some_cutoff()), lex); }
ENTRY(lexicographical_compare_throw) { setupl(); throws(); shallow = 0; throwing(ba::parallel_lexicographical_compare(A(0), A(n), B(0), B(m), Lt(), some_cutoff())); }
// the first position D >= 1 such that element D precedes element D-1
struct Ord { bool operator()(Ix const& a, Ix const& b) const
{
    maybe_throw();
    verif_assert(a.i == b.i + 1, "post: an element is compared with its predecessor");
    return !firstfail(a.i);
} };
struct ROrd { bool operator()(Ix const& a, Ix const& b) const
{
    maybe_throw();
    verif_assert(b.i == a.i + 1, "post: an element is compared with its predecessor");
    return !firstfail(b.i);
} };
static void setups() { setup(); verif_assume(verif_or(D >= 1, n == 0)); }
ENTRY(is_sorted) { setups(); ok(ba::parallel_is_sorted(A(0), A(n), Ord(), some_cutoff()), isall); }
ENTRY(is_reverse_sorted) { setups(); ok(ba::parallel_is_reverse_sorted(A(0), A(n), ROrd(), some_cutoff()), isall); }
ENTRY(is_sorted_throw) { setups(); throws(); throwing(ba::parallel_is_sorted(A(0), A(n), Ord(), some_cutoff())); }
// D: first false, E: first true after it
struct Part { bool operator()(Ix const& a) const
{
    maybe_throw();
    if (a.i < D) return true;
    if (a.i == D) verif_touch();
    if (a.i < E) return false;
    if (a.i == E) { verif_touch(); return true; }
    return verif_up1("p", a.i);
} };
static void setupp() { setup(); shallow = 0; E = verif_nondet_range("E", 0, 1L << 50); verif_assume(verif_and(E <= n, verif_or(E > D, verif_and(E == D, D == n)))); }
ENTRY(is_partitioned)
{
    setupp(); ok(ba::parallel_is_partitioned(A(0), A(n), Part(), some_cutoff()), [](bool r) {
        verif_assert(r == (E == n), "post: true iff no element satisfying the predicate follows one which does not"); });
}
ENTRY(is_partitioned_throw) { setupp(); throws(); shallow = 0; throwing(ba::parallel_is_partitioned(A(0), A(n), Part(), some_cutoff())); }

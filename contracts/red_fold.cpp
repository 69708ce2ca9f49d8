// parallel_reduce / parallel_extremum / parallel_count / parallel_inner_product
#include <vf_idx.hpp>
namespace vf {
// an element of the free monoid: the segment [b,e) of sequence s
struct Iv { int s; long b, e; Iv() : s(9), b(0), e(0) {} Iv(int q, long i) : s(q), b(i), e(i + 1) {} };
typedef xit_t<std::random_access_iterator_tag, Iv> vit;
typedef xrange_t<Iv> vrange;
}
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
static long n, D;
static void setup() { shallow = 1; n = verif_nondet_range("n", 0, 1L << 50); xs(0, 0, n); xs(1, 0, n); }
static void setupt() { setup(); throws(); }
// non-commutative, associative: concatenation of adjacent segments
struct Cat { Iv operator()(Iv const& a, Iv const& b) const
{
    maybe_throw();
    verif_assert(verif_and(a.s == b.s, a.e == b.b), "post: values are combined in the order of the sequence");
    Iv r; r.s = a.s; r.b = a.b; r.e = b.e; return r;
} };
static auto whole = [](Iv r) {
    verif_assert(verif_or(verif_and(n == 0, r.s == 9), verif_and(r.s == 0, verif_and(r.b == 0, r.e == n))), "post: every element contributes exactly once, in order");
};
static vit V(long i) { return vit(0, i); }
static vrange const& cr() { return *new vrange(0, 0, n); }
ENTRY(reduce) { setup(); ok(ba::parallel_reduce(V(0), V(n), Cat(), some_cutoff()), whole); }
ENTRY(reduce_range) { setup(); ok(ba::parallel_reduce(cr(), Cat(), some_cutoff()), whole); }
ENTRY(reduce_moved) { setup(); ok(ba::parallel_reduce(vrange(0, 0, n), Cat(), some_cutoff()), whole); }
ENTRY(reduce_cont) { setup(); ok(ba::parallel_reduce(source(vrange(0, 0, n)), Cat(), some_cutoff()), whole); }
// two functors: the first one folds elements into an accumulator of another type is not offered; same type
struct Fold { Iv operator()(vit a, vit b) const
{
    maybe_throw();
    verif_assert(a.i <= b.i, "frame: only elements inside the given range are accessed");
    Iv r; r.s = a.i == b.i ? 9 : 0; r.b = a.i; r.e = b.i; return r;
} };
ENTRY(reduce_2) { setup(); ok(ba::parallel_reduce(V(0), V(n), Cat(), Cat(), some_cutoff()), whole); }
ENTRY(reduce_range_2) { setup(); ok(ba::parallel_reduce(cr(), Cat(), Cat(), some_cutoff()), whole); }
ENTRY(reduce_moved_2) { setup(); ok(ba::parallel_reduce(vrange(0, 0, n), Cat(), Cat(), some_cutoff()), whole); }
ENTRY(reduce_throw) { setupt(); throwing(ba::parallel_reduce(V(0), V(n), Cat(), some_cutoff())); }
ENTRY(reduce_range_throw) { setupt(); throwing(ba::parallel_reduce(cr(), Cat(), some_cutoff())); }
ENTRY(reduce_moved_throw) { setupt(); throwing(ba::parallel_reduce(vrange(0, 0, n), Cat(), some_cutoff())); }
ENTRY(reduce_cont_throw) { setupt(); throwing(ba::parallel_reduce(source(vrange(0, 0, n)), Cat(), some_cutoff())); }
// extremum: element D precedes all others; the order of the others is arbitrary
struct Less { bool operator()(Ix const& a, Ix const& b) const
{
    maybe_throw();
    if (a.i == D) return b.i != D;
    if (b.i == D) { verif_touch(); return false; }
    return verif_up2("lt", a.i, b.i);
} };
static void setupe() { setup(); verif_assume(n >= 1); D = verif_nondet_range("D", 0, 1L << 50); verif_assume(D < n); }
static auto isD = [](Ix r) { verif_assert(r.i == D, "post: the result is the extremal element"); };
static xrange const& xr() { return *new xrange(0, 0, n); }
ENTRY(extremum) { setupe(); ok(ba::parallel_extremum(xit(0, 0), xit(0, n), Less(), some_cutoff()), isD); }
ENTRY(extremum_range) { setupe(); ok(ba::parallel_extremum(xr(), Less(), some_cutoff()), isD); }
ENTRY(extremum_moved) { setupe(); ok(ba::parallel_extremum(xrange(0, 0, n), Less(), some_cutoff()), isD); }
ENTRY(extremum_cont) { setupe(); ok(ba::parallel_extremum(source(xrange(0, 0, n)), Less(), some_cutoff()), isD); }
// count: cnt is the number of elements satisfying the predicate among those examined; element D is examined once
static long cnt, seenD, exam;
static bool countp(Ix const& a)
{
    ++exam;
    if (a.i == D) { verif_touch(); ++seenD; }
    if (verif_up1("p", a.i)) { ++cnt; return true; }
    return false;
}
struct Cp { bool operator()(Ix const& a) const { maybe_throw(); return countp(a); } };
bool vf::ix_eq(Ix const& a, Ix const& b) { maybe_throw(); return countp(a.s == 0 ? a : b); }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
static void setupc() { setup(); D = verif_nondet_range("D", 0, 1L << 50); verif_assume(verif_or(n == 0, D < n)); }
static auto counted = [](long r) {
    verif_assert(r == cnt, "post: the number of elements satisfying the predicate");
    verif_assert(exam == n, "post: as many elements are examined as there are");
    verif_assert(verif_or(n == 0, seenD == 1), "post: every element is examined exactly once");
};
ENTRY(count_if) { setupc(); ok(ba::parallel_count_if(xit(0, 0), xit(0, n), Cp(), some_cutoff()), counted); }
ENTRY(count_if_range) { setupc(); ok(ba::parallel_count_if(xr(), Cp(), some_cutoff()), counted); }
ENTRY(count_if_moved) { setupc(); ok(ba::parallel_count_if(xrange(0, 0, n), Cp(), some_cutoff()), counted); }
ENTRY(count_if_cont) { setupc(); ok(ba::parallel_count_if(source(xrange(0, 0, n)), Cp(), some_cutoff()), counted); }
ENTRY(count) { setupc(); ok(ba::parallel_count(xit(0, 0), xit(0, n), Ix(3, 0), some_cutoff()), counted); }
ENTRY(count_moved) { setupc(); ok(ba::parallel_count(xrange(0, 0, n), Ix(3, 0), some_cutoff()), counted); }
ENTRY(count_cont) { setupc(); ok(ba::parallel_count(source(xrange(0, 0, n)), Ix(3, 0), some_cutoff()), counted); }
ENTRY(count_if_throw) { setupt(); throwing(ba::parallel_count_if(xit(0, 0), xit(0, n), Cp(), some_cutoff())); }
ENTRY(count_if_range_throw) { setupt(); throwing(ba::parallel_count_if(xr(), Cp(), some_cutoff())); }
ENTRY(count_if_moved_throw) { setupt(); throwing(ba::parallel_count_if(xrange(0, 0, n), Cp(), some_cutoff())); }
ENTRY(count_if_cont_throw) { setupt(); throwing(ba::parallel_count_if(source(xrange(0, 0, n)), Cp(), some_cutoff())); }
// inner product
struct Mul { Iv operator()(Ix const& a, Ix const& b) const
{
    maybe_throw();
    verif_assert(verif_and(verif_and(a.s == 0, b.s == 1), a.i == b.i), "post: elements at the same position are multiplied");
    return Iv(0, a.i);
} };
static Iv init() { Iv r(0, -1); return r; }
static auto prod = [](Iv r) {
    verif_assert(verif_and(r.s == 0, verif_and(r.b == -1, r.e == n)), "post: the initial value and every product contribute exactly once, in order");
};
static auto prod0 = [](Iv r) {
    verif_assert(verif_or(verif_and(n == 0, r.s == 9), verif_and(r.s == 0, verif_and(r.b == 0, r.e == n))), "post: every product contributes exactly once, in order");
};
ENTRY(inner_product) { setup(); ok(ba::parallel_inner_product(xit(0, 0), xit(0, n), xit(1, 0), Mul(), Cat(), init(), some_cutoff()), prod); }
ENTRY(inner_product_noinit) { setup(); ok(ba::parallel_inner_product(xit(0, 0), xit(0, n), xit(1, 0), Mul(), Cat(), some_cutoff()), prod0); }
ENTRY(inner_product_moved) { setup(); ok(ba::parallel_inner_product(xrange(0, 0, n), xrange(1, 0, n), Mul(), Cat(), init(), some_cutoff()), prod); }
ENTRY(inner_product_moved_noinit) { setup(); ok(ba::parallel_inner_product(xrange(0, 0, n), xrange(1, 0, n), Mul(), Cat(), some_cutoff()), prod0); }
ENTRY(inner_product_throw) { setupt(); throwing(ba::parallel_inner_product(xit(0, 0), xit(0, n), xit(1, 0), Mul(), Cat(), init(), some_cutoff())); }
ENTRY(inner_product_moved_throw) { setupt(); throwing(ba::parallel_inner_product(xrange(0, 0, n), xrange(1, 0, n), Mul(), Cat(), init(), some_cutoff())); }

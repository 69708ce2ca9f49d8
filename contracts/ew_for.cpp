#include <vf_seq.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
typedef iter<0> It; typedef range<0> Rg;
struct F { void operator()(Elem& e) const { maybe_throw(); e.v = verif_uf1("f", e.v); } };
struct F2 { void operator()(It b, It e) const { maybe_throw(); for (; b != e; ++b) b->v = verif_uf1("f", b->v); } };
struct Fi { void operator()(long i) const { maybe_throw(); Elem& e = seq<0>::at(i); e.v = verif_uf1("f", e.v); } };
static long k, n;
static void setup() { n = some_size("n"); seq<0>::setup(0, n); k = inside("K", 0, n); seq<0>::add(k); }
static void setupt() { n = some_size("n"); seq<0>::setup(0, n); throws(); }
static void post() { verif_assert(seq<0>::val(0) == verif_uf1("f", seq<0>::init(k)), "post: functor applied exactly once to every element"); }
static auto whole = [](Rg r) { verif_assert(verif_and(r.live, verif_and(r.b == 0, r.e == n)), "post: the given range is returned"); };
ENTRY(for_iterators) { setup(); ok(ba::parallel_for(It(0), It(n), F(), some_cutoff())); post(); }
ENTRY(for_iterators_sub) // part of a bigger sequence: the rest is untouched
{
    long m = some_size("m"); seq<0>::setup(0, m); k = inside("K", 0, m); seq<0>::add(k);
    long b = verif_nondet_range("b", 0, m), e = verif_nondet_range("e", b, m);
    seq<0>::lo = b; seq<0>::hi = e;
    ok(ba::parallel_for(It(b), It(e), F(), some_cutoff()));
    verif_assert(seq<0>::val(0) == verif_ite(verif_and(b <= k, k < e), verif_uf1("f", seq<0>::init(k)), seq<0>::init(k)), "post: exactly the given elements are changed");
}
ENTRY(for_iterators2) { setup(); ok(ba::parallel_for(It(0), It(n), F2(), some_cutoff())); post(); }
ENTRY(for_integral) { setup(); ok(ba::parallel_for(0L, n, Fi(), some_cutoff())); post(); }
ENTRY(for_range_moved) { setup(); ok(ba::parallel_for(Rg(0, n), F(), some_cutoff()), whole); post(); }
ENTRY(for_range_ref) { setup(); const Rg r(0, n); ok(ba::parallel_for(r, F(), some_cutoff())); post(); }
ENTRY(for_range_cont) { setup(); ok(ba::parallel_for(source(Rg(0, n)), F(), some_cutoff()), whole); post(); }
ENTRY(for_throw_iterators) { setupt(); throwing(ba::parallel_for(It(0), It(n), F(), some_cutoff())); }
ENTRY(for_throw_iterators2) { setupt(); throwing(ba::parallel_for(It(0), It(n), F2(), some_cutoff())); }
ENTRY(for_throw_integral) { setupt(); throwing(ba::parallel_for(0L, n, Fi(), some_cutoff())); }
ENTRY(for_throw_range_moved) { setupt(); throwing(ba::parallel_for(Rg(0, n), F(), some_cutoff())); }
ENTRY(for_throw_range_ref) { setupt(); const Rg r(0, n); throwing(ba::parallel_for(r, F(), some_cutoff())); }
ENTRY(for_throw_range_cont) { setupt(); throwing(ba::parallel_for(source(Rg(0, n)), F(), some_cutoff())); }

// for_each: the functor object carries an accumulated interval [b,e) of the elements it saw, merge joins
// adjacent intervals in order
struct Acc
{
    long b = -1, e = -1; bool bad = false;
    void operator()(Elem& x)
    {
        maybe_throw();
        x.v = verif_uf1("f", x.v);
    }
    void merge(Acc o) { ++merges; }
    static inline int merges = 0;
};
ENTRY(for_each_iterators) { setup(); ok(ba::parallel_for_each(It(0), It(n), Acc(), some_cutoff())); post(); }
ENTRY(for_each_throw) { setupt(); throwing(ba::parallel_for_each(It(0), It(n), Acc(), some_cutoff())); }

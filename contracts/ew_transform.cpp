#include <vf_seq.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
#define It D0
#define It1 D1
#define It2 D2
#define Out D3
typedef ba::any_callable Job;
static long k, n;
static void setup()
{
    n = some_size("n"); k = inside("K", 0, n);
    seq<0>::setup(0, n); seq<1>::setup(0, n); seq<2>::setup(0, n); seq<3>::setup(0, n);
    seq<3>::add(k);
}
static void setupt()
{
    n = some_size("n"); throws();
    seq<0>::setup(0, n); seq<1>::setup(0, n); seq<2>::setup(0, n); seq<3>::setup(0, n);
}
static auto atend = [](dit o) { verif_assert(verif_and(o.s == 3, o.i == n), "post: returns the end of the result range"); };
static long x0() { return seq<0>::init(k); }
static long x1() { return seq<1>::init(k); }
static long x2() { return seq<2>::init(k); }
static void post1() { verif_assert(seq<3>::val(0) == verif_uf1("f", x0()), "post: result element k is f(element k)"); }
static void post2() { verif_assert(seq<3>::val(0) == verif_uf2("g", x0(), x1()), "post: result element k is f(both elements k)"); }
static void post3() { verif_assert(seq<3>::val(0) == verif_uf3("h", x0(), x1(), x2()), "post: result element k is f(all elements k)"); }
struct F1 { Elem operator()(Elem const& a) const { maybe_throw(); return Elem(verif_uf1("f", a.v)); } };
struct F2 { Elem operator()(Elem const& a, Elem const& b) const { maybe_throw(); return Elem(verif_uf2("g", a.v, b.v)); } };
struct F3 { Elem operator()(Elem const& a, Elem const& b, Elem const& c) const { maybe_throw(); return Elem(verif_uf3("h", a.v, b.v, c.v)); } };
#define T1 ba::parallel_transform(It(0), It(n), Out(0), F1(), some_cutoff())
#define T2 ba::parallel_transform(It(0), It(n), It1(0), Out(0), F2(), some_cutoff())
#define T3 ba::parallel_transform<dit, F3, Job, dit, dit, dit>(Out(0), F3(), It(0), It(n), It1(0), It2(0), some_cutoff())
ENTRY(transform_iterators) { setup(); ok(T1, atend); post1(); }
ENTRY(transform_2iterators) { setup(); ok(T2, atend); post2(); }
ENTRY(transform_3iterators) { setup(); ok(T3, atend); post3(); }
ENTRY(transform_range) { setup(); drange r(0, 0, n); ok(ba::parallel_transform(r, Out(0), F1(), some_cutoff()), atend); post1(); }
ENTRY(transform_2ranges) { setup(); drange r(0, 0, n); drange s(1, 0, n); ok(ba::parallel_transform(r, s, Out(0), F2(), some_cutoff()), atend); post2(); }
ENTRY(transform_3ranges)
{
    setup(); drange r(0, 0, n); drange s(1, 0, n); drange t(2, 0, n);
    ok(ba::parallel_transform<dit, F3, Job, drange, drange, drange>(Out(0), F3(), r, s, t, some_cutoff()), atend); post3();
}
ENTRY(transform_throw_iterators) { setupt(); throwing(T1); }
ENTRY(transform_throw_2iterators) { setupt(); throwing(T2); }
ENTRY(transform_throw_3iterators) { setupt(); throwing(T3); }
ENTRY(transform_throw_range) { setupt(); drange r(0, 0, n); throwing(ba::parallel_transform(r, Out(0), F1(), some_cutoff())); }
ENTRY(transform_throw_2ranges) { setupt(); drange r(0, 0, n); drange s(1, 0, n); throwing(ba::parallel_transform(r, s, Out(0), F2(), some_cutoff())); }

struct P { bool operator()(Elem const& a) const { maybe_throw(); return verif_up1("p", a.v); } };
static Elem nv, ov;
static void rsetup() { setup(); nv.v = verif_nondet_long("new"); ov.v = verif_nondet_long("old"); }
static void postif() { verif_assert(seq<3>::val(0) == verif_ite(verif_up1("p", x0()), nv.v, x0()), "post: element copied, replaced iff the predicate holds"); }
static void posteq() { verif_assert(seq<3>::val(0) == verif_ite(x0() == ov.v, nv.v, x0()), "post: element copied, replaced iff equal to the old value"); }
ENTRY(replace_copy_if) { rsetup(); ok(ba::parallel_replace_copy_if<dit,dit,Elem,P>(It(0), It(n), Out(0), P(), nv, some_cutoff()), atend); postif(); }
ENTRY(replace_copy) { rsetup(); ok(ba::parallel_replace_copy(It(0), It(n), Out(0), ov, nv, some_cutoff()), atend); posteq(); }
ENTRY(replace_copy_if_cont) { rsetup(); ok(ba::parallel_replace_copy_if(source(drange(0, 0, n)), Out(0), P(), nv, some_cutoff()), atend); postif(); }
ENTRY(replace_copy_cont) { rsetup(); ok(ba::parallel_replace_copy(source(drange(0, 0, n)), Out(0), ov, nv, some_cutoff()), atend); posteq(); }
ENTRY(replace_copy_throw_if) { setupt(); throwing(ba::parallel_replace_copy_if<dit,dit,Elem,P>(It(0), It(n), Out(0), P(), nv, some_cutoff())); }
ENTRY(replace_copy_throw_if_cont) { setupt(); throwing(ba::parallel_replace_copy_if(source(drange(0, 0, n)), Out(0), P(), nv, some_cutoff())); }
ENTRY(replace_copy_throw_cont) { setupt(); throwing(ba::parallel_replace_copy(source(drange(0, 0, n)), Out(0), ov, nv, some_cutoff())); }

#include <vf_seq.hpp>
namespace vf { inline Elem& operator++(Elem& e) { if (Elem::copy_throws) maybe_throw(); ++e.v; return e; } inline Elem operator+(Elem const& e, long d) { return Elem(e.v + d); } }
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
typedef iter<0> It; typedef range<0> Rg;
static long k, n;
static Elem nv, ov;
static void setup()
{
    n = some_size("n"); k = inside("K", 0, n); seq<0>::setup(0, n); seq<0>::add(k);
    nv.v = verif_nondet_range("new", -(1L << 60), 1L << 60); ov.v = verif_nondet_long("old");
}
static void setupt() { n = some_size("n"); throws(); seq<0>::setup(0, n); }
static auto whole = [](Rg r) { verif_assert(verif_and(r.live, verif_and(r.b == 0, r.e == n)), "post: the given range is returned"); };
static long x0() { return seq<0>::init(k); }
static void filled() { verif_assert(seq<0>::val(0) == nv.v, "post: every element has the fill value"); }
ENTRY(fill_iterators) { setup(); ok(ba::parallel_fill(It(0), It(n), nv, some_cutoff())); filled(); }
ENTRY(fill_range_moved) { setup(); ok(ba::parallel_fill(Rg(0, n), nv, some_cutoff()), whole); filled(); }
ENTRY(fill_range_ref) { setup(); const Rg r(0, n); ok(ba::parallel_fill(r, nv, some_cutoff())); filled(); }
ENTRY(fill_cont) { setup(); ok(ba::parallel_fill(source(Rg(0, n)), nv, some_cutoff()), whole); filled(); }
ENTRY(fill_throw) { setupt(); Elem::copy_throws = false; nv.v = 1; throwing(ba::parallel_fill(source(Rg(0, n)), nv, some_cutoff())); }
static int calls;
struct G { Elem operator()() const { maybe_throw(); return Elem(verif_uf0("gen")); } };
static void gen() { verif_assert(seq<0>::val(0) == verif_uf0("gen"), "post: every element has a generated value"); }
ENTRY(generate_iterators) { setup(); ok(ba::parallel_generate(It(0), It(n), G(), some_cutoff())); gen(); }
ENTRY(generate_range_moved) { setup(); ok(ba::parallel_generate(Rg(0, n), G(), some_cutoff()), whole); gen(); }
ENTRY(generate_range_ref) { setup(); const Rg r(0, n); ok(ba::parallel_generate(r, G(), some_cutoff())); gen(); }
ENTRY(generate_cont) { setup(); ok(ba::parallel_generate(source(Rg(0, n)), G(), some_cutoff()), whole); gen(); }
ENTRY(generate_throw_iterators) { setupt(); throwing(ba::parallel_generate(It(0), It(n), G(), some_cutoff())); }
ENTRY(generate_throw_range) { setupt(); throwing(ba::parallel_generate(Rg(0, n), G(), some_cutoff())); }
ENTRY(generate_throw_cont) { setupt(); throwing(ba::parallel_generate(source(Rg(0, n)), G(), some_cutoff())); }
static void iot() { verif_assert(seq<0>::val(0) == nv.v + k, "post: element k is start + k"); }
ENTRY(iota_iterators) { setup(); ok(ba::parallel_iota(It(0), It(n), nv, some_cutoff())); iot(); }
ENTRY(iota_range) { setup(); ok(ba::parallel_iota(Rg(0, n), nv, some_cutoff()), whole); iot(); }
ENTRY(iota_throw_iterators) { setupt(); Elem::assign_throws = true; throwing(ba::parallel_iota(It(0), It(n), Elem(1), some_cutoff())); }
ENTRY(iota_throw_range) { setupt(); Elem::assign_throws = true; throwing(ba::parallel_iota(Rg(0, n), Elem(1), some_cutoff())); }
struct P { bool operator()(Elem const& a) const { maybe_throw(); return verif_up1("p", a.v); } };
static void postif() { verif_assert(seq<0>::val(0) == verif_ite(verif_up1("p", x0()), nv.v, x0()), "post: element replaced iff the predicate holds"); }
static void posteq() { verif_assert(seq<0>::val(0) == verif_ite(x0() == ov.v, nv.v, x0()), "post: element replaced iff equal to the old value"); }
ENTRY(replace_if_iterators) { setup(); ok(ba::parallel_replace_if(It(0), It(n), P(), nv, some_cutoff())); postif(); }
ENTRY(replace_iterators) { setup(); ok(ba::parallel_replace(It(0), It(n), ov, nv, some_cutoff())); posteq(); }
ENTRY(replace_if_range) { setup(); ok(ba::parallel_replace_if(Rg(0, n), P(), nv, some_cutoff()), whole); postif(); }
ENTRY(replace_range) { setup(); ok(ba::parallel_replace(Rg(0, n), ov, nv, some_cutoff()), whole); posteq(); }
ENTRY(replace_if_cont) { setup(); ok(ba::parallel_replace_if(source(Rg(0, n)), P(), nv, some_cutoff()), whole); postif(); }
ENTRY(replace_cont) { setup(); ok(ba::parallel_replace(source(Rg(0, n)), ov, nv, some_cutoff()), whole); posteq(); }
ENTRY(replace_if_throw) { setupt(); throwing(ba::parallel_replace_if(source(Rg(0, n)), P(), nv, some_cutoff())); }
static void setupr() { setup(); seq<0>::add(n - 1 - k); }
static void rev() { verif_assert(seq<0>::val(0) == seq<0>::init(n - 1 - k), "post: element k is the former element n-1-k"); }
ENTRY(reverse_iterators) { setupr(); ok(ba::parallel_reverse(It(0), It(n), some_cutoff())); rev(); }
ENTRY(reverse_range) { setupr(); ok(ba::parallel_reverse(Rg(0, n), some_cutoff()), whole); rev(); }
ENTRY(reverse_cont) { setupr(); ok(ba::parallel_reverse(source(Rg(0, n)), some_cutoff()), whole); rev(); }
ENTRY(reverse_throw_iterators) { setupt(); Elem::copy_throws = true; throwing(ba::parallel_reverse(It(0), It(n), some_cutoff())); }
ENTRY(reverse_throw_cont) { setupt(); Elem::copy_throws = true; throwing(ba::parallel_reverse(source(Rg(0, n)), some_cutoff())); }

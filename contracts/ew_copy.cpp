#include <vf_seq.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_move_if_noexcept.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
#define It D0
#define Out D1
static long k, n;
static void setup()
{
    n = some_size("n"); k = inside("K", 0, n);
    seq<0>::setup(0, n); seq<1>::setup(0, n);
    seq<0>::add(k); seq<1>::add(k);
}
static void setupt() { n = some_size("n"); throws(); Elem::copy_throws = true; seq<0>::setup(0, n); seq<1>::setup(0, n); }
static auto whole = [](drange r) { verif_assert(verif_and(r.live, verif_and(r.s == 0, verif_and(r.b == 0, r.e == n))), "post: the given range is returned"); };
static long x0() { return seq<0>::init(k); }
static long x1() { return seq<1>::init(k); }
static void copied()
{
    verif_assert(seq<1>::val(0) == x0(), "post: element k is copied to position k of the result");
    verif_assert(seq<0>::val(0) == x0(), "post: the source is unchanged");
}
static void moved()
{
    verif_assert(seq<1>::val(0) == x0(), "post: element k is moved to position k of the result");
    verif_assert(seq<0>::val(0) == -1, "post: element k is moved from");
}
ENTRY(copy_iterators) { setup(); ok(ba::parallel_copy(It(0), It(n), Out(0), some_cutoff())); copied(); }
ENTRY(copy_range) { setup(); ok(ba::parallel_copy(drange(0, 0, n), Out(0), some_cutoff()), whole); copied(); }
ENTRY(copy_cont) { setup(); ok(ba::parallel_copy(source(drange(0, 0, n)), Out(0), some_cutoff()), whole); copied(); }
ENTRY(move_iterators) { setup(); ok(ba::parallel_move(It(0), It(n), Out(0), some_cutoff())); moved(); }
ENTRY(move_range) { setup(); ok(ba::parallel_move(drange(0, 0, n), Out(0), some_cutoff()), whole); moved(); }
ENTRY(move_cont) { setup(); ok(ba::parallel_move(source(drange(0, 0, n)), Out(0), some_cutoff()), whole); moved(); }
ENTRY(move_if_noexcept) { setup(); ok(ba::parallel_move_if_noexcept(It(0), It(n), Out(0), some_cutoff())); moved(); }
ENTRY(serial_move_if_noexcept)
{
    setup(); ba::serial_move_if_noexcept(It(0), It(n), Out(0)); moved();
}
ENTRY(copy_throw_iterators) { setupt(); throwing(ba::parallel_copy(It(0), It(n), Out(0), some_cutoff())); }
ENTRY(copy_throw_range) { setupt(); throwing(ba::parallel_copy(drange(0, 0, n), Out(0), some_cutoff())); }
ENTRY(copy_throw_cont) { setupt(); throwing(ba::parallel_copy(source(drange(0, 0, n)), Out(0), some_cutoff())); }
ENTRY(move_throw_iterators) { setupt(); throwing(ba::parallel_move(It(0), It(n), Out(0), some_cutoff())); }
ENTRY(move_throw_range) { setupt(); throwing(ba::parallel_move(drange(0, 0, n), Out(0), some_cutoff())); }
ENTRY(move_throw_cont) { setupt(); throwing(ba::parallel_move(source(drange(0, 0, n)), Out(0), some_cutoff())); }
ENTRY(swap_ranges)
{
    setup(); ok(ba::parallel_swap_ranges(It(0), It(n), Out(0), some_cutoff()), [](dit o) { verif_assert(verif_and(o.s == 1, o.i == n), "post: returns the end of the second range"); });
    verif_assert(verif_and(seq<0>::val(0) == x1(), seq<1>::val(0) == x0()), "post: elements k are exchanged");
}
ENTRY(swap_ranges_throw) { setupt(); throwing(ba::parallel_swap_ranges(It(0), It(n), Out(0), some_cutoff())); }

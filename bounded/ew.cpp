// stands in for ew_for.cpp, ew_transform.cpp, ew_copy.cpp, ew_misc.cpp
#include "bounded.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
static std::vector<El> in, want;
static void input() { in = some(size_("n")); want = in; put(0, in); put(1, std::vector<El>(in.size())); }
struct Twice { void operator()(El& e) const { maybe_throw(); e.k = 2 * e.k + 1; } };
struct T1 { El operator()(El const& e) const { maybe_throw(); return El(2 * e.k + 1, e.id); } };
struct T2 { El operator()(El const& a, El const& b) const { maybe_throw(); return El(10 * a.k + b.k, a.id * 100 + b.id); } };
struct Acc { long sum = 0; void operator()(El const& e) { maybe_throw(); sum += (e.k + 1) * (1L << (e.id % 40)); } void merge(Acc const& o) { sum += o.sum; } };
struct Gen { El operator()() const { maybe_throw(); return El(9, 9); } };
static void is(int s) { OK(same(got(s), want), "post: every element has the value of the sequential algorithm"); }
static auto whole = [](std::vector<El> r) { OK(same(r, want), "post: the resulting range is the one of the sequential algorithm"); };
static void twice() { for (auto& e : want) e.k = 2 * e.k + 1; }
static El ov() { return El(1, 50); }
static El nv() { return El(8, 51); }
ENTRY(for_it) { input(); twice(); ok(ba::parallel_for(B(0), E(0), Twice(), cutoff())); is(0); }
ENTRY(for_moved) { input(); twice(); ok(ba::parallel_for(std::vector<El>(in), Twice(), cutoff()), whole); }
ENTRY(for_cont) { input(); twice(); ok(ba::parallel_for(source(in), Twice(), cutoff()), whole); }
ENTRY(for_throw) { input(); throws(); throwing(ba::parallel_for(B(0), E(0), Twice(), cutoff())); }
ENTRY(for_throw_moved) { input(); throws(); throwing(ba::parallel_for(std::vector<El>(in), Twice(), cutoff())); }
ENTRY(for_throw_cont) { input(); throws(); throwing(ba::parallel_for(source(in), Twice(), cutoff())); }
ENTRY(for_each) { input(); Acc a; for (auto& e : in) a(e); ok(ba::parallel_for_each(B(0), E(0), Acc(), cutoff()), [a](Acc r) { OK(r.sum == a.sum, "post: the functor saw every element once"); }); is(0); }
ENTRY(for_each_throw) { input(); throws(); throwing(ba::parallel_for_each(B(0), E(0), Acc(), cutoff())); }
ENTRY(transform) { input(); twice(); ok(ba::parallel_transform(B(0), E(0), B(1), T1(), cutoff()), [](it x) { OK(x == E(1), "post: the end of the output is returned"); }); is(1); }
ENTRY(transform2)
{
    input(); auto b = some((long)in.size(), 30); put(2, b);
    for (std::size_t i = 0; i < in.size(); ++i) want[i] = T2()(in[i], b[i]);
    ok(ba::parallel_transform(B(0), E(0), B(2), B(1), T2(), cutoff()), [](it x) { OK(x == E(1), "post: the end of the output is returned"); }); is(1);
}
ENTRY(transform_throw) { input(); throws(); throwing(ba::parallel_transform(B(0), E(0), B(1), T1(), cutoff())); }
ENTRY(transform2_throw) { input(); put(2, in); throws(); throwing(ba::parallel_transform(B(0), E(0), B(2), B(1), T2(), cutoff())); }
ENTRY(copy) { input(); ok(ba::parallel_copy(B(0), E(0), B(1), cutoff())); is(1); is(0); }
ENTRY(copy_moved) { input(); ok(ba::parallel_copy(std::vector<El>(in), B(1), cutoff())); is(1); }
ENTRY(copy_cont) { input(); ok(ba::parallel_copy(source(in), B(1), cutoff())); is(1); }
ENTRY(copy_throw_cont) { input(); throws(); throwing(ba::parallel_copy(source(in), B(1), cutoff())); }
ENTRY(move) { input(); ok(ba::parallel_move(B(0), E(0), B(1), cutoff())); is(1); }
ENTRY(move_moved) { input(); ok(ba::parallel_move(std::vector<El>(in), B(1), cutoff())); is(1); }
ENTRY(move_cont) { input(); ok(ba::parallel_move(source(in), B(1), cutoff())); is(1); }
ENTRY(swap_ranges) { input(); auto b = some((long)in.size(), 30); put(1, b); ok(ba::parallel_swap_ranges(B(0), E(0), B(1), cutoff()), [](it x) { OK(x == E(1), "post: returns the end of the second range"); }); is(1); want = b; is(0); }
ENTRY(fill) { input(); for (auto& e : want) e = nv(); ok(ba::parallel_fill(B(0), E(0), nv(), cutoff())); is(0); }
ENTRY(fill_moved) { input(); for (auto& e : want) e = nv(); ok(ba::parallel_fill(std::vector<El>(in), nv(), cutoff()), whole); }
ENTRY(generate) { input(); for (auto& e : want) e = El(9, 9); ok(ba::parallel_generate(B(0), E(0), Gen(), cutoff())); is(0); }
ENTRY(generate_throw) { input(); throws(); throwing(ba::parallel_generate(B(0), E(0), Gen(), cutoff())); }
ENTRY(replace) { input(); for (auto& e : want) if (e == ov()) e = nv(); ok(ba::parallel_replace(B(0), E(0), ov(), nv(), cutoff())); is(0); }
ENTRY(replace_if) { input(); for (auto& e : want) if (e.k % 2) e = nv(); ok(ba::parallel_replace_if(B(0), E(0), Odd(), nv(), cutoff())); is(0); }
ENTRY(replace_if_moved) { input(); for (auto& e : want) if (e.k % 2) e = nv(); ok(ba::parallel_replace_if(std::vector<El>(in), Odd(), nv(), cutoff()), whole); }
ENTRY(replace_if_throw) { input(); throws(); throwing(ba::parallel_replace_if(B(0), E(0), Odd(), nv(), cutoff())); }
ENTRY(replace_copy) { input(); for (auto& e : want) if (e == ov()) e = nv(); ok(ba::parallel_replace_copy(B(0), E(0), B(1), ov(), nv(), cutoff()), [](it x) { OK(x == E(1), "post: the end of the output is returned"); }); is(1); }
ENTRY(replace_copy_if) { input(); for (auto& e : want) if (e.k % 2) e = nv(); ok(ba::parallel_replace_copy_if(B(0), E(0), B(1), Odd(), nv(), cutoff()), [](it x) { OK(x == E(1), "post: the end of the output is returned"); }); is(1); }
ENTRY(replace_copy_if_throw) { input(); throws(); throwing(ba::parallel_replace_copy_if(B(0), E(0), B(1), Odd(), nv(), cutoff())); }
ENTRY(reverse) { input(); std::reverse(want.begin(), want.end()); ok(ba::parallel_reverse(B(0), E(0), cutoff())); is(0); }
ENTRY(reverse_moved) { input(); std::reverse(want.begin(), want.end()); ok(ba::parallel_reverse(std::vector<El>(in), cutoff()), whole); }
ENTRY(reverse_throw_cont) { input(); throws(); throwing(ba::parallel_reverse(source(in), cutoff())); }
namespace vb { struct Cnt { long v = 0; Cnt() {} Cnt(long x) : v(x) {} Cnt& operator++() { ++v; return *this; } friend Cnt operator+(Cnt a, long b) { return Cnt(a.v + b); }
    friend bool operator==(Cnt const& a, Cnt const& b) { return a.v == b.v; } }; }
ENTRY(iota)
{
    std::vector<Cnt> v(size_("n")), w(v.size()); std::iota(w.begin(), w.end(), Cnt(5));
    ok(ba::parallel_iota(std::vector<Cnt>(v), Cnt(5), cutoff()), [w](std::vector<Cnt> r) { OK(r == w, "post: increasing values from the first one"); });
}

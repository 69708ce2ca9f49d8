// stands in for scan.cpp
#include "bounded.hpp"
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
static std::vector<Str> in, out, w;
static void input(bool inc, bool init, bool tr = false)
{
    long n = size_("n", 1); Str s("I"); bool have = init;
    for (long i = 0; i < n; ++i) in.push_back(Str("<" + std::to_string(i) + ">"));
    for (auto& x : in)
    {
        Str y = tr ? Str("f" + x.s) : x;
        if (inc) { s = have ? Str(s.s + y.s) : y; have = true; w.push_back(s); }
        else { w.push_back(s); s = Str(s.s + y.s); }
    }
    out.resize(n);
}
struct Tr { Str operator()(Str const& x) const { maybe_throw(); return Str("f" + x.s); } };
static void is(std::vector<Str> const& v) { OK(v == w, "post: every output is the sequential prefix result"); }
ENTRY(inclusive) { input(true, true); ok(ba::parallel_inclusive_scan(in.begin(), in.end(), out.begin(), Str("I"), Cat(), cutoff())); is(out); }
ENTRY(inclusive_inplace) { input(true, true); ok(ba::parallel_inclusive_scan(in.begin(), in.end(), in.begin(), Str("I"), Cat(), cutoff())); is(in); }
ENTRY(exclusive) { input(false, true); ok(ba::parallel_exclusive_scan(in.begin(), in.end(), out.begin(), Str("I"), Cat(), cutoff())); is(out); }
ENTRY(exclusive_inplace) { input(false, true); ok(ba::parallel_exclusive_scan(in.begin(), in.end(), in.begin(), Str("I"), Cat(), cutoff())); is(in); }
ENTRY(transform_inclusive) { input(true, true, true); ok(ba::parallel_transform_inclusive_scan(in.begin(), in.end(), out.begin(), Str("I"), Cat(), Tr(), cutoff())); is(out); }
ENTRY(transform_exclusive) { input(false, true, true); ok(ba::parallel_transform_exclusive_scan(in.begin(), in.end(), out.begin(), Str("I"), Cat(), Tr(), cutoff())); is(out); }
ENTRY(partial_sum) { input(true, false); ok(ba::parallel_partial_sum(in.begin(), in.end(), out.begin(), Cat(), cutoff())); is(out); }
ENTRY(partial_sum_inplace) { input(true, false); ok(ba::parallel_partial_sum(in.begin(), in.end(), in.begin(), Cat(), cutoff())); is(in); }
ENTRY(inclusive_throw) { input(true, true); throws(); throwing(ba::parallel_inclusive_scan(in.begin(), in.end(), out.begin(), Str("I"), Cat(), cutoff())); }
ENTRY(partial_sum_throw) { input(true, false); throws(); throwing(ba::parallel_partial_sum(in.begin(), in.end(), out.begin(), Cat(), cutoff())); }

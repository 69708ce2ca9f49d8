// stands in for red_pred.cpp, red_fold.cpp
#include "bounded.hpp"
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
static std::vector<El> in, b;
static std::vector<Str> sv, sw;
static void input(long lo = 0) { keys = 1 + verif_choice(4, "keys"); in = some(size_("n", lo)); put(0, in); }
static void second()
{
    input(); b = in;
    if (!b.empty()) for (int q = verif_choice(3, "changes"); q > 0; --q) b[verif_nondet_range("at", 0, (long)b.size())].k = verif_choice(4, "key");
    put(1, b);
}
static void strings() { input(1); for (auto& e : in) { sv.push_back(str(e)); sw.push_back(Str("," + std::to_string(e.id))); } }
static Str fold(Str s, bool first) { for (auto& x : sv) { s = first ? x : Str(s.s + x.s); first = false; } return s; }
template <class T> static auto want(T w) { return [w](T r) { OK(r == w, "post: the result of the sequential algorithm"); }; }
struct Red { template <class I> Str operator()(I x, I y) const { maybe_throw(); Str s = *x; for (++x; x != y; ++x) s = Str(s.s + x->s); return s; } };
ENTRY(reduce) { strings(); ok(ba::parallel_reduce(sv.begin(), sv.end(), Cat(), cutoff()), want(fold(Str(), true))); }
ENTRY(reduce_moved) { strings(); ok(ba::parallel_reduce(std::vector<Str>(sv), Cat(), cutoff()), want(fold(Str(), true))); }
ENTRY(reduce_cont) { strings(); ok(ba::parallel_reduce(source(sv), Cat(), cutoff()), want(fold(Str(), true))); }
ENTRY(reduce_throw) { strings(); throws(); throwing(ba::parallel_reduce(sv.begin(), sv.end(), Cat(), cutoff())); }
ENTRY(extremum) { input(1); ok(ba::parallel_extremum(B(0), E(0), Less(), cutoff()), [](El e) { OK(std::max_element(in.begin(), in.end())->k == e.k || std::min_element(in.begin(), in.end())->k == e.k, "post: an extremum"); }); }
ENTRY(count) { input(); El x(1, 1); ok(ba::parallel_count(B(0), E(0), x, cutoff()), [x](long c) { OK(c == std::count(in.begin(), in.end(), x), "post: the number of matches"); }); }
ENTRY(count_if) { input(); ok(ba::parallel_count_if(B(0), E(0), Odd(), cutoff()), [](long c) { OK(c == std::count_if(in.begin(), in.end(), Odd()), "post: the number of matches"); }); }
ENTRY(count_if_moved) { input(); ok(ba::parallel_count_if(std::vector<El>(in), Odd(), cutoff()), [](long c) { OK(c == std::count_if(in.begin(), in.end(), Odd()), "post: the number of matches"); }); }
ENTRY(count_if_throw) { input(); throws(); throwing(ba::parallel_count_if(B(0), E(0), Odd(), cutoff())); }
ENTRY(inner_product)
{
    strings(); Str w("I"); for (std::size_t i = 0; i < sv.size(); ++i) w = Str(w.s + sv[i].s + sw[i].s);
    ok(ba::parallel_inner_product(sv.begin(), sv.end(), sw.begin(), Cat(), Cat(), Str("I"), cutoff()), want(w));
}
ENTRY(inner_product_throw) { strings(); throws(); throwing(ba::parallel_inner_product(sv.begin(), sv.end(), sw.begin(), Cat(), Cat(), Str("I"), cutoff())); }
ENTRY(all_of) { input(); ok(ba::parallel_all_of(B(0), E(0), Odd(), cutoff()), want((bool)std::all_of(in.begin(), in.end(), Odd()))); }
ENTRY(any_of) { input(); ok(ba::parallel_any_of(B(0), E(0), Odd(), cutoff()), want((bool)std::any_of(in.begin(), in.end(), Odd()))); }
ENTRY(none_of) { input(); ok(ba::parallel_none_of(B(0), E(0), Odd(), cutoff()), want((bool)std::none_of(in.begin(), in.end(), Odd()))); }
ENTRY(all_of_throw) { input(); throws(); throwing_weak(ba::parallel_all_of(B(0), E(0), Odd(), cutoff())); }
ENTRY(equal) { second(); ok(ba::parallel_equal(B(0), E(0), B(1), Equal(), cutoff()), want((bool)std::equal(in.begin(), in.end(), b.begin()))); }
ENTRY(equal_throw) { second(); throws(); throwing_weak(ba::parallel_equal(B(0), E(0), B(1), Equal(), cutoff())); }
ENTRY(mismatch)
{
    second(); long d = std::mismatch(in.begin(), in.end(), b.begin()).first - in.begin();
    ok(ba::parallel_mismatch(B(0), E(0), B(1), Equal(), cutoff()), [d](std::pair<it, it> p) { OK(p.first == B(0) + d && p.second == B(1) + d, "post: the first difference"); });
}
ENTRY(lexicographical_compare)
{
    second(); b.resize(std::min((long)b.size(), size_("m"))); put(1, b);
    ok(ba::parallel_lexicographical_compare(B(0), E(0), B(1), E(1), Less(), cutoff()), want((bool)std::lexicographical_compare(in.begin(), in.end(), b.begin(), b.end())));
}
ENTRY(is_sorted) { input(); ok(ba::parallel_is_sorted(B(0), E(0), Less(), cutoff()), want((bool)std::is_sorted(in.begin(), in.end()))); }
ENTRY(is_reverse_sorted) { input(); ok(ba::parallel_is_reverse_sorted(B(0), E(0), Less(), cutoff()), want((bool)std::is_sorted(in.rbegin(), in.rend()))); }
ENTRY(is_partitioned) { input(); ok(ba::parallel_is_partitioned(B(0), E(0), Odd(), cutoff()), want((bool)std::is_partitioned(in.begin(), in.end(), Odd()))); }
ENTRY(is_sorted_throw) { input(); throws(); throwing_weak(ba::parallel_is_sorted(B(0), E(0), Less(), cutoff())); }

// stands in for find.cpp, find_kmp.cpp
#include "bounded.hpp"
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
static std::vector<El> in, pat;
static void input() { keys = 1 + verif_choice(4, "keys"); in = some(size_("n")); put(0, in); }
static void pattern(long lo)
{
    input();
    long m = verif_nondet_range("m", lo, 5);
    if (verif_choice(2, "pattern taken from the range") && m <= (long)in.size()) { long a = verif_nondet_range("a", 0, (long)in.size() - m + 1); pat.assign(in.begin() + a, in.begin() + a + m); }
    else pat = some(m, 50);
    put(1, pat);
}
static auto at(std::vector<El>::iterator x) { long d = x - in.begin(); return [d](it r) { OK(r == B(0) + d, "post: the match of the sequential algorithm"); }; }
ENTRY(find_all) { input(); std::vector<El> w; std::copy_if(in.begin(), in.end(), std::back_inserter(w), Odd()); ok(ba::parallel_find_all(std::vector<El>(in), Odd(), cutoff()), [w](std::vector<El> r) { OK(same(r, w), "post: all matches, in order"); }); }
ENTRY(find_all_cont) { input(); std::vector<El> w; std::copy_if(in.begin(), in.end(), std::back_inserter(w), Odd()); ok(ba::parallel_find_all(source(in), Odd(), cutoff()), [w](std::vector<El> r) { OK(same(r, w), "post: all matches, in order"); }); }
ENTRY(find_all_throw) { input(); throws(); throwing(ba::parallel_find_all(std::vector<El>(in), Odd(), cutoff())); }
ENTRY(adjacent_find) { input(); ok(ba::parallel_adjacent_find(B(0), E(0), Less(), cutoff()), at(std::adjacent_find(in.begin(), in.end(), Less()))); }
ENTRY(adjacent_find_eq) { input(); ok(ba::parallel_adjacent_find(B(0), E(0), cutoff()), at(std::adjacent_find(in.begin(), in.end()))); }
ENTRY(adjacent_find_throw) { input(); throws(); throwing_weak(ba::parallel_adjacent_find(B(0), E(0), Less(), cutoff())); }
ENTRY(find_first_of) { pattern(0); ok(ba::parallel_find_first_of(B(0), E(0), B(1), E(1), Less(), cutoff()), at(std::find_first_of(in.begin(), in.end(), pat.begin(), pat.end(), Less()))); }
ENTRY(find_first_of_cont) { pattern(0); ok(ba::parallel_find_first_of(B(0), E(0), source(pat), Less(), cutoff()), at(std::find_first_of(in.begin(), in.end(), pat.begin(), pat.end(), Less()))); }
ENTRY(search) { pattern(1); ok(ba::parallel_search(B(0), E(0), B(1), E(1), Equal(), cutoff()), at(std::search(in.begin(), in.end(), pat.begin(), pat.end()))); }
ENTRY(search_cont) { pattern(1); ok(ba::parallel_search(B(0), E(0), source(pat), Equal(), cutoff()), at(std::search(in.begin(), in.end(), pat.begin(), pat.end()))); }
ENTRY(search_n) { input(); long c = verif_nondet_range("count", 1, 5); El v(1, 1); ok(ba::parallel_search_n(B(0), E(0), c, v, Equal(), cutoff()), at(std::search_n(in.begin(), in.end(), c, v, Equal()))); }
ENTRY(find_end) { pattern(1); ok(ba::parallel_find_end(B(0), E(0), B(1), E(1), Equal(), cutoff()), at(std::find_end(in.begin(), in.end(), pat.begin(), pat.end()))); }
ENTRY(search_throw) { pattern(1); throws(); throwing_weak(ba::parallel_search(B(0), E(0), B(1), E(1), Equal(), cutoff())); }
ENTRY(find_end_throw) { pattern(1); throws(); throwing_weak(ba::parallel_find_end(B(0), E(0), B(1), E(1), Equal(), cutoff())); }

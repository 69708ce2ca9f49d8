// stands in for select.cpp, median.cpp
namespace boost { struct thread { static unsigned hardware_concurrency() { return 3; } }; }
#include "bounded.hpp"
#include <cmath>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
static std::vector<El> in, want;
static void input() { keys = 1 + verif_choice(8, "keys"); in = some(size_("n")); want = in; std::stable_sort(want.begin(), want.end(), Less()); put(0, in); }
static void keep() { OK(perm(got(0), in), "post: the result is a permutation of the input"); }
static unsigned thr() { return 1 + verif_choice(4, "threads"); }
ENTRY(quicksort) { input(); ok(ba::parallel_quicksort(B(0), E(0), Less(), cutoff(), thr())); keep(); OK(samek(got(0), want), "post: the result is sorted"); }
ENTRY(nth_element)
{
    input(); if (in.empty()) return;
    long m = verif_nondet_range("nth", 0, (long)in.size());
    ok(ba::parallel_nth_element(B(0), B(0) + m, E(0), Less(), cutoff(), thr())); keep();
    auto g = got(0);
    OK(g[m].k == want[m].k, "post: the element of rank n is at nth");
    for (long i = 0; i < (long)g.size(); ++i) OK(i < m ? g[i].k <= g[m].k : g[i].k >= g[m].k, "post: nothing greater before nth, nothing smaller behind it");
}
ENTRY(partial_sort)
{
    input();
    long m = verif_nondet_range("middle", 0, (long)in.size() + 1);
    ok(ba::parallel_partial_sort(B(0), B(0) + m, E(0), Less(), cutoff(), thr())); keep();
    auto g = got(0);
    for (long i = 0; i < m; ++i) OK(g[i].k == want[i].k, "post: the smallest elements are sorted in front");
}
ENTRY(quicksort_throw) { input(); throws(); throwing(ba::parallel_quicksort(B(0), E(0), Less(), cutoff(), thr())); }
ENTRY(nth_element_throw) { input(); if (in.empty()) return; throws(); throwing(ba::parallel_nth_element(B(0), B(0) + verif_nondet_range("nth", 0, (long)in.size()), E(0), Less(), cutoff(), thr())); }
ENTRY(partial_sort_throw) { input(); throws(); throwing(ba::parallel_partial_sort(B(0), B(0) + verif_nondet_range("middle", 0, (long)in.size() + 1), E(0), Less(), cutoff(), thr())); }

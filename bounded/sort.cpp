// stands in for sort.cpp, merge.cpp, merge_types.cpp, select.cpp, median.cpp
namespace boost { struct thread { static unsigned hardware_concurrency() { return 3; } }; }
#include "bounded.hpp"
#include <cmath>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
static std::vector<El> in, want, wants;
static void input() { keys = 1 + verif_choice(5, "keys"); in = some(size_("n")); want = in; std::stable_sort(want.begin(), want.end(), Less()); put(0, in); }
static void sorted(std::vector<El> const& r, bool stable)
{
    OK(perm(r, in), "post: the result is a permutation of the input");
    OK(samek(r, want), "post: the result is sorted");
    if (stable) OK(same(r, want), "post: equal elements keep their order");
}
static auto moved = [](std::vector<El> r) { sorted(r, false); };
static auto moveds = [](std::vector<El> r) { sorted(r, true); };
ENTRY(sort) { input(); ok(ba::parallel_sort(B(0), E(0), Less(), cutoff())); sorted(got(0), false); }
ENTRY(stable_sort) { input(); ok(ba::parallel_stable_sort(B(0), E(0), Less(), cutoff())); sorted(got(0), true); }
ENTRY(sort_moved) { input(); ok(ba::parallel_sort(std::vector<El>(in), Less(), cutoff()), moved); }
ENTRY(stable_sort_moved) { input(); ok(ba::parallel_stable_sort(std::vector<El>(in), Less(), cutoff()), moveds); }
ENTRY(sort_cont) { input(); ok(ba::parallel_sort(source(in), Less(), cutoff()), moved); }
ENTRY(stable_sort_cont) { input(); ok(ba::parallel_stable_sort(source(in), Less(), cutoff()), moveds); }
ENTRY(sort2) { input(); ok(ba::parallel_sort2(std::vector<El>(in), Less(), cutoff()), moved); }
ENTRY(stable_sort2) { input(); ok(ba::parallel_stable_sort2(std::vector<El>(in), Less(), cutoff()), moveds); }
ENTRY(inplace) { input(); ok(ba::parallel_sort_inplace(B(0), E(0), Less(), cutoff())); sorted(got(0), false); }
ENTRY(stable_inplace) { input(); ok(ba::parallel_stable_sort_inplace(B(0), E(0), Less(), cutoff())); sorted(got(0), true); }
ENTRY(inplace_moved) { input(); ok(ba::parallel_sort_move_inplace(std::vector<El>(in), Less(), cutoff()), moved); }
ENTRY(stable_inplace_moved) { input(); ok(ba::parallel_stable_sort_move_inplace(std::vector<El>(in), Less(), cutoff()), moveds); }
ENTRY(merge)
{
    std::vector<El> a = some(size_("n1")), b = some(size_("n2"), 100);
    std::stable_sort(a.begin(), a.end(), Less()); std::stable_sort(b.begin(), b.end(), Less());
    put(0, a); put(1, b); put(2, std::vector<El>(a.size() + b.size()));
    in.clear(); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(in), Less());
    ok(ba::parallel_merge(B(0), E(0), B(1), E(1), B(2), Less(), cutoff()));
    OK(same(got(2), in), "post: the output is the stable merge of both ranges");
}
ENTRY(sort_throw) { input(); throws(); throwing(ba::parallel_sort(B(0), E(0), Less(), cutoff())); }
ENTRY(stable_sort_throw) { input(); throws(); throwing(ba::parallel_stable_sort(B(0), E(0), Less(), cutoff())); }
ENTRY(inplace_throw) { input(); throws(); throwing(ba::parallel_sort_inplace(B(0), E(0), Less(), cutoff())); }
ENTRY(merge_throw)
{
    std::vector<El> a = some(size_("n1")), b = some(size_("n2"), 100);
    std::stable_sort(a.begin(), a.end(), Less()); std::stable_sort(b.begin(), b.end(), Less());
    put(0, a); put(1, b); put(2, std::vector<El>(a.size() + b.size()));
    throws(); throwing(ba::parallel_merge(B(0), E(0), B(1), E(1), B(2), Less(), cutoff()));
}

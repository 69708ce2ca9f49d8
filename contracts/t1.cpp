#include <vf_seq.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
struct F { void operator()(Elem& e) const { maybe_throw(); e.v = verif_uf1("f", e.v); } };
extern "C" void check_for_iterators()
{
    long n = some_size("n");
    seq<0>::setup(0, n);
    long k = inside("K", 0, n);
    seq<0>::add(k);
    auto c = ba::parallel_for(iter<0>(0), iter<0>(n), F(), some_cutoff());
    outcome o; finish(c, o);
    verif_assert(!o.exc, "post: no exception");
    verif_assert(seq<0>::val(0) == verif_uf1("f", seq<0>::init(k)), "post: functor applied exactly once to every element");
    if (splits) verif_cover("split"); else verif_cover("leaf");
}
extern "C" void check_for_throw()
{
    long n = some_size("n");
    seq<0>::setup(0, n);
    may_throw = true;
    auto c = ba::parallel_for(iter<0>(0), iter<0>(n), F(), some_cutoff());
    outcome o; finish(c, o);
    verif_assert(o.exc == (thrown > 0), "post: exception delivered iff thrown");
    if (o.exc) verif_assert(o.user, "post: user exception");
    if (o.exc) verif_cover("throw"); else verif_cover("nothrow");
}

// CONTRACT of parallel_placement.hpp as used by parallel_sort: constructs elements [beg,end) in raw memory, or
// reports the exception (then no element is left); placement_deleter::clear destroys them and then calls its functor
#ifndef BOOST_ASYNCHRONOUS_PARALLEL_PLACEMENT_HPP
#define BOOST_ASYNCHRONOUS_PARALLEL_PLACEMENT_HPP
#include <vf_reg.hpp>
namespace boost { namespace asynchronous {
namespace detail {
enum class parallel_placement_helper_enum { success, error_handled, error_not_handled };
using parallel_placement_helper_result = std::pair<parallel_placement_helper_enum, std::exception_ptr>;
template <class T> struct vf_placement_task : continuation_task<parallel_placement_helper_result>
{
    long b, e; std::shared_ptr<char> d;
    vf_placement_task(long x, long y, std::shared_ptr<char> p) : b(x), e(y), d(p) {}
    void operator()()
    {
        verif_assert(verif_and(b == 0, e == vf::N), "post: the merge memory has room for all elements");
        if (vf::may_throw && verif_nondet_bool("constructor throws"))
        {
            ++vf::thrown;
            this->this_task_result().set_value(parallel_placement_helper_result(parallel_placement_helper_enum::error_handled, std::make_exception_ptr(vf::user_error{3})));
            return;
        }
        verif_assert(vf::built == 0, "post: the merge memory is constructed once");
        verif_assert(e * (long)sizeof(T) <= verif_block_size(d.get()), "memory-safety: the merge memory is large enough");
        vf::built = 1; vf::buf = d.get(); vf::bufn = e; vf::slen[1] = e;
        this->this_task_result().set_value(parallel_placement_helper_result(parallel_placement_helper_enum::success, std::exception_ptr()));
    }
};
}
template <class T, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
detail::callback_continuation<detail::parallel_placement_helper_result,Job>
parallel_placement(std::size_t b, std::size_t e, std::shared_ptr<char> d, long, const std::string& = "", std::size_t = 0)
{
    return top_level_callback_continuation_job<detail::parallel_placement_helper_result,Job>(detail::vf_placement_task<T>((long)b, (long)e, d));
}
template <class T, class Job, class Ptr = std::shared_ptr<char> > struct placement_deleter
{
    std::size_t n; Ptr d;
    placement_deleter(std::size_t s, Ptr p, long, const std::string&, std::size_t) : n(s), d(p) {}
    placement_deleter(placement_deleter const&) = delete;
    void clear(std::function<void()> f)
    {
        verif_assert(vf::built == 1 && vf::cleared == 0, "post: the elements of the merge memory are destroyed once");
        verif_assert(verif_and((long)n == vf::bufn, d.get() == vf::buf), "post: all elements of the merge memory are destroyed");
        vf::cleared = 1;
        d.reset();
        f();
    }
};
}}
#endif

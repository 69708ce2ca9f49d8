// CONTRACT of container/algorithms.hpp as used by parallel_sort2: a range of n elements
#ifndef BOOST_ASYNCHRONOUS_CONTAINER_ALGORITHMS_HPP
#define BOOST_ASYNCHRONOUS_CONTAINER_ALGORITHMS_HPP
#include <vf_reg.hpp>
namespace boost { namespace asynchronous {
namespace detail {
template <class Range> struct vf_make_range : continuation_task<Range>
{
    std::size_t n;
    vf_make_range(std::size_t k) : n(k) {}
    void operator()()
    {
        if (vf::may_throw && verif_nondet_bool("constructor throws"))
        {
            ++vf::thrown;
            this->this_task_result().set_exception(std::make_exception_ptr(vf::user_error{3}));
            return;
        }
        this->this_task_result().set_value(Range(n));
    }
};
}
template <class Range, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
detail::callback_continuation<Range,Job> make_asynchronous_range(std::size_t n, long, const std::string& = "", std::size_t = 0)
{
    return top_level_callback_continuation_job<Range,Job>(detail::vf_make_range<Range>(n));
}
}}
#endif

// CONTRACT of parallel_reverse.hpp for iterators (the real one is verified by contracts/ew_misc.cpp)
#ifndef BOOST_ASYNCHRONOUS_PARALLEL_REVERSE_HPP
#define BOOST_ASYNCHRONOUS_PARALLEL_REVERSE_HPP
#include <vf_reg.hpp>
namespace boost { namespace asynchronous {
namespace detail {
template <class It> struct vf_reverse_task : continuation_task<void>
{
    It b, e;
    vf_reverse_task(It x, It y) : b(x), e(y) {}
    void operator()()
    {
        auto r = this->this_task_result();
        try { vf::maybe_throw(); } catch (...) { r.set_exception(std::current_exception()); return; }
        It::same(b, e); vf::reverse_(b.s, b.i, e.i);
        r.set_value();
    }
};
}
template <class It, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
detail::callback_continuation<void,Job> parallel_reverse(It b, It e, long, const std::string& = "", std::size_t = 0)
{
    return top_level_callback_continuation_job<void,Job>(detail::vf_reverse_task<It>(b, e));
}
}}
#endif

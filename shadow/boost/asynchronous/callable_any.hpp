// CONTRACT: type erased callable (only its name is used by the algorithms, as default Job)
#ifndef BOOST_ASYNCHRONOUS_CALLABLE_ANY_HPP
#define BOOST_ASYNCHRONOUS_CALLABLE_ANY_HPP
namespace boost { namespace asynchronous { struct any_callable { void operator()() {} }; } }
#ifndef BOOST_ASYNCHRONOUS_DEFAULT_JOB
#define BOOST_ASYNCHRONOUS_DEFAULT_JOB boost::asynchronous::any_callable
#endif
#endif

#ifndef BOOST_ASYNCHRONOUS_POST_HPP
#define BOOST_ASYNCHRONOUS_POST_HPP
#include <boost/asynchronous/callable_any.hpp>
#include <boost/asynchronous/expected.hpp>
#endif

// serialization of the standard containers is not used by the verified functions
#pragma once
#ifndef BOOST_SERIALIZATION_SPLIT_MEMBER
#define BOOST_SERIALIZATION_SPLIT_MEMBER()
#endif

// Contract of boost::uuids::random_generator: distinct identifiers.
#ifndef VERIF_UUID_RG
#define VERIF_UUID_RG
#include <boost/uuid/uuid.hpp>
namespace boost { namespace uuids {
struct random_generator { uuid operator()() { static unsigned char n = 0; uuid u{}; u.data[0] = ++n; return u; } };
typedef random_generator random_generator_mt19937;
}}
#endif

#include <boost/asynchronous/continuation_task.hpp>

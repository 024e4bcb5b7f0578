#include <boost/thread/condition_variable.hpp>

#include <sxnet.hpp>

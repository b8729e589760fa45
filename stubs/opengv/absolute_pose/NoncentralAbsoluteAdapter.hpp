#include <opengv/types.hpp>

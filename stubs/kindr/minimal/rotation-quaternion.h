#include <kindr/minimal/quat-transformation.h>

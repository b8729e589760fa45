#include <apriltags/TagDetector.h>

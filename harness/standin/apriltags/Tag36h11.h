#ifndef STANDIN_APRILTAGS_TAG36H11_H_
#define STANDIN_APRILTAGS_TAG36H11_H_
#include <apriltags/TagDetector.h>
namespace AprilTags {
static const TagCodes tagCodes36h11;
}
#endif

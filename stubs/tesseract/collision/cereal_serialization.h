#ifndef VERIF_STUB_TESSERACT_COLLISION_CEREAL_H
#define VERIF_STUB_TESSERACT_COLLISION_CEREAL_H
#include <tesseract/stub_robot.h>
#include <cereal/cereal.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
namespace tesseract::collision
{
template <class A>
void serialize(A& a, ContactRequest& r)
{
  a(r.type, r.calculate_distance);
}
template <class A>
void serialize(A& a, ContactManagerConfig& c)
{
  a(c.default_margin, c.pair_margin_data.margins);
}
template <class A>
void serialize(A& a, CollisionCheckConfig& c)
{
  a(c.contact_request, c.type, c.longest_valid_segment_length, c.check_program_mode);
}
}  // namespace tesseract::collision
#endif

#ifndef VERIF_STUB_TESSERACT_COLLISION_YAML_H
#define VERIF_STUB_TESSERACT_COLLISION_YAML_H
#include <tesseract/stub_robot.h>
#include <yaml-cpp/yaml.h>
namespace YAML
{
template <>
struct convert<tesseract::collision::ContactManagerConfig>
{
  static Node encode(const tesseract::collision::ContactManagerConfig& c)
  {
    Node n(NodeType::Map);
    if (c.default_margin)
      n["default_margin"] = *c.default_margin;
    for (const auto& kv : c.pair_margin_data.margins)
    {
      Node e(NodeType::Sequence);
      e.push_back(kv.first.first);
      e.push_back(kv.first.second);
      e.push_back(kv.second);
      n["pair_margins"].push_back(e);
    }
    return n;
  }
  static bool decode(const Node& n, tesseract::collision::ContactManagerConfig& c)
  {
    if (n["default_margin"])
      c.default_margin = n["default_margin"].as<double>();
    if (n["pair_margins"])
      for (const auto& e : n["pair_margins"])
        c.pair_margin_data.margins[{ e[0].as<std::string>(), e[1].as<std::string>() }] = e[2].as<double>();
    return true;
  }
};
template <>
struct convert<tesseract::collision::CollisionCheckConfig>
{
  static Node encode(const tesseract::collision::CollisionCheckConfig& c)
  {
    Node n;
    n["type"] = static_cast<int>(c.type);
    n["contact_request"] = c.contact_request.type;
    n["calculate_distance"] = c.contact_request.calculate_distance;
    n["longest_valid_segment_length"] = c.longest_valid_segment_length;
    n["check_program_mode"] = static_cast<int>(c.check_program_mode);
    return n;
  }
  static bool decode(const Node& n, tesseract::collision::CollisionCheckConfig& c)
  {
    c.type = static_cast<tesseract::collision::CollisionEvaluatorType>(n["type"].as<int>());
    c.contact_request.type = n["contact_request"].as<int>();
    c.contact_request.calculate_distance = n["calculate_distance"].as<bool>();
    c.longest_valid_segment_length = n["longest_valid_segment_length"].as<double>();
    c.check_program_mode = static_cast<tesseract::collision::CollisionCheckProgramType>(n["check_program_mode"].as<int>());
    return true;
  }
};
}  // namespace YAML
#endif

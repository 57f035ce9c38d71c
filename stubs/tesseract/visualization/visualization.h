#ifndef VERIF_STUB_TESSERACT_VISUALIZATION_H
#define VERIF_STUB_TESSERACT_VISUALIZATION_H
#include <tesseract/stub_robot.h>
namespace tesseract::visualization
{
class Marker
{
public:
  virtual ~Marker() = default;
  void setScale(const Eigen::Vector3d& s) { scale = s; }
  Eigen::Vector3d scale{ Eigen::Vector3d::Ones() };
  std::shared_ptr<scene_graph::Material> material;
};
class AxisMarker : public Marker
{
public:
  AxisMarker(const Eigen::Isometry3d& a) : axis(a) {}
  Eigen::Isometry3d axis;
};
class ArrowMarker : public Marker
{
public:
  ArrowMarker(const Eigen::Vector3d& a, const Eigen::Vector3d& b) : from(a), to(b) {}
  Eigen::Vector3d from, to;
};
class ContactResultsMarker : public Marker
{
public:
  using MarginFn = std::function<double(const std::string&, const std::string&)>;
  ContactResultsMarker(std::vector<std::string> l, collision::ContactResultVector r, MarginFn m)
    : links(std::move(l)), results(std::move(r)), margin(std::move(m))
  {
  }
  std::vector<std::string> links;
  collision::ContactResultVector results;
  MarginFn margin;
};
class Visualization
{
public:
  using Ptr = std::shared_ptr<Visualization>;
  virtual ~Visualization() = default;
  virtual void plotMarker(const Marker&, const std::string& = "") {}
  virtual void plotTrajectory(const common::JointTrajectory&, const scene_graph::StateSolver&, const std::string& = "") {}
  virtual void clear(const std::string& = "") {}
  virtual void waitForInput(const std::string& = "") {}
};
}  // namespace tesseract::visualization
#endif

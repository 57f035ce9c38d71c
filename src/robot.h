// A serial robot of revolute and prismatic joints for the checks, on the stand-in kinematics interface
#ifndef VERIF_ROBOT_H
#define VERIF_ROBOT_H
#include <tesseract/stub_robot.h>

#include "pbt.h"

namespace robot
{
struct Joint
{
  Eigen::Isometry3d origin{ Eigen::Isometry3d::Identity() };
  Eigen::Vector3d axis{ Eigen::Vector3d::UnitZ() };
  bool prismatic{ false };
};
inline Eigen::Isometry3d genPose(pbt::Gen& g, double reach = 1)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  t.translation() = Eigen::Vector3d(g.num(reach), g.num(reach), g.num(reach));
  const Eigen::Vector3d a(g.num(1), g.num(1), g.num(1));
  if (a.norm() > 1e-3)
    t.linear() = Eigen::AngleAxisd(g.num(3), a.normalized()).toRotationMatrix();
  return t;
}
// Links "base" (fixed), "l1" .. "ln", and the fixed "wall" and "floor"
template <class Base = tesseract::kinematics::JointGroup>
class Chain : public Base
{
public:
  std::vector<Joint> joints;
  Eigen::Isometry3d wall{ Eigen::Isometry3d::Identity() };
  explicit Chain(std::vector<Joint> j) : joints(std::move(j)) {}
  static std::vector<Joint> generate(pbt::Gen& g, int max_joints)
  {
    std::vector<Joint> j(static_cast<std::size_t>(g.range(1, max_joints)));
    for (auto& x : j)
    {
      x.origin = genPose(g);
      x.axis = Eigen::Vector3d(g.num(1), g.num(1), g.num(1));
      if (x.axis.norm() < 1e-3)
        x.axis = Eigen::Vector3d::UnitZ();
      x.axis.normalize();
      x.prismatic = g.chance(1, 3);
    }
    return j;
  }
  Eigen::MatrixX2d limits;
  std::vector<std::string> names;  // of the joints, if not j1, j2, ...
  Chain(const Chain&) = delete;
  std::shared_ptr<const tesseract::kinematics::JointGroup> clone() const override
  {
    auto c = std::make_shared<Chain>(joints);
    c->wall = wall;
    c->limits = limits;
    c->names = names;
    return c;
  }
  std::string getBaseLinkName() const override { return "base"; }
  tesseract::common::KinematicLimits getLimits() const override { return { limits }; }
  long numJoints() const override { return static_cast<long>(joints.size()); }
  std::vector<std::string> getJointNames() const override
  {
    std::vector<std::string> n = names;
    for (std::size_t i = n.size(); i < joints.size(); ++i)
      n.push_back("j" + std::to_string(i + 1));
    return n;
  }
  std::vector<std::string> getActiveLinkNames() const override
  {
    std::vector<std::string> n;
    for (std::size_t i = 0; i < joints.size(); ++i)
      n.push_back("l" + std::to_string(i + 1));
    return n;
  }
  bool hasLinkName(const std::string& name) const override
  {
    tesseract::common::TransformMap m;
    calcFwdKin(m, Eigen::VectorXd::Zero(numJoints()));
    return m.count(name) != 0;
  }
  using Base::calcFwdKin;
  void calcFwdKin(tesseract::common::TransformMap& m, const Eigen::Ref<const Eigen::VectorXd>& q) const override
  {
    if (q.size() != numJoints())
      throw std::logic_error("forward kinematics asked for with " + std::to_string(q.size()) + " values for " +
                             std::to_string(numJoints()) + " joints");
    m["base"] = Eigen::Isometry3d::Identity();
    m["wall"] = wall;
    m["floor"] = Eigen::Isometry3d::Identity();
    Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
    for (std::size_t i = 0; i < joints.size(); ++i)
    {
      t = t * joints[i].origin;
      const double v = q[static_cast<long>(i)];
      if (joints[i].prismatic)
        t.translate(joints[i].axis * v);
      else
        t.rotate(Eigen::AngleAxisd(v, joints[i].axis));
      m["l" + std::to_string(i + 1)] = t;
    }
  }
  using Base::calcJacobian;
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link) const override
  {
    const tesseract::common::TransformMap m = this->calcFwdKin(q);
    Eigen::MatrixXd j = Eigen::MatrixXd::Zero(6, numJoints());
    if (link.empty() || link[0] != 'l')
      return j;
    const std::size_t last = static_cast<std::size_t>(std::stoi(link.substr(1)));
    const Eigen::Vector3d p = m.at(link).translation();
    for (std::size_t i = 0; i < last; ++i)
    {
      const Eigen::Isometry3d& t = m.at("l" + std::to_string(i + 1));
      const Eigen::Vector3d a = t.linear() * joints[i].axis;
      const long c = static_cast<long>(i);
      if (joints[i].prismatic)
        j.col(c).head<3>() = a;
      else
      {
        j.col(c).head<3>() = a.cross(p - t.translation());
        j.col(c).tail<3>() = a;
      }
    }
    return j;
  }
};
inline Eigen::VectorXd genJoints(pbt::Gen& g, long n, double mag = 2)
{
  Eigen::VectorXd q(n);
  for (long i = 0; i < n; ++i)
    q[i] = g.num(mag);
  return q;
}
}  // namespace robot
#endif

// Minimal stand-ins for the tesseract types /repo's sources name. tesseract itself is not installed in this sandbox;
// these declarations are just enough for the files that include its headers to compile, and they implement the
// documented meaning of the few functions that are called (see DESIGN.md, "Stubs").
#ifndef VERIF_STUB_TESSERACT_COMMON_H
#define VERIF_STUB_TESSERACT_COMMON_H
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace tesseract::common
{
template <typename T>
using AlignedVector = std::vector<T, Eigen::aligned_allocator<T>>;
template <typename Key, typename Value>
using AlignedMap = std::map<Key, Value, std::less<Key>, Eigen::aligned_allocator<std::pair<const Key, Value>>>;
using TransformMap = AlignedMap<std::string, Eigen::Isometry3d>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using LinkNamesPair = std::pair<std::string, std::string>;

inline LinkNamesPair makeOrderedLinkPair(const std::string& a, const std::string& b)
{
  return (a <= b) ? LinkNamesPair(a, b) : LinkNamesPair(b, a);
}
inline void makeOrderedLinkPair(LinkNamesPair& p, const std::string& a, const std::string& b)
{
  p = makeOrderedLinkPair(a, b);
}

// |a-b| <= max_diff, or <= max_rel_diff times the larger magnitude
inline bool almostEqualRelativeAndAbs(double a,
                                      double b,
                                      double max_diff = 1e-6,
                                      double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff)
    return true;
  return diff <= std::max(std::fabs(a), std::fabs(b)) * max_rel_diff;
}

inline bool almostEqualRelativeAndAbs(const Eigen::Ref<const Eigen::VectorXd>& a,
                                      const Eigen::Ref<const Eigen::VectorXd>& b,
                                      double max_diff = 1e-6,
                                      double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  if (a.size() != b.size())
    return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!almostEqualRelativeAndAbs(a[i], b[i], max_diff, max_rel_diff))
      return false;
  return true;
}
inline Eigen::VectorXd concat(const Eigen::VectorXd& a, const Eigen::VectorXd& b)
{
  Eigen::VectorXd o(a.size() + b.size());
  o << a, b;
  return o;
}

template <typename MapT, typename ValueT>
bool isIdenticalMap(const MapT& a,
                    const MapT& b,
                    const std::function<bool(const ValueT&, const ValueT&)>& eq =
                        [](const ValueT& x, const ValueT& y) { return x == y; })
{
  if (a.size() != b.size())
    return false;
  for (const auto& kv : a)
  {
    auto it = b.find(kv.first);
    if (it == b.end() || !eq(kv.second, it->second))
      return false;
  }
  return true;
}

inline Eigen::Vector3d calcRotationalError(const Eigen::Ref<const Eigen::Matrix3d>& R)
{
  Eigen::AngleAxisd aa(R);
  double ang = aa.angle();
  if (ang > M_PI)
    ang -= 2 * M_PI;
  return aa.axis() * ang;
}
inline Eigen::VectorXd calcTransformError(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2)
{
  Eigen::Isometry3d e = t1.inverse() * t2;
  Eigen::VectorXd v(6);
  v.head<3>() = e.translation();
  v.tail<3>() = calcRotationalError(e.rotation());
  return v;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target,
                                                      const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed)
{
  return calcTransformError(target, source_perturbed) - calcTransformError(target, source);
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target,
                                                      const Eigen::Isometry3d& target_perturbed,
                                                      const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed)
{
  return calcTransformError(target_perturbed, source_perturbed) - calcTransformError(target, source);
}
// An error inside its band is none, outside it is what exceeds the band; no bands leave the error as it is
inline void applyTolerances(Eigen::Ref<Eigen::VectorXd> error, const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  for (Eigen::Index i = 0; i < lower.size(); ++i)
    error[i] = error[i] > upper[i] ? error[i] - upper[i] : error[i] < lower[i] ? error[i] - lower[i] : 0;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target,
                                                      const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower,
                                                      const Eigen::VectorXd& upper)
{
  Eigen::VectorXd a = calcTransformError(target, source), b = calcTransformError(target, source_perturbed);
  applyTolerances(a, lower, upper);
  applyTolerances(b, lower, upper);
  return b - a;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target,
                                                      const Eigen::Isometry3d& target_perturbed,
                                                      const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower,
                                                      const Eigen::VectorXd& upper)
{
  Eigen::VectorXd a = calcTransformError(target, source), b = calcTransformError(target_perturbed, source_perturbed);
  applyTolerances(a, lower, upper);
  applyTolerances(b, lower, upper);
  return b - a;
}
inline void jacobianChangeBase(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Isometry3d& change_base)
{
  for (int i = 0; i < jac.cols(); ++i)
  {
    jac.col(i).head(3) = change_base.linear() * jac.col(i).head(3).eval();
    jac.col(i).tail(3) = change_base.linear() * jac.col(i).tail(3).eval();
  }
}
// Moves the point the Jacobian refers to by ref_point
inline void jacobianChangeRefPoint(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Ref<const Eigen::Vector3d>& ref_point)
{
  for (int i = 0; i < jac.cols(); ++i)
  {
    const Eigen::Vector3d w = jac.col(i).tail(3);
    jac.col(i).head(3) += w.cross(Eigen::Vector3d(ref_point));
  }
}

class CollisionMarginData
{
public:
  CollisionMarginData(double d = 0) : default_(d) {}
  void setDefaultCollisionMargin(double d) { default_ = d; }
  void setCollisionMargin(const std::string& a, const std::string& b, double m) { pairs_[makeOrderedLinkPair(a, b)] = m; }
  double getCollisionMargin(const std::string& a, const std::string& b) const
  {
    auto it = pairs_.find(makeOrderedLinkPair(a, b));
    return it == pairs_.end() ? default_ : it->second;
  }
  double getMaxCollisionMargin() const
  {
    double m = default_;
    for (const auto& kv : pairs_)
      m = std::max(m, kv.second);
    return m;
  }
  void incrementMargins(double inc)
  {
    default_ += inc;
    for (auto& kv : pairs_)
      kv.second += inc;
  }
  bool operator==(const CollisionMarginData& o) const { return default_ == o.default_ && pairs_ == o.pairs_; }

private:
  double default_;
  std::map<LinkNamesPair, double> pairs_;
};

struct JointState
{
  std::vector<std::string> joint_names;
  Eigen::VectorXd position;
  Eigen::VectorXd velocity;
  Eigen::VectorXd acceleration;
  Eigen::VectorXd effort;
  double time{ 0 };
  JointState() = default;
  JointState(std::vector<std::string> names, Eigen::VectorXd pos) : joint_names(std::move(names)), position(std::move(pos))
  {
  }
};
class JointTrajectory
{
public:
  std::vector<JointState> states;
  std::string description;
  std::size_t size() const { return states.size(); }
  void reserve(std::size_t n) { states.reserve(n); }
  void push_back(const JointState& s) { states.push_back(s); }
  template <typename... A>
  JointState& emplace_back(A&&... a)
  {
    return states.emplace_back(std::forward<A>(a)...);
  }
  JointState& operator[](std::size_t i) { return states[i]; }
  const JointState& operator[](std::size_t i) const { return states[i]; }
  auto begin() const { return states.begin(); }
  auto end() const { return states.end(); }
};
}  // namespace tesseract::common

namespace std
{
template <>
struct hash<tesseract::common::LinkNamesPair>
{
  std::size_t operator()(const tesseract::common::LinkNamesPair& p) const
  {
    return std::hash<std::string>()(p.first + "\x1f" + p.second);
  }
};
}  // namespace std
#endif

// Stand-ins for tesseract's collision, kinematics and environment interfaces (see stub_common.h).
#ifndef VERIF_STUB_TESSERACT_ROBOT_H
#define VERIF_STUB_TESSERACT_ROBOT_H
#include <tesseract/stub_common.h>

namespace tesseract::collision
{
enum class ContinuousCollisionType { CCType_None, CCType_Time0, CCType_Time1, CCType_Between };
enum class CollisionEvaluatorType { NONE, DISCRETE, LVS_DISCRETE, CONTINUOUS, LVS_CONTINUOUS };
enum class CollisionCheckProgramType { ALL, ALL_EXCEPT_START, ALL_EXCEPT_END, START_ONLY, END_ONLY, INTERMEDIATE_ONLY };

struct ContactResult
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  double distance{ std::numeric_limits<double>::max() };
  std::array<int, 2> type_id{ 0, 0 };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ -1, -1 };
  std::array<int, 2> subshape_id{ -1, -1 };
  std::array<Eigen::Vector3d, 2> nearest_points{ Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() };
  std::array<Eigen::Vector3d, 2> nearest_points_local{ Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() };
  std::array<Eigen::Isometry3d, 2> transform{ Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  Eigen::Vector3d normal{ Eigen::Vector3d::Zero() };
  std::array<double, 2> cc_time{ -1, -1 };
  std::array<ContinuousCollisionType, 2> cc_type{ ContinuousCollisionType::CCType_None,
                                                  ContinuousCollisionType::CCType_None };
  std::array<Eigen::Isometry3d, 2> cc_transform{ Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  bool single_contact_point{ false };
};
using ContactResultVector = common::AlignedVector<ContactResult>;

class ContactResultMap
{
public:
  using KeyType = common::LinkNamesPair;
  using MappedType = ContactResultVector;
  using ContainerType = common::AlignedMap<KeyType, MappedType>;
  using PairType = std::pair<const KeyType, MappedType>;
  using FilterFn = std::function<void(PairType&)>;

  ContactResult& addContactResult(const KeyType& key, ContactResult r)
  {
    ++count_;
    auto& v = data_[key];
    v.push_back(std::move(r));
    return v.back();
  }
  void addContactResult(const KeyType& key, const MappedType& rs)
  {
    count_ += static_cast<long>(rs.size());
    auto& v = data_[key];
    v.insert(v.end(), rs.begin(), rs.end());
  }
  void addInterpolatedCollisionResults(ContactResultMap& sub,
                                       long index,
                                       long last_index,
                                       const std::vector<std::string>& active,
                                       double dt,
                                       bool discrete,
                                       const FilterFn& filter = nullptr)
  {
    for (auto& pair : sub.data_)
    {
      for (auto& r : pair.second)
      {
        for (std::size_t j = 0; j < 2; ++j)
        {
          if (std::find(active.begin(), active.end(), r.link_names[j]) == active.end())
            continue;
          r.cc_time[j] = (r.cc_time[j] < 0) ? (double(index) * dt) : (double(index) * dt) + (r.cc_time[j] * dt);
          if (index == 0 && (r.cc_type[j] == ContinuousCollisionType::CCType_Time0 || discrete))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time0;
          else if (index == last_index && (r.cc_type[j] == ContinuousCollisionType::CCType_Time1 || discrete))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time1;
          else
            r.cc_type[j] = ContinuousCollisionType::CCType_Between;
          if (discrete)
            r.cc_transform = r.transform;
        }
      }
      if (filter)
        filter(pair);
      if (!pair.second.empty())
        addContactResult(pair.first, pair.second);
    }
  }
  long count() const { return count_; }
  std::size_t size() const
  {
    std::size_t n = 0;
    for (const auto& kv : data_)
      n += kv.second.empty() ? 0 : 1;
    return n;
  }
  bool empty() const { return count_ == 0; }
  void clear()
  {
    for (auto& kv : data_)
      kv.second.clear();
    count_ = 0;
  }
  void filter(const FilterFn& fn)
  {
    count_ = 0;
    for (auto& kv : data_)
    {
      fn(kv);
      count_ += static_cast<long>(kv.second.size());
    }
  }
  ContainerType::const_iterator begin() const { return data_.begin(); }
  ContainerType::const_iterator end() const { return data_.end(); }
  ContainerType::const_iterator find(const KeyType& k) const { return data_.find(k); }
  const ContainerType& getContainer() const { return data_; }
  void flattenWrapperResults(std::vector<std::reference_wrapper<ContactResult>>& v)
  {
    v.clear();
    for (auto& kv : data_)
      for (auto& r : kv.second)
        v.emplace_back(r);
  }
  void flattenWrapperResults(std::vector<std::reference_wrapper<const ContactResult>>& v) const
  {
    v.clear();
    for (const auto& kv : data_)
      for (const auto& r : kv.second)
        v.emplace_back(r);
  }

private:
  ContainerType data_;
  long count_{ 0 };
};

enum class ContactTestType { FIRST, CLOSEST, ALL, LIMITED };
enum class CollisionMarginPairOverrideType { NONE, REPLACE, MODIFY };
struct ContactRequest
{
  ContactRequest() = default;
  ContactRequest(ContactTestType t) : type(static_cast<int>(t)) {}
  int type{ 0 };
  bool calculate_distance{ true };
  bool operator==(const ContactRequest& o) const { return type == o.type && calculate_distance == o.calculate_distance; }
};
struct CollisionMarginPairData
{
  std::map<common::LinkNamesPair, double> margins;
  void setCollisionMargin(const std::string& a, const std::string& b, double m)
  {
    margins[common::makeOrderedLinkPair(a, b)] = m;
  }
};
struct ContactManagerConfig
{
  ContactManagerConfig() = default;
  ContactManagerConfig(double m) : default_margin(m) {}
  std::optional<double> default_margin;
  CollisionMarginPairData pair_margin_data;
  CollisionMarginPairOverrideType pair_margin_override_type{ CollisionMarginPairOverrideType::MODIFY };
  void scaleMargins(double f)
  {
    if (default_margin)
      *default_margin *= f;
    for (auto& kv : pair_margin_data.margins)
      kv.second *= f;
  }
  bool operator==(const ContactManagerConfig& o) const
  {
    return default_margin == o.default_margin && pair_margin_data.margins == o.pair_margin_data.margins;
  }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig(ContactRequest request = ContactRequest(),
                       CollisionEvaluatorType t = CollisionEvaluatorType::DISCRETE,
                       double lvs = 0.005,
                       CollisionCheckProgramType mode = CollisionCheckProgramType::ALL)
    : contact_request(request), type(t), longest_valid_segment_length(lvs), check_program_mode(mode)
  {
  }
  ContactRequest contact_request;
  CollisionEvaluatorType type;
  double longest_valid_segment_length;
  CollisionCheckProgramType check_program_mode;
  bool operator==(const CollisionCheckConfig& o) const
  {
    return contact_request == o.contact_request && type == o.type &&
           std::abs(longest_valid_segment_length - o.longest_valid_segment_length) < 1e-5 &&
           check_program_mode == o.check_program_mode;
  }
};

class ContactManagerBase
{
public:
  virtual ~ContactManagerBase() = default;
  void setActiveCollisionObjects(const std::vector<std::string>& names) { active = names; }
  void applyContactManagerConfig(const ContactManagerConfig& c)
  {
    if (c.default_margin)
      margin.setDefaultCollisionMargin(*c.default_margin);
    for (const auto& kv : c.pair_margin_data.margins)
      margin.setCollisionMargin(kv.first.first, kv.first.second, kv.second);
  }
  const common::CollisionMarginData& getCollisionMarginData() const { return margin; }
  void incrementCollisionMargin(double inc) { margin.incrementMargins(inc); }
  virtual void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose) = 0;
  void setCollisionObjectsTransform(const common::TransformMap& poses)
  {
    for (const auto& kv : poses)
      setCollisionObjectsTransform(kv.first, kv.second);
  }
  virtual void contactTest(ContactResultMap& collisions, const ContactRequest& request) = 0;

  std::vector<std::string> active;
  common::CollisionMarginData margin;
};
class DiscreteContactManager : public ContactManagerBase
{
};
class ContinuousContactManager : public ContactManagerBase
{
public:
  using ContactManagerBase::setCollisionObjectsTransform;
  virtual void setCollisionObjectsTransform(const std::string& name,
                                            const Eigen::Isometry3d& pose1,
                                            const Eigen::Isometry3d& pose2) = 0;
  void setCollisionObjectsTransform(const common::TransformMap& a, const common::TransformMap& b)
  {
    for (const auto& kv : a)
      setCollisionObjectsTransform(kv.first, kv.second, b.at(kv.first));
  }
};
}  // namespace tesseract::collision

namespace tesseract::common
{
struct KinematicLimits
{
  Eigen::MatrixX2d joint_limits;
};
}  // namespace tesseract::common
namespace tesseract::scene_graph
{
struct SceneState
{
  std::unordered_map<std::string, double> joints;
};
class StateSolver
{
public:
  virtual ~StateSolver() = default;
};
class Material
{
public:
  Material(std::string n) : name(std::move(n)) {}
  std::string name;
  Eigen::Vector4d color{ Eigen::Vector4d::Zero() };
};
}  // namespace tesseract::scene_graph

namespace tesseract::kinematics
{
// A value: copying one copies what it stands for
class JointGroup
{
public:
  using Ptr = std::shared_ptr<JointGroup>;
  using ConstPtr = std::shared_ptr<const JointGroup>;
  JointGroup() = default;
  JointGroup(const JointGroup& o) : impl_(o.impl_ ? o.impl_ : o.clone()) {}
  virtual ~JointGroup() = default;
  virtual long numJoints() const { return impl_->numJoints(); }
  virtual std::vector<std::string> getJointNames() const { return impl_->getJointNames(); }
  virtual std::vector<std::string> getActiveLinkNames() const { return impl_->getActiveLinkNames(); }
  virtual bool hasLinkName(const std::string& name) const { return impl_->hasLinkName(name); }
  virtual std::string getBaseLinkName() const { return impl_->getBaseLinkName(); }
  virtual common::KinematicLimits getLimits() const { return impl_->getLimits(); }
  bool isActiveLinkName(const std::string& name) const
  {
    const auto names = getActiveLinkNames();
    return std::find(names.begin(), names.end(), name) != names.end();
  }
  virtual void calcFwdKin(common::TransformMap& transforms, const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    impl_->calcFwdKin(transforms, q);
  }
  common::TransformMap calcFwdKin(const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    common::TransformMap m;
    calcFwdKin(m, q);
    return m;
  }
  // Geometric Jacobian (linear; angular) of the link origin in the base frame
  virtual Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link) const
  {
    return impl_->calcJacobian(q, link);
  }
  // of a point given in the frame of the link
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q,
                               const std::string& link,
                               const Eigen::Vector3d& link_point) const
  {
    Eigen::MatrixXd j = calcJacobian(q, link);
    common::TransformMap m;
    calcFwdKin(m, q);
    common::jacobianChangeRefPoint(j, m[link].linear() * link_point);
    return j;
  }
  // relative to the frame of another link, which is the fixed base here
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link) const
  {
    if (base != getBaseLinkName())
      throw std::logic_error("a Jacobian in a frame other than the base's is not modelled");
    return calcJacobian(q, link);
  }
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q,
                               const std::string& base,
                               const std::string& link,
                               const Eigen::Vector3d& link_point) const
  {
    if (base != getBaseLinkName())
      throw std::logic_error("a Jacobian in a frame other than the base's is not modelled");
    return calcJacobian(q, link, link_point);
  }

protected:
  virtual ConstPtr clone() const { throw std::logic_error("this joint group cannot be copied"); }

private:
  ConstPtr impl_;
};
using IKSolutions = std::vector<Eigen::VectorXd>;
struct KinGroupIKInput
{
  KinGroupIKInput(Eigen::Isometry3d p, std::string wf, std::string tip)
    : pose(std::move(p)), working_frame(std::move(wf)), tip_link_name(std::move(tip))
  {
  }
  Eigen::Isometry3d pose;
  std::string working_frame;
  std::string tip_link_name;
};
using KinGroupIKInputs = common::AlignedVector<KinGroupIKInput>;
class KinematicGroup : public JointGroup
{
public:
  virtual IKSolutions calcInvKin(const KinGroupIKInputs&, const Eigen::Ref<const Eigen::VectorXd>&) const
  {
    throw std::logic_error("this group has no inverse kinematics");
  }
};
inline void numericalJacobian(Eigen::Ref<Eigen::MatrixXd> jac,
                              const Eigen::Isometry3d& change_base,
                              const JointGroup& group,
                              const Eigen::Ref<const Eigen::VectorXd>& q,
                              const std::string& link,
                              const Eigen::Ref<const Eigen::Vector3d>& point)
{
  const double h = 1e-7;
  const Eigen::Isometry3d p0 = change_base * group.calcFwdKin(q)[link];
  for (Eigen::Index i = 0; i < q.size(); ++i)
  {
    Eigen::VectorXd x = q;
    x[i] += h;
    const Eigen::Isometry3d p1 = change_base * group.calcFwdKin(x)[link];
    jac.col(i).head(3) = (p1 * point - p0 * point) / h;
    const Eigen::AngleAxisd r(Eigen::Matrix3d(p1.linear() * p0.linear().transpose()));
    jac.col(i).tail(3) = r.axis() * r.angle() / h;
  }
}
}  // namespace tesseract::kinematics

namespace tesseract::environment
{
class Environment
{
public:
  using Ptr = std::shared_ptr<Environment>;
  using ConstPtr = std::shared_ptr<const Environment>;
  virtual ~Environment() = default;
  virtual std::shared_ptr<const kinematics::JointGroup> getJointGroup(const std::string&) const { return nullptr; }
  virtual scene_graph::SceneState getState() const { return {}; }
  virtual std::vector<std::string> getActiveJointNames() const { return {}; }
  virtual std::unique_ptr<scene_graph::StateSolver> getStateSolver() const
  {
    return std::make_unique<scene_graph::StateSolver>();
  }
  virtual void getLinkTransforms(common::TransformMap& transforms,
                                 const std::vector<std::string>& joints,
                                 const Eigen::Ref<const Eigen::VectorXd>& q) const = 0;
  virtual std::vector<std::string> getActiveLinkNames() const = 0;
  virtual std::unique_ptr<collision::DiscreteContactManager> getDiscreteContactManager() const = 0;
  virtual std::unique_ptr<collision::ContinuousContactManager> getContinuousContactManager() const = 0;
};
}  // namespace tesseract::environment
#endif

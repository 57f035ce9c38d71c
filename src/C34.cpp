// C34: what callbacks draw and write, and the result handed back, is the point the optimizer has reached
#include <json/json.h>
#include <tesseract/visualization/markers/arrow_marker.h>
#include <tesseract/visualization/markers/axis_marker.h>
#include <tesseract/visualization/markers/contact_results_marker.h>
#include <tesseract/visualization/visualization.h>
#include <trajopt/file_write_callback.hpp>
#include <trajopt/plot_callback.hpp>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_common/collision_types.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/utils/trajopt_utils.h>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sqp/callbacks/cartesian_error_plotter.h>
#include <trajopt_sqp/callbacks/clear_plotter.h>
#include <trajopt_sqp/callbacks/collision_plotter.h>
#include <trajopt_sqp/callbacks/joint_state_plotter.h>
#include <trajopt_sqp/callbacks/wait_for_input.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/types.h>

#include <fstream>
#include <sstream>

#include "ifopt_fixture.h"
#include "world.h"

PBT_PROPERTY("C34",
             "Cases: trajectory problems of generated robots, with and without time, and the plot and file callbacks called with drawn "
             "points, recorded by a stand-in of the viewer and parsed back from the file; OptimizeProblem on problems whose solution is "
             "known, with and without a viewer; the plot callbacks of the SQP solver on variables that change. Non-trivial: several "
             "steps and terms that draw, or a time column.");

using namespace trajopt;
using namespace world;
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
using sco::DblVec;
namespace tv = tesseract::visualization;

namespace
{
struct Event
{
  std::string what;
  Isometry3d axis{ Isometry3d::Identity() };
  Vector3d from{ Vector3d::Zero() }, to{ Vector3d::Zero() };
  std::size_t contacts{ 0 };
  tesseract::common::JointTrajectory states;
  const tesseract::scene_graph::StateSolver* solver{ nullptr };
};
bool operator==(const Event& a, const Event& b)
{
  return a.what == b.what && a.axis.isApprox(b.axis, 1e-12) && (a.from - b.from).norm() < 1e-12 && (a.to - b.to).norm() < 1e-12 &&
         a.contacts == b.contacts;
}
struct Viewer : tv::Visualization
{
  std::vector<Event> seen;
  void plotMarker(const tv::Marker& m, const std::string&) override
  {
    Event e;
    if (const auto* a = dynamic_cast<const tv::AxisMarker*>(&m))
      e.what = "axis", e.axis = a->axis;
    else if (const auto* r = dynamic_cast<const tv::ArrowMarker*>(&m))
      e.what = "arrow", e.from = r->from, e.to = r->to;
    else if (const auto* c = dynamic_cast<const tv::ContactResultsMarker*>(&m))
      e.what = "contacts", e.contacts = c->results.size();
    else
      e.what = "?";
    seen.push_back(e);
  }
  void plotTrajectory(const tesseract::common::JointTrajectory& t, const tesseract::scene_graph::StateSolver& s, const std::string&) override
  {
    Event e;
    e.what = "trajectory";
    e.states = t;
    e.solver = &s;
    seen.push_back(e);
  }
  void clear(const std::string&) override
  {
    seen.emplace_back();
    seen.back().what = "clear";
  }
  void waitForInput(const std::string&) override
  {
    seen.emplace_back();
    seen.back().what = "wait";
  }
  std::string log() const
  {
    std::string s;
    for (const auto& e : seen)
      s += e.what + " ";
    return s;
  }
};

struct World : Env
{
  std::shared_ptr<const tesseract::kinematics::JointGroup> getJointGroup(const std::string&) const override { return robot; }
  std::vector<std::string> getActiveJointNames() const override { return robot->getJointNames(); }
  tesseract::scene_graph::SceneState getState() const override
  {
    tesseract::scene_graph::SceneState s;
    for (const auto& n : robot->getJointNames())
      s.joints[n] = 0.1;
    return s;
  }
};
std::shared_ptr<World> genWorld(pbt::Gen& g)
{
  const auto e = generate(g, 3, false);
  auto w = std::make_shared<World>();
  auto r = std::make_shared<Robot>(e->robot->joints);
  r->wall = e->robot->wall;
  r->limits.resize(r->numJoints(), 2);
  r->limits.col(0).setConstant(-3);
  r->limits.col(1).setConstant(3);
  if (g.boolean())
    for (long i = 0; i < r->numJoints(); ++i)
      r->names.push_back("joint_" + std::string(1, static_cast<char>('z' - i)));
  w->robot = r;
  w->shapes = e->shapes;
  w->door = e->door;
  return w;
}
struct Prob
{
  std::shared_ptr<World> w;
  TrajOptProb::Ptr prob;
  int n{ 0 }, drawing{ 0 };
  bool time{ false };
  long dof{ 0 };
};
Json::Value numbers(const VectorXd& v)
{
  Json::Value a(Json::arrayValue);
  for (double x : v)
    a.append(x);
  return a;
}
Prob genProb(pbt::Gen& g, bool collisions = true)
{
  Prob p;
  p.w = genWorld(g);
  p.n = g.range(1, 4);
  p.dof = p.w->robot->numJoints();
  p.time = g.boolean();
  Json::Value root;
  root["basic_info"]["n_steps"] = p.n;
  root["basic_info"]["manip"] = "manip";
  root["basic_info"]["use_time"] = p.time;
  if (p.time)
  {
    root["basic_info"]["dt_lower_lim"] = 0.5;
    root["basic_info"]["dt_upper_lim"] = 2.0;
    root["init_info"]["dt"] = 1.0;
  }
  root["init_info"]["type"] = "stationary";
  for (const char* k : { "costs", "constraints" })
    for (int c = g.range(0, 2); c > 0; --c)
    {
      Json::Value t;
      const std::string name = std::string(k) + std::to_string(c);
      t["name"] = name;
      const int kind = g.range(0, collisions ? 2 : 1);
      if (kind == 0)
      {
        t["type"] = "joint_pos";
        t["params"]["targets"] = numbers(robot::genJoints(g, p.dof, 1));
        t["params"]["coeffs"] = numbers(VectorXd::Ones(p.dof));
      }
      else if (kind == 1)
      {
        const bool dynamic = p.dof > 1 && g.boolean();
        t["type"] = dynamic ? "dynamic_cart_pose" : "cart_pose";
        t["params"]["source_frame"] = dynamic ? "l" + std::to_string(p.dof) : "base";
        t["params"]["target_frame"] = "l1";
        if (g.boolean())
          std::swap(t["params"]["source_frame"], t["params"]["target_frame"]);
        t["params"]["timestep"] = g.range(0, p.n - 1);
        ++p.drawing;
      }
      else
      {
        t["type"] = "collision";
        Json::Value& q = t["params"];
        q["coeffs"] = 1.0;
        q["dist_pen"] = 0.1;
        q["evaluator_type"] = 1;
        ++p.drawing;
      }
      root[k].append(t);
    }
  if (p.time)
  {
    Json::Value t;
    t["type"] = "total_time";
    t["use_time"] = true;
    t["params"]["limit"] = 0.5;
    root["costs"].append(t);
  }
  p.prob = ConstructProblem(root, p.w);
  return p;
}
VectorXd row(const Prob& p, const DblVec& x, int i)
{
  const VarArray& v = p.prob->GetVars();
  VectorXd q(p.dof);
  for (long j = 0; j < p.dof; ++j)
    q[j] = x[static_cast<std::size_t>(v(i, static_cast<int>(j)).var_rep->index)];
  return q;
}
DblVec genPoint(pbt::Gen& g, const Prob& p)
{
  DblVec x(p.prob->getVars().size());
  for (double& v : x)
    v = g.num(2);
  if (p.time)
    for (int i = 0; i < p.n; ++i)
      x[static_cast<std::size_t>(p.prob->GetVars()(i, static_cast<int>(p.dof)).var_rep->index)] = g.real(0.5, 2);
  return x;
}
void checkTrajectory(pbt::Gen& g, const Prob& p, const tesseract::common::JointTrajectory& t, const DblVec& x)
{
  CHECK(static_cast<int>(t.states.size()) == p.n, << t.states.size() << " states of " << p.n << " steps");
  for (int i = 0; i < p.n; ++i)
  {
    const auto& s = t.states[static_cast<std::size_t>(i)];
    CHECK(s.joint_names == p.w->robot->getJointNames());
    CHECK(s.position.size() == p.dof && s.position == row(p, x, i), << "step " << i << " is drawn at " << pbt::mat(s.position.transpose())
                                                                     << " instead of " << pbt::mat(row(p, x, i).transpose()));
  }
}
// what the terms of the problem draw at x
std::vector<Event> drawings(const Prob& p, const DblVec& x)
{
  auto v = std::make_shared<Viewer>();
  for (const auto& c : p.prob->getCosts())
    if (auto* d = dynamic_cast<Plotter*>(c.get()))
      d->Plot(v, x);
  for (const auto& c : p.prob->getConstraints())
    if (auto* d = dynamic_cast<Plotter*>(c.get()))
      d->Plot(v, x);
  return v->seen;
}
}  // namespace

PBT_CASES(plots, 12000, 200000)
{
  const Prob p = genProb(g);
  auto viewer = std::make_shared<Viewer>();
  const tesseract::scene_graph::StateSolver solver;
  const std::vector<std::string> names = p.w->robot->getJointNames();
  const bool whole = !p.time && g.boolean();  // PlotProb knows the problem's variables only as one block of joint values
  const sco::Optimizer::Callback cb = whole ? PlotProbCallback(viewer, solver, names) : PlotCallback(viewer);
  for (int k = g.range(1, 3); k > 0; --k)
  {
    sco::OptResults r;
    r.clear();
    r.x = genPoint(g, p);
    viewer->seen.clear();
    cb(p.prob.get(), r);
    const auto& s = viewer->seen;
    g.log() << viewer->log() << "\n";
    const auto want = drawings(p, r.x);
    CHECK(s.size() == want.size() + 3 && s.front().what == "clear" && s[s.size() - 2].what == "trajectory" && s.back().what == "wait",
          << "drawn: " << viewer->log());
    for (std::size_t i = 0; i < want.size(); ++i)
      CHECK(s[i + 1] == want[i], << "marker " << i << " of " << viewer->log());
    checkTrajectory(g, p, s[s.size() - 2].states, r.x);
    CHECK(!whole || s[s.size() - 2].solver == &solver);
  }
  g.label(p.time ? "with time" : "without time");
  if (p.n > 1 && (p.drawing > 0 || p.time))
    g.nontrivial();
}

PBT_CASES(files, 12000, 200000)
{
  const Prob p = genProb(g);
  std::stringbuf out;
  auto file = std::make_shared<std::ofstream>();
  static_cast<std::ios&>(*file).rdbuf(&out);
  const auto cb = WriteCallback(file, p.prob);
  std::vector<sco::OptResults> all(static_cast<std::size_t>(g.range(1, 3)));
  for (auto& r : all)
  {
    r.clear();
    r.x = genPoint(g, p);
    for (std::size_t i = 0; i < p.prob->getCosts().size(); ++i)
      r.cost_vals.push_back(g.num(100));
    for (std::size_t i = 0; i < p.prob->getConstraints().size(); ++i)
      r.cnt_viols.push_back(std::fabs(g.num(100)));
    cb(p.prob.get(), r);
  }
  static_cast<std::ios&>(*file).rdbuf(nullptr);
  std::istringstream in(out.str());
  std::string line;
  auto fields = [](const std::string& s) {
    std::vector<std::string> f;
    std::istringstream i(s);
    for (std::string x; std::getline(i, x, ',');)
      f.push_back(x);
    return f;
  };
  std::getline(in, line);
  std::vector<std::string> head = p.w->robot->getJointNames();
  for (const char* s : { "x", "y", "z", "q_w", "q_x", "q_y", "q_z" })
    head.emplace_back(s);
  for (const auto& c : p.prob->getCosts())
    head.push_back(c->name());
  for (const auto& c : p.prob->getConstraints())
    head.push_back(c->name());
  CHECK(fields(line) == head, << line);
  auto is = [](const std::string& s, double want) {
    char* end = nullptr;
    const double v = std::strtod(s.c_str(), &end);
    return end != s.c_str() && std::fabs(v - want) <= 1e-5 * std::fabs(want) + 1e-12;
  };
  for (const auto& r : all)
  {
    for (int i = 0; i < p.n; ++i)
    {
      CHECK(bool(std::getline(in, line)), << "no line for step " << i);
      g.log() << line << "\n";
      const auto f = fields(line);
      std::size_t k = 0;
      const VectorXd q = row(p, r.x, i);
      for (long j = 0; j < p.dof; ++j)
      {
        // a link's name follows the last value without a comma
        CHECK(k < f.size() && is(f[k++], q[j]), << "joint " << j << " of step " << i << " in " << line << " is not " << q[j]);
      }
      if (p.time)
        CHECK(k < f.size() && is(f[k++], p.prob->GetVars()(i, static_cast<int>(p.dof)).value(r.x)), << "the time in " << line);
      const auto fk = p.w->robot->calcFwdKin(q);
      --k;
      for (const auto& link : fk)
      {
        const std::string& f0 = f[k];
        CHECK(f0.size() >= link.first.size() + 2 &&
                  f0.compare(f0.size() - link.first.size() - 2, std::string::npos, link.first + ": ") == 0,
              << "link " << link.first << " in " << line);
        CHECK(k + 7 < f.size());
        const Eigen::Quaterniond quat(link.second.linear());
        const Vector3d t = link.second.translation();
        VectorXd pose(7);
        pose << t, quat.w(), quat.x(), quat.y(), quat.z();
        auto close = [&](long j, double sign) {
          const double v = std::strtod(f[k + 1 + static_cast<std::size_t>(j)].c_str(), nullptr);
          return std::fabs(v - sign * pose[j]) <= 1e-5 * std::fabs(pose[j]) + 1e-9;
        };
        bool ok = true, plus = true, minus = true;
        for (long j = 0; j < 3; ++j)
          ok = ok && close(j, 1);
        for (long j = 3; j < 7; ++j)
        {
          plus = plus && close(j, 1);
          minus = minus && close(j, -1);
        }
        CHECK(ok && (plus || minus), << "pose of " << link.first << " at step " << i << " in " << line << " is not " << pbt::mat(pose.transpose()));
        k += 7;
      }
      ++k;
      for (double c : r.cost_vals)
        CHECK(k < f.size() && is(f[k++], c), << "cost " << c << " in " << line);
      for (double c : r.cnt_viols)
        CHECK(k < f.size() && is(f[k++], c), << "violation " << c << " in " << line);
      CHECK(k == f.size(), << "more in " << line);
    }
    CHECK(bool(std::getline(in, line)) && line.empty(), << "no empty line after a trajectory");
  }
  CHECK(!std::getline(in, line), << "more in the file: " << line);
  g.label(p.time ? "with time" : "without time");
  if (p.n > 1)
    g.nontrivial();
}

// Joint positions as costs, or nearly as constraints: the solution is known
PBT_CASES(optimize, 1500, 20000)
{
  Prob p;
  p.w = genWorld(g);
  p.n = g.range(1, 4);
  p.dof = p.w->robot->numJoints();
  Json::Value root;
  root["basic_info"]["n_steps"] = p.n;
  root["basic_info"]["manip"] = "manip";
  root["init_info"]["type"] = "stationary";
  MatrixXd want = MatrixXd::Constant(p.n, p.dof, NAN);  // a step without a term may be anywhere
  const bool as_cost = g.boolean();
  std::vector<std::string> names;
  for (int i = 0; i < p.n; ++i)
  {
    if (g.chance(1, 4) && i > 0)
      continue;
    const VectorXd q = robot::genJoints(g, p.dof, 2.5);
    want.row(i) = q.transpose();
    Json::Value t;
    t["type"] = "joint_pos";
    t["name"] = "step" + std::to_string(i);
    t["params"]["targets"] = numbers(q);
    t["params"]["coeffs"] = numbers(VectorXd::Constant(p.dof, 2));
    if (!as_cost)
    {  // within a band, which is then at most as far from the target as it is wide
      t["params"]["lower_tols"] = numbers(VectorXd::Constant(p.dof, -0.01));
      t["params"]["upper_tols"] = numbers(VectorXd::Constant(p.dof, 0.01));
    }
    t["params"]["first_step"] = t["params"]["last_step"] = i;
    root[as_cost ? "costs" : "constraints"].append(t);
    names.push_back("step" + std::to_string(i));
  }
  p.prob = ConstructProblem(root, p.w);
  auto viewer = g.boolean() ? std::make_shared<Viewer>() : nullptr;
  const auto r = OptimizeProblem(p.prob, viewer);
  g.log() << "traj\n" << pbt::mat(r->traj) << "\nwanted\n" << pbt::mat(want) << "\n";
  CHECK(r->status == sco::OPT_CONVERGED, << "status " << int(r->status));
  CHECK(r->traj.rows() == p.n && r->traj.cols() == p.dof && !((r->traj - want).array().abs() >= 2e-2).any(),
        << "the trajectory\n" << pbt::mat(r->traj) << "\nis not\n" << pbt::mat(want));
  CHECK((as_cost ? r->cost_names : r->cnt_names) == names && (as_cost ? r->cnt_names : r->cost_names).empty());
  CHECK((as_cost ? r->cost_vals : r->cnt_viols).size() == names.size() && (as_cost ? r->cnt_viols : r->cost_vals).empty());
  DblVec x(p.prob->getVars().size());
  for (int i = 0; i < p.n; ++i)
    for (int j = 0; j < p.dof; ++j)
      x[static_cast<std::size_t>(p.prob->GetVars()(i, j).var_rep->index)] = r->traj(i, j);
  for (std::size_t i = 0; i < names.size(); ++i)
    if (as_cost)
      CHECK_NEAR(r->cost_vals[i], p.prob->getCosts()[i]->value(x), 1e-9, 1e-9, << names[i]);
    else
      CHECK_NEAR(r->cnt_viols[i], p.prob->getConstraints()[i]->violation(x), 1e-9, 1e-9, << names[i]);
  if (viewer)
  {
    CHECK(viewer->seen.size() >= 3 && viewer->seen.size() % 3 == 0, << viewer->log());
    for (std::size_t i = 0; i < viewer->seen.size(); i += 3)
      CHECK(viewer->seen[i].what == "clear" && viewer->seen[i + 1].what == "trajectory" && viewer->seen[i + 2].what == "wait");
    checkTrajectory(g, p, viewer->seen[viewer->seen.size() - 2].states, x);
  }
  if (names.size() > 1)
    g.nontrivial();
}

PBT_CASES(sqp_callbacks, 12000, 200000)
{
  using namespace fx;
  auto r = std::make_shared<Robot>(Robot::generate(g, 3));
  r->wall = robot::genPose(g);
  const Layout l = trajectory(g, g.range(1, 4), static_cast<int>(r->numJoints()), 2);
  trajopt_sqp::IfoptQPProblem qp(l.vars);
  qp.setup();
  trajopt_sqp::SQPResults results;
  auto viewer = std::make_shared<Viewer>();
  const bool blind = g.chance(1, 6);
  const auto to = blind ? nullptr : viewer;
  trajopt_sqp::JointStatePlottingCallback joints(to, std::make_unique<tesseract::scene_graph::StateSolver>());
  trajopt_sqp::CartesianErrorPlottingCallback errors(to);
  trajopt_sqp::ClearPlotterCallback clear(viewer);
  trajopt_sqp::WaitForInputCallback wait(viewer);
  using VarPtr = std::shared_ptr<const trajopt_ifopt::Var>;
  using CntPtr = std::shared_ptr<const trajopt_ifopt::CartPosConstraint>;
  std::vector<VarPtr> drawn;
  struct Frames
  {
    VarPtr var;
    std::string source, target;
    Isometry3d source_offset, target_offset;
  };
  std::vector<Frames> frames;
  auto someVars = [&] {
    std::vector<VarPtr> v;
    for (int k = g.range(0, 3); k > 0; --k)
      v.push_back(g.pick(l.all));
    return v;
  };
  auto addVars = [&] {
    const auto v = someVars();
    if (g.boolean())
      joints.addVariableSet(v);
    else
      for (const auto& x : v)
        joints.addVariableSet(x);
    drawn.insert(drawn.end(), v.begin(), v.end());
  };
  auto addCnts = [&] {
    std::vector<CntPtr> v;
    for (int k = g.range(0, 2); k > 0; --k)
    {
      const auto var = g.pick(l.all);
      const bool moving_source = g.boolean();
      Frames f{ var, moving_source ? "l1" : "base", moving_source ? (g.boolean() ? "base" : "wall") : "l" + std::to_string(r->numJoints()), robot::genPose(g), robot::genPose(g) };
      v.push_back(std::make_shared<trajopt_ifopt::CartPosConstraint>(var, r, f.source, f.target, f.source_offset, f.target_offset, "pose"));
      frames.push_back(f);
    }
    if (g.boolean())
      errors.addConstraintSet(v);
    else
      for (const auto& x : v)
        errors.addConstraintSet(x);
  };
  addVars();
  addCnts();
  for (int k = g.range(1, 3); k > 0; --k)
  {
    VectorXd x(l.vars->getRows());
    for (auto& v : x)
      v = g.num(2);
    l.vars->setVariables(x);
    for (int o = g.range(1, 4); o > 0; --o)
    {
      viewer->seen.clear();
      switch (g.range(0, 5))
      {
        case 0:
          CHECK(clear.execute(qp, results) && viewer->seen.size() == 1 && viewer->seen[0].what == "clear", << viewer->log());
          break;
        case 1:
          CHECK(wait.execute(qp, results) && viewer->seen.size() == 1 && viewer->seen[0].what == "wait", << viewer->log());
          break;
        case 2:
        case 3:
        {
          CHECK(joints.execute(qp, results), << "a callback that draws stops the solver");
          if (blind)
          {
            CHECK(viewer->seen.empty());
            break;
          }
          CHECK(viewer->seen.size() == 1 && viewer->seen[0].what == "trajectory", << viewer->log());
          const auto& t = viewer->seen[0].states;
          CHECK(t.states.size() == drawn.size());
          for (std::size_t i = 0; i < drawn.size(); ++i)
            CHECK(t.states[i].joint_names == drawn[i]->name() && t.states[i].position == x.segment(drawn[i]->getIndex(), drawn[i]->size()),
                  << "state " << i << " is drawn at " << pbt::mat(t.states[i].position.transpose()));
          if (drawn.size() > 1)
            g.nontrivial();
          break;
        }
        default:
        {
          CHECK(errors.execute(qp, results), << "a callback that draws stops the solver");
          if (blind)
          {
            CHECK(viewer->seen.empty());
            break;
          }
          const auto& s = viewer->seen;
          CHECK(s.size() == 3 * frames.size(), << viewer->log());
          for (std::size_t i = 0; i < frames.size(); ++i)
          {
            const Frames& f = frames[i];
            const auto fk = r->calcFwdKin(x.segment(f.var->getIndex(), f.var->size()));
            const Isometry3d a = fk.at(f.source) * f.source_offset, b = fk.at(f.target) * f.target_offset;
            const Event &e0 = s[3 * i], &e1 = s[3 * i + 1], &e2 = s[3 * i + 2];
            CHECK(e0.what == "axis" && e1.what == "axis" && e2.what == "arrow", << viewer->log());
            CHECK(e0.axis.isApprox(a, 1e-9), << "the source frame of constraint " << i);
            if (!e1.axis.isApprox(b, 1e-9))
            {
              const std::string msg = "the target frame of constraint " + std::to_string(i) + ", " + f.target + ", is not where it is drawn";
              e1.axis.isApprox(f.target_offset, 1e-9) ? g.failUnlessKnown("target-drawn-without-frame", msg) : g.fail(msg);
            }
            CHECK((e2.from - e0.axis.translation()).norm() < 1e-9 && (e2.to - e1.axis.translation()).norm() < 1e-9,
                  << "the arrow of constraint " << i << " is not between its frames");
            g.nontrivial();
          }
        }
      }
    }
    if (g.boolean())
      addVars();
    if (g.boolean())
      addCnts();
  }
}

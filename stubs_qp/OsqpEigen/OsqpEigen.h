// Stand-in for OsqpEigen 0.9+ (see standin.h). As in the library, matrices are copied and vectors are kept by reference.
#ifndef VERIF_STUB_OSQPEIGEN_H
#define VERIF_STUB_OSQPEIGEN_H
#include <Eigen/Sparse>
#include <OsqpEigen/Settings.hpp>

#include <memory>

struct OSQPData
{
  OSQPInt n, m;
  OSQPCscMatrix *P, *A;
  OSQPFloat *q, *l, *u;
};
namespace OsqpEigen
{
enum class Status
{
  Solved = OSQP_SOLVED,
  SolvedInaccurate,
  PrimalInfeasible,
  PrimalInfeasibleInaccurate,
  DualInfeasible,
  DualInfeasibleInaccurate,
  MaxIterReached,
  TimeLimitReached,
  NonCvx,
  Sigint,
  Unsolved
};
enum class ErrorExitFlag
{
  NoError = 0,
  DataValidationError = 1,
  SettingsValidationError,
  LinsysSolverInitError,
  NonCvxError,
  MemAllocError,
  WorkspaceNotInitError
};
struct Csc
{
  std::vector<OSQPInt> p, i;
  std::vector<double> x;
  OSQPCscMatrix m{};
  bool set{ false };
  void assign(const Eigen::SparseMatrix<double>& s)
  {
    p.assign(1, 0);
    i.clear();
    x.clear();
    for (int c = 0; c < s.outerSize(); ++c)
    {
      for (Eigen::SparseMatrix<double>::InnerIterator it(s, c); it; ++it)
      {
        i.push_back(it.row());
        x.push_back(it.value());
      }
      p.push_back(static_cast<OSQPInt>(i.size()));
    }
    m = { s.rows(), s.cols(), p.data(), i.data(), x.data(), static_cast<OSQPInt>(x.size()), -1, 0 };
    set = true;
  }
};
class Data
{
  friend class Solver;
  OSQPData d_{};
  Csc P_, A_;
  bool n_set_{ false }, m_set_{ false };

public:
  void setNumberOfVariables(int n)
  {
    d_.n = n;
    n_set_ = true;
  }
  void setNumberOfConstraints(int m)
  {
    d_.m = m;
    m_set_ = true;
  }
  void clearHessianMatrix() { P_ = Csc(); }
  void clearLinearConstraintsMatrix() { A_ = Csc(); }
  template <typename D>
  bool setHessianMatrix(const Eigen::SparseMatrixBase<D>& h)
  {
    if (!n_set_ || P_.set || h.rows() != d_.n || h.cols() != d_.n)
      return false;
    Eigen::SparseMatrix<double> c = h, u = c.triangularView<Eigen::Upper>();
    P_.assign(u);
    return true;
  }
  template <typename D>
  bool setLinearConstraintsMatrix(const Eigen::SparseMatrixBase<D>& a)
  {
    if (!m_set_ || A_.set || a.rows() != d_.m || a.cols() != d_.n)
      return false;
    Eigen::SparseMatrix<double> c = a;
    A_.assign(c);
    return true;
  }
  bool setGradient(Eigen::Ref<Eigen::VectorXd> g)
  {
    if (g.size() != d_.n)
      return false;
    d_.q = g.data();
    return true;
  }
  bool setLowerBound(Eigen::Ref<Eigen::VectorXd> l)
  {
    if (l.size() != d_.m)
      return false;
    d_.l = l.data();
    return true;
  }
  bool setUpperBound(Eigen::Ref<Eigen::VectorXd> u)
  {
    if (u.size() != d_.m)
      return false;
    d_.u = u.data();
    return true;
  }
  bool setBounds(Eigen::Ref<Eigen::VectorXd> l, Eigen::Ref<Eigen::VectorXd> u) { return setLowerBound(l) && setUpperBound(u); }
  OSQPData* getData()
  {
    d_.P = &P_.m;
    d_.A = &A_.m;
    return &d_;
  }
  bool isSet() const { return n_set_ && m_set_ && P_.set && A_.set && d_.q && (d_.m == 0 || (d_.l && d_.u)); }
};
class Solver
{
  OSQPSolver* s_{ nullptr };
  bool init_{ false };
  std::unique_ptr<Settings> settings_{ std::make_unique<Settings>() };
  std::unique_ptr<Data> data_{ std::make_unique<Data>() };
  Eigen::VectorXd solution_;
  static bool refused(bool matrix = false)
  {
    auto& st = standin::state();
    const bool r = st.refuse_update || (matrix && st.refuse_matrix);
    st.refuse_update = false;
    if (matrix)
      st.refuse_matrix = false;
    return r;
  }
  // the library sets the solver up again when the pattern has changed
  bool rebuild()
  {
    const bool warm = settings_->getSettings()->warm_starting != 0;
    const std::vector<double> x = s_->work->x, y = s_->work->y, q = s_->work->q, l = s_->work->l, u = s_->work->u;
    osqp_cleanup(s_);
    s_ = nullptr;
    init_ = false;
    OSQPData* d = data_->getData();
    if (osqp_setup(&s_, d->P, q.data(), d->A, l.data(), u.data(), d->m, d->n, settings_->getSettings()) != 0)
      return false;
    init_ = true;
    if (warm)
    {
      s_->work->x = x;
      s_->work->y = y;
    }
    return true;
  }

public:
  ~Solver() { clearSolver(); }
  const std::unique_ptr<Settings>& settings() const { return settings_; }
  const std::unique_ptr<Data>& data() const { return data_; }
  const OSQPSolver* solver() const { return s_; }
  bool isInitialized() const { return init_; }
  bool initSolver()
  {
    if (init_ || !data_->isSet())
      return false;
    OSQPData* d = data_->getData();
    const bool error = osqp_setup(&s_, d->P, d->q, d->A, d->l, d->u, d->m, d->n, settings_->getSettings()) != 0;
    if (error)
    {
      osqp_cleanup(s_);
      s_ = nullptr;
      return false;
    }
    init_ = true;
    return true;
  }
  void clearSolver()
  {
    osqp_cleanup(s_);
    s_ = nullptr;
    init_ = false;
  }
  ErrorExitFlag solveProblem()
  {
    if (!init_)
      return ErrorExitFlag::WorkspaceNotInitError;
    return static_cast<ErrorExitFlag>(osqp_solve(s_));
  }
  Status getStatus() const { return static_cast<Status>(s_->info->status_val); }
  const Eigen::VectorXd& getSolution()
  {
    solution_ = Eigen::Map<Eigen::VectorXd>(s_->solution->x, data_->getData()->n);
    return solution_;
  }
  template <typename D>
  bool updateHessianMatrix(const Eigen::SparseMatrixBase<D>& h)
  {
    if (!init_ || refused(true) || h.rows() != data_->d_.n || h.cols() != data_->d_.n)
      return false;
    data_->clearHessianMatrix();
    return data_->setHessianMatrix(h) && rebuild();
  }
  template <typename D>
  bool updateLinearConstraintsMatrix(const Eigen::SparseMatrixBase<D>& a)
  {
    if (!init_ || refused(true) || a.rows() != data_->d_.m || a.cols() != data_->d_.n)
      return false;
    data_->clearLinearConstraintsMatrix();
    return data_->setLinearConstraintsMatrix(a) && rebuild();
  }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& g)
  {
    if (!init_ || refused() || g.size() != data_->d_.n)
      return false;
    s_->work->q.assign(g.data(), g.data() + g.size());
    return true;
  }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& l, const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    if (!init_ || refused() || l.size() != data_->d_.m || u.size() != data_->d_.m || (l.array() > u.array()).any())
      return false;
    s_->work->l.assign(l.data(), l.data() + l.size());
    s_->work->u.assign(u.data(), u.data() + u.size());
    return true;
  }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& l)
  {
    if (!init_)
      return false;
    return updateBounds(l, Eigen::Map<Eigen::VectorXd>(s_->work->u.data(), static_cast<Eigen::Index>(s_->work->u.size())));
  }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    if (!init_)
      return false;
    return updateBounds(Eigen::Map<Eigen::VectorXd>(s_->work->l.data(), static_cast<Eigen::Index>(s_->work->l.size())), u);
  }
  template <int N, int M>
  bool setWarmStart(const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& y)
  {
    if (!init_ || x.size() != data_->d_.n || y.size() != data_->d_.m)
      return false;
    return osqp_warm_start(s_, x.data(), y.data()) == 0;
  }
};
}  // namespace OsqpEigen
#endif

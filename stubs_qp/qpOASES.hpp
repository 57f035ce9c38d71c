// Stand-in for qpOASES 3.2 (see standin.h)
#ifndef VERIF_STUB_QPOASES_H
#define VERIF_STUB_QPOASES_H
#include <standin.h>

namespace qpOASES
{
using real_t = double;
using int_t = int;
using uint_t = unsigned int;
using sparse_int_t = int;
const real_t INFTY = 1.0e20;
enum BooleanType
{
  BT_FALSE,
  BT_TRUE
};
enum PrintLevel
{
  PL_NONE,
  PL_LOW
};
enum returnValue
{
  SUCCESSFUL_RETURN = 0,
  RET_QP_SOLUTION_STARTED = 13,
  RET_INIT_FAILED = 33,
  RET_INIT_FAILED_TQ,
  RET_INIT_FAILED_CHOLESKY,
  RET_INIT_FAILED_HOTSTART,
  RET_INIT_FAILED_INFEASIBILITY,
  RET_INIT_FAILED_UNBOUNDEDNESS,
  RET_HOTSTART_STOPPED_INFEASIBILITY = 61,
  RET_MAX_NWSR_REACHED = 64,
  RET_INVALID_ARGUMENTS = 1
};
struct Options
{
  PrintLevel printLevel{ PL_LOW };
  BooleanType enableRegularisation{ BT_FALSE };
  void setToMPC() {}
  returnValue ensureConsistency() { return SUCCESSFUL_RETURN; }
};
// The arrays are kept by reference
struct SparseMatrix
{
  int nr{ 0 }, nc{ 0 };
  sparse_int_t *ir{ nullptr }, *jc{ nullptr };
  real_t* val{ nullptr };
  SparseMatrix() = default;
  SparseMatrix(int_t nr_, int_t nc_, sparse_int_t* ir_, sparse_int_t* jc_, real_t* val_) : nr(nr_), nc(nc_), ir(ir_), jc(jc_), val(val_) {}
  Eigen::MatrixXd dense() const
  {
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(nr, nc);
    for (int j = 0; j < nc; ++j)
      for (int k = jc[j]; k < jc[j + 1]; ++k)
        m(ir[k], j) += val[k];
    return m;
  }
};
struct SymSparseMat : SparseMatrix
{
  using SparseMatrix::SparseMatrix;
  bool diag{ false };
  sparse_int_t* createDiagInfo()
  {
    diag = true;
    return nullptr;
  }
};
class SQProblem
{
public:
  SQProblem(int_t nv, int_t nc) : nv_(nv), nc_(nc) { ++standin::state().alive; }
  ~SQProblem() { --standin::state().alive; }
  SQProblem(const SQProblem&) = delete;
  void setOptions(const Options&) {}
  BooleanType isInitialised() const { return init_ ? BT_TRUE : BT_FALSE; }
  uint_t getNV() const { return static_cast<uint_t>(nv_); }
  uint_t getNC() const { return static_cast<uint_t>(nc_); }
  returnValue init(SymSparseMat* h, const real_t* g, SparseMatrix* a, const real_t* lb, const real_t* ub, const real_t* la,
                   const real_t* ua, int_t& nwsr, real_t* = nullptr)
  {
    auto& st = standin::state();
    ++st.setups;
    if (!take(h, g, a, lb, ub, la, ua))
      return RET_INVALID_ARGUMENTS;
    if (nwsr < st.init_steps)
      return RET_MAX_NWSR_REACHED;
    nwsr = st.init_steps;
    if (st.status != 0)
      return static_cast<returnValue>(st.status);
    init_ = true;
    x_ = st.x;
    return SUCCESSFUL_RETURN;
  }
  returnValue hotstart(SymSparseMat* h, const real_t* g, SparseMatrix* a, const real_t* lb, const real_t* ub, const real_t* la,
                       const real_t* ua, int_t& nwsr, real_t* = nullptr)
  {
    auto& st = standin::state();
    ++st.updates;
    if (!take(h, g, a, lb, ub, la, ua))
      return RET_INVALID_ARGUMENTS;
    if (nwsr < st.hot_steps)
      return RET_MAX_NWSR_REACHED;
    nwsr = st.hot_steps;
    if (st.refuse_hot || st.status != 0)
    {
      st.refuse_hot = false;
      return RET_HOTSTART_STOPPED_INFEASIBILITY;
    }
    x_ = st.x;
    return SUCCESSFUL_RETURN;
  }
  returnValue getPrimalSolution(real_t* out) const
  {
    for (int i = 0; i < nv_; ++i)
      out[i] = i < x_.size() ? x_[i] : 0;
    return SUCCESSFUL_RETURN;
  }

private:
  bool take(SymSparseMat* h, const real_t* g, SparseMatrix* a, const real_t* lb, const real_t* ub, const real_t* la, const real_t* ua)
  {
    if (!h || !a || h->nr != nv_ || h->nc != nv_ || a->nr != nc_ || a->nc != nv_ || !h->diag)
      return false;
    standin::Problem p;
    p.H = h->dense();
    p.A = a->dense();
    auto v = [](const real_t* d, int n, double none) {
      Eigen::VectorXd o = Eigen::VectorXd::Constant(n, none);
      for (int i = 0; d && i < n; ++i)
        o[i] = d[i];
      return o;
    };
    p.c = v(g, nv_, 0);
    p.lb = v(lb, nv_, -INFINITY);
    p.ub = v(ub, nv_, INFINITY);
    p.l = v(la, nc_, -INFINITY);
    p.u = v(ua, nc_, INFINITY);
    standin::state().solved.push_back(p);
    ++standin::state().solves;
    return true;
  }
  int nv_, nc_;
  bool init_{ false };
  Eigen::VectorXd x_;
};
}  // namespace qpOASES
#endif

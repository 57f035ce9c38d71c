// Stand-in for OSQP 1.0 (see standin.h)
#ifndef VERIF_STUB_OSQP_H
#define VERIF_STUB_OSQP_H
#include <standin.h>

#include <cstdlib>
#include <cstring>
#include <vector>

using OSQPInt = long long;
using OSQPFloat = double;
#define OSQP_INFTY 1e30
#define OSQP_NULL 0
enum osqp_status_type
{
  OSQP_SOLVED = 1,
  OSQP_SOLVED_INACCURATE,
  OSQP_PRIMAL_INFEASIBLE,
  OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  OSQP_DUAL_INFEASIBLE,
  OSQP_DUAL_INFEASIBLE_INACCURATE,
  OSQP_MAX_ITER_REACHED,
  OSQP_TIME_LIMIT_REACHED,
  OSQP_NON_CVX,
  OSQP_SIGINT,
  OSQP_UNSOLVED
};
enum osqp_error_type
{
  OSQP_NO_ERROR = 0,
  OSQP_DATA_VALIDATION_ERROR = 1,
  OSQP_SETTINGS_VALIDATION_ERROR,
  OSQP_LINSYS_SOLVER_INIT_ERROR,
  OSQP_NONCVX_ERROR,
  OSQP_MEM_ALLOC_ERROR,
  OSQP_WORKSPACE_NOT_INIT_ERROR,
  OSQP_ALGEBRA_LOAD_ERROR,
  OSQP_FOPEN_ERROR,
  OSQP_CODEGEN_DEFINES_ERROR,
  OSQP_DATA_NOT_INITIALIZED,
  OSQP_FUNC_NOT_IMPLEMENTED,
  OSQP_LAST_ERROR_PLACE
};
struct OSQPCscMatrix
{
  OSQPInt m, n;
  OSQPInt* p;
  OSQPInt* i;
  OSQPFloat* x;
  OSQPInt nzmax, nz, owned;
};
enum osqp_precond_type
{
  OSQP_NO_PRECONDITIONER = 0,
  OSQP_DIAGONAL_PRECONDITIONER
};
enum osqp_linsys_solver_type
{
  OSQP_UNKNOWN_SOLVER = 0,
  OSQP_DIRECT_SOLVER,
  OSQP_INDIRECT_SOLVER
};
struct OSQPSettings
{
  OSQPInt device, linsys_solver, allocate_solution, verbose, profiler_level, warm_starting, scaling, polishing;
  OSQPFloat rho;
  OSQPInt rho_is_vec;
  OSQPFloat sigma, alpha;
  OSQPInt cg_max_iter, cg_tol_reduction;
  OSQPFloat cg_tol_fraction;
  OSQPInt cg_precond, adaptive_rho, adaptive_rho_interval;
  OSQPFloat adaptive_rho_fraction, adaptive_rho_tolerance;
  OSQPInt max_iter;
  OSQPFloat eps_abs, eps_rel, eps_prim_inf, eps_dual_inf;
  OSQPInt scaled_termination, check_termination, check_dualgap;
  OSQPFloat time_limit, delta;
  OSQPInt polish_refine_iter;
};
struct OSQPInfo
{
  char status[32];
  OSQPInt status_val;
};
struct OSQPSolution
{
  OSQPFloat *x, *y, *prim_inf_cert, *dual_inf_cert;
};
struct OSQPWorkspace
{
  OSQPInt m, n;
  std::vector<OSQPInt> Pp, Pi, Ap, Ai;
  std::vector<double> Px, Ax, q, l, u, x, y;
};
struct OSQPSolver
{
  OSQPSettings* settings;
  OSQPSolution* solution;
  OSQPInfo* info;
  OSQPWorkspace* work;
};

inline OSQPSettings& standin_last_settings()
{
  static OSQPSettings s;
  return s;
}
inline void osqp_set_default_settings(OSQPSettings* s)
{
  *s = OSQPSettings{};
  s->linsys_solver = OSQP_DIRECT_SOLVER;
  s->allocate_solution = 1;
  s->verbose = 1;
  s->warm_starting = 1;
  s->scaling = 10;
  s->rho = 0.1;
  s->rho_is_vec = 1;
  s->sigma = 1e-6;
  s->alpha = 1.6;
  s->cg_max_iter = 20;
  s->cg_precond = OSQP_DIAGONAL_PRECONDITIONER;
  s->adaptive_rho = 1;
  s->max_iter = 4000;
  s->eps_abs = s->eps_rel = 1e-3;
  s->eps_prim_inf = s->eps_dual_inf = 1e-4;
  s->check_termination = 25;
  s->check_dualgap = 1;
  s->time_limit = 1e10;
  s->delta = 1e-6;
  s->polish_refine_iter = 3;
}
inline OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p)
{
  auto* c = static_cast<OSQPCscMatrix*>(std::calloc(1, sizeof(OSQPCscMatrix)));
  *c = { m, n, p, i, x, nzmax, -1, 0 };
  return c;
}
inline OSQPInt osqp_cleanup(OSQPSolver* s)
{
  if (s == nullptr)
    return 0;
  --standin::state().alive;
  delete s->settings;
  delete s->solution;
  delete s->info;
  delete s->work;
  delete s;
  return 0;
}
inline bool standin_csc_ok(const OSQPCscMatrix* a)
{
  if (a == nullptr || a->p == nullptr || a->p[0] != 0 || a->p[a->n] != a->nzmax)
    return false;
  for (OSQPInt j = 0; j < a->n; ++j)
  {
    if (a->p[j] > a->p[j + 1])
      return false;
    for (OSQPInt k = a->p[j]; k < a->p[j + 1]; ++k)
      if (a->i[k] < 0 || a->i[k] >= a->m)
        return false;
  }
  return true;
}
inline OSQPInt osqp_setup(OSQPSolver** out,
                          const OSQPCscMatrix* P,
                          const OSQPFloat* q,
                          const OSQPCscMatrix* A,
                          const OSQPFloat* l,
                          const OSQPFloat* u,
                          OSQPInt m,
                          OSQPInt n,
                          const OSQPSettings* settings)
{
  auto& st = standin::state();
  ++st.setups;
  if (!standin_csc_ok(P) || !standin_csc_ok(A) || n <= 0 || m < 0 || P->m != n || P->n != n || A->m != m || A->n != n)
    return OSQP_DATA_VALIDATION_ERROR;
  for (OSQPInt j = 0; j < n; ++j)
    for (OSQPInt k = P->p[j]; k < P->p[j + 1]; ++k)
      if (P->i[k] > j)
        return OSQP_DATA_VALIDATION_ERROR;
  for (OSQPInt i = 0; i < m; ++i)
    if (l[i] > u[i])
      return OSQP_DATA_VALIDATION_ERROR;
  if (settings->max_iter <= 0 || settings->rho <= 0 || settings->eps_abs < 0 || settings->eps_rel < 0)
    return OSQP_SETTINGS_VALIDATION_ERROR;
  auto* s = new OSQPSolver();
  standin_last_settings() = *settings;
  ++st.alive;
  s->settings = new OSQPSettings(*settings);
  s->info = new OSQPInfo();
  s->info->status_val = OSQP_UNSOLVED;
  s->work = new OSQPWorkspace();
  auto& w = *s->work;
  w.m = m;
  w.n = n;
  w.Pp.assign(P->p, P->p + n + 1);
  w.Pi.assign(P->i, P->i + P->nzmax);
  w.Px.assign(P->x, P->x + P->nzmax);
  w.Ap.assign(A->p, A->p + n + 1);
  w.Ai.assign(A->i, A->i + A->nzmax);
  w.Ax.assign(A->x, A->x + A->nzmax);
  w.q.assign(q, q + n);
  w.l.assign(l, l + m);
  w.u.assign(u, u + m);
  w.x.assign(static_cast<std::size_t>(n), 0.0);
  w.y.assign(static_cast<std::size_t>(m), 0.0);
  s->solution = new OSQPSolution{ w.x.data(), w.y.data(), w.y.data(), w.x.data() };
  *out = s;
  const long long e = st.setup_error;
  st.setup_error = 0;
  return e;  // other errors come after the solver has been allocated
}
inline OSQPInt osqp_update_data_vec(OSQPSolver* s, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u)
{
  auto& st = standin::state();
  if (st.refuse_update)
  {
    st.refuse_update = false;
    return OSQP_DATA_VALIDATION_ERROR;
  }
  auto& w = *s->work;
  for (OSQPInt i = 0; i < w.m; ++i)
    if (l[i] > u[i])
      return OSQP_DATA_VALIDATION_ERROR;
  w.q.assign(q, q + w.n);
  w.l.assign(l, l + w.m);
  w.u.assign(u, u + w.m);
  ++st.updates;
  return 0;
}
// new values in the places there are
inline OSQPInt osqp_update_data_mat(OSQPSolver* s,
                                    const OSQPFloat* Px,
                                    const OSQPInt* Px_idx,
                                    OSQPInt P_n,
                                    const OSQPFloat* Ax,
                                    const OSQPInt* Ax_idx,
                                    OSQPInt A_n)
{
  auto& w = *s->work;
  auto put = [](std::vector<double>& v, const double* x, const OSQPInt* idx, OSQPInt n) {
    if (x == nullptr)
      return true;
    if (n > static_cast<OSQPInt>(v.size()))
      return false;
    for (OSQPInt k = 0; k < (idx ? n : static_cast<OSQPInt>(v.size())); ++k)
      v[static_cast<std::size_t>(idx ? idx[k] : k)] = x[k];
    return true;
  };
  if (!put(w.Px, Px, Px_idx, P_n) || !put(w.Ax, Ax, Ax_idx, A_n))
    return OSQP_DATA_VALIDATION_ERROR;
  return 0;
}
inline OSQPInt osqp_warm_start(OSQPSolver* s, const OSQPFloat* x, const OSQPFloat* y)
{
  auto& st = standin::state();
  ++st.warm_starts;
  if (x)
    st.warm_x.push_back(Eigen::Map<const Eigen::VectorXd>(x, s->work->n));
  if (y)
    st.warm_y.push_back(Eigen::Map<const Eigen::VectorXd>(y, s->work->m));
  return 0;
}
inline OSQPInt osqp_solve(OSQPSolver* s)
{
  auto& st = standin::state();
  auto& w = *s->work;
  standin::Problem p;
  p.H = Eigen::MatrixXd::Zero(w.n, w.n);
  p.A = Eigen::MatrixXd::Zero(w.m, w.n);
  for (OSQPInt j = 0; j < w.n; ++j)
  {
    for (OSQPInt k = w.Pp[static_cast<std::size_t>(j)]; k < w.Pp[static_cast<std::size_t>(j) + 1]; ++k)
    {
      const OSQPInt i = w.Pi[static_cast<std::size_t>(k)];
      p.H(i, j) += w.Px[static_cast<std::size_t>(k)];
      if (i != j)
        p.H(j, i) += w.Px[static_cast<std::size_t>(k)];
    }
    for (OSQPInt k = w.Ap[static_cast<std::size_t>(j)]; k < w.Ap[static_cast<std::size_t>(j) + 1]; ++k)
      p.A(w.Ai[static_cast<std::size_t>(k)], j) += w.Ax[static_cast<std::size_t>(k)];
  }
  p.c = Eigen::Map<Eigen::VectorXd>(w.q.data(), w.n);
  p.l = Eigen::Map<Eigen::VectorXd>(w.l.data(), w.m);
  p.u = Eigen::Map<Eigen::VectorXd>(w.u.data(), w.m);
  p.lb = Eigen::VectorXd::Constant(w.n, -INFINITY);
  p.ub = Eigen::VectorXd::Constant(w.n, INFINITY);
  ++st.solves;
  if (st.on_solve)
    st.on_solve(p);
  else
    st.solved.push_back(p);
  const long long r = st.retcode;
  st.retcode = 0;
  if (r != 0)
    return r;
  s->info->status_val = st.status;
  for (OSQPInt j = 0; j < w.n; ++j)
    w.x[static_cast<std::size_t>(j)] = j < st.x.size() ? st.x[j] : 0;
  s->settings->rho *= 1.5;  // adapted
  return 0;
}
#endif

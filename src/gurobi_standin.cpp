// Changes to a model are pending until it is updated or optimized; what is not there yet has no index.
#include <cmath>
#include <cstring>
#include <fstream>
#include <standin.h>
extern "C" {
#include "gurobi_c.h"
}
struct _GRBenv
{
  int output{ 1 };
};
namespace
{
struct V
{
  double lb, ub, obj{ 0 }, x{ 0 };
  bool gone{ false };
};
struct Row
{
  std::vector<std::pair<int, double>> t;  // variables by their identity
  char sense;
  double rhs;
  bool gone{ false };
};
struct QRow
{
  std::vector<std::pair<int, double>> t;
  std::vector<std::pair<std::pair<int, int>, double>> q;
  double rhs;
};
}  // namespace
struct _GRBmodel
{
  std::vector<V> all;            // by identity
  std::vector<int> vars, added;  // identities of the variables by index
  std::vector<Row> rows, new_rows;
  std::vector<QRow> quads;
  std::vector<std::pair<std::pair<int, int>, double>> q;
  double objcon{ 0 };
  int status{ GRB_LOADED };
  double objval{ 0 };
  bool have_x{ false };
};
namespace
{
bool bad(const GRBmodel* m, int n, const int* ind)
{
  for (int i = 0; i < n; ++i)
    if (ind[i] < 0 || ind[i] >= static_cast<int>(m->vars.size()))
      return true;
  return false;
}
std::vector<std::pair<int, double>> terms(const GRBmodel* m, int n, const int* ind, const double* v)
{
  std::vector<std::pair<int, double>> t;
  for (int i = 0; i < n; ++i)
    t.emplace_back(m->vars[static_cast<std::size_t>(ind[i])], v[i]);
  return t;
}
}  // namespace
extern "C" {
int GRBloadenv(GRBenv** env, const char*)
{
  static GRBenv e;
  *env = &e;
  return 0;
}
int GRBsetintparam(GRBenv* env, const char*, int v)
{
  env->output = v;
  return 0;
}
int GRBnewmodel(GRBenv*, GRBmodel** m, const char*, int, double*, double*, double*, char*, char**)
{
  *m = new GRBmodel();
  ++standin::state().alive;
  return 0;
}
int GRBfreemodel(GRBmodel* m)
{
  --standin::state().alive;
  delete m;
  return 0;
}
int GRBaddvar(GRBmodel* m, int, int*, double*, double obj, double lb, double ub, char, const char*)
{
  m->all.push_back({ lb, ub, obj });
  m->added.push_back(static_cast<int>(m->all.size()) - 1);
  return 0;
}
int GRBaddconstr(GRBmodel* m, int n, int* ind, double* val, char sense, double rhs, const char*)
{
  if (bad(m, n, ind))
    return 10006;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (ind[i] == ind[j])
        return 10004;  // a variable twice
  m->new_rows.push_back({ terms(m, n, ind, val), sense, rhs });
  return 0;
}
int GRBaddqconstr(GRBmodel* m, int nl, int* li, double* lv, int nq, int* qr, int* qc, double* qv, char sense, double rhs, const char*)
{
  if (bad(m, nl, li) || bad(m, nq, qr) || bad(m, nq, qc) || sense != GRB_LESS_EQUAL)
    return 10006;
  QRow r;
  r.t = terms(m, nl, li, lv);
  for (int i = 0; i < nq; ++i)
    r.q.push_back({ { m->vars[static_cast<std::size_t>(qr[i])], m->vars[static_cast<std::size_t>(qc[i])] }, qv[i] });
  r.rhs = rhs;
  m->quads.push_back(r);
  return 0;
}
int GRBdelvars(GRBmodel* m, int n, int* ind)
{
  if (bad(m, n, ind))
    return 10006;
  for (int i = 0; i < n; ++i)
    m->all[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(ind[i])])].gone = true;
  return 0;
}
int GRBdelconstrs(GRBmodel* m, int n, int* ind)
{
  for (int i = 0; i < n; ++i)
    if (ind[i] < 0 || ind[i] >= static_cast<int>(m->rows.size()))
      return 10006;
  for (int i = 0; i < n; ++i)
    m->rows[static_cast<std::size_t>(ind[i])].gone = true;
  return 0;
}
int GRBsetdblattrlist(GRBmodel* m, const char* a, int n, int* ind, double* v)
{
  if (bad(m, n, ind))
    return 10006;
  for (int i = 0; i < n; ++i)
  {
    V& x = m->all[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(ind[i])])];
    if (!std::strcmp(a, GRB_DBL_ATTR_LB))
      x.lb = v[i];
    else if (!std::strcmp(a, GRB_DBL_ATTR_UB))
      x.ub = v[i];
    else
      return 10004;
  }
  return 0;
}
int GRBgetdblattrlist(GRBmodel* m, const char* a, int n, int* ind, double* v)
{
  if (bad(m, n, ind))
    return 10006;
  if (std::strcmp(a, GRB_DBL_ATTR_X) || !m->have_x)
    return 10005;
  for (int i = 0; i < n; ++i)
    v[i] = m->all[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(ind[i])])].x;
  return 0;
}
int GRBsetdblattrarray(GRBmodel* m, const char* a, int first, int n, double* v)
{
  if (std::strcmp(a, "Obj") || first != 0 || n > static_cast<int>(m->vars.size()))
    return 10004;
  for (int i = 0; i < n; ++i)
    m->all[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(i)])].obj = v[i];
  return 0;
}
int GRBsetdblattr(GRBmodel* m, const char* a, double v)
{
  if (std::strcmp(a, "ObjCon"))
    return 10004;
  m->objcon = v;
  return 0;
}
int GRBgetdblattr(GRBmodel* m, const char*, double* v)
{
  *v = m->objval;
  return 0;
}
int GRBgetintattr(GRBmodel* m, const char* a, int* v)
{
  *v = std::strcmp(a, GRB_INT_ATTR_STATUS) == 0 ? m->status : static_cast<int>(m->vars.size());
  return 0;
}
int GRBdelq(GRBmodel* m)
{
  m->q.clear();
  return 0;
}
int GRBaddqpterms(GRBmodel* m, int n, int* r, int* c, double* v)
{
  if (bad(m, n, r) || bad(m, n, c))
    return 10006;
  for (int i = 0; i < n; ++i)
    m->q.push_back({ { m->vars[static_cast<std::size_t>(r[i])], m->vars[static_cast<std::size_t>(c[i])] }, v[i] });
  return 0;
}
int GRBupdatemodel(GRBmodel* m)
{
  m->vars.insert(m->vars.end(), m->added.begin(), m->added.end());
  m->added.clear();
  std::vector<int> left;
  for (int i : m->vars)
    if (!m->all[static_cast<std::size_t>(i)].gone)
      left.push_back(i);
  m->vars = left;
  m->rows.insert(m->rows.end(), m->new_rows.begin(), m->new_rows.end());
  m->new_rows.clear();
  std::vector<Row> rows;
  for (auto& r : m->rows)
    if (!r.gone)
      rows.push_back(r);
  m->rows = rows;
  return 0;
}
int GRBoptimize(GRBmodel* m)
{
  GRBupdatemodel(m);
  auto& st = standin::state();
  const auto n = static_cast<long>(m->vars.size());
  std::vector<long> at(m->all.size(), -1);
  for (long i = 0; i < n; ++i)
    at[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(i)])] = i;
  standin::Problem p;
  p.H = Eigen::MatrixXd::Zero(n, n);
  p.c = p.lb = p.ub = Eigen::VectorXd::Zero(n);
  p.c0 = m->objcon;
  for (long i = 0; i < n; ++i)
  {
    const V& v = m->all[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(i)])];
    p.c[i] = v.obj;
    p.lb[i] = v.lb;
    p.ub[i] = v.ub;
  }
  auto col = [&](int id) { return at[static_cast<std::size_t>(id)]; };
  for (auto& t : m->q)
    if (col(t.first.first) >= 0 && col(t.first.second) >= 0)
    {
      p.H(col(t.first.first), col(t.first.second)) += t.second;
      p.H(col(t.first.second), col(t.first.first)) += t.second;
    }
  const auto k = static_cast<long>(m->rows.size());
  p.A = Eigen::MatrixXd::Zero(k, n);
  p.l = Eigen::VectorXd::Constant(k, -INFINITY);
  p.u = Eigen::VectorXd::Zero(k);
  for (long i = 0; i < k; ++i)
  {
    const Row& r = m->rows[static_cast<std::size_t>(i)];
    for (auto& t : r.t)
      if (col(t.first) >= 0)
        p.A(i, col(t.first)) += t.second;
    p.u[i] = r.rhs;
    if (r.sense == GRB_EQUAL)
      p.l[i] = r.rhs;
  }
  for (auto& q : m->quads)
  {
    standin::Problem::Quad o;
    o.Q = Eigen::MatrixXd::Zero(n, n);
    o.a = Eigen::VectorXd::Zero(n);
    o.b = q.rhs;
    for (auto& t : q.t)
      if (col(t.first) >= 0)
        o.a[col(t.first)] += t.second;
    for (auto& t : q.q)
      if (col(t.first.first) >= 0 && col(t.first.second) >= 0)
        o.Q(col(t.first.first), col(t.first.second)) += t.second;
    p.quads.push_back(o);
  }
  st.solved.push_back(p);
  ++st.solves;
  m->status = st.status;
  m->have_x = st.status == GRB_OPTIMAL || st.status == GRB_SUBOPTIMAL;
  for (long i = 0; i < n; ++i)
    m->all[static_cast<std::size_t>(m->vars[static_cast<std::size_t>(i)])].x = i < st.x.size() ? st.x[i] : 0;
  return 0;
}
int GRBcomputeIIS(GRBmodel*) { return 0; }
int GRBfeasrelax(GRBmodel*, int, int, double*, double*, double*, double*) { return 0; }
int GRBwrite(GRBmodel*, const char* name)
{
  std::ofstream(name) << "model\n";
  return 0;
}
char* GRBgeterrormsg(GRBenv*)
{
  static char msg[] = "error";
  return msg;
}
}

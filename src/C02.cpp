// C02: array, slicing, interpolation and pose helpers
#include <trajopt_common/basic_array.hpp>
#include <trajopt_common/eigen_conversions.hpp>
#include <trajopt_common/eigen_slicing.hpp>
#include <trajopt_common/interpolation.hpp>
#include <trajopt_common/stl_to_string.hpp>
#include <trajopt_common/utils.hpp>
#include <trajopt_common/vector_ops.hpp>

#include <algorithm>
#include <map>
#include <set>

#include "pbt.h"

PBT_PROPERTY("C02",
             "Cases: arrays of up to 7x7 distinct entries with every in-range block/row/column extraction compared entry by entry "
             "with index arithmetic; sorted sample tables with queries inside, at and beyond the ends compared with linear "
             "interpolation; vectors with index lists; twists applied to random poses compared with the exponential map. "
             "Non-trivial: the extracted part is non-empty and does not start at the origin (arrays), a query lies strictly "
             "inside the table (interpolation), the list has at least two entries (lists), the twist rotates (poses).");

using trajopt_common::BasicArray;

PBT_CASES(array_parts, 600000, 6000000)
{
  const int nr = g.count(0, 7, 24), nc = g.count(0, 7, 24);
  std::vector<double> data;
  for (int i = 0; i < nr * nc; ++i)
    data.push_back(1000 + 7 * i);
  const bool from_data = g.boolean();
  BasicArray<double> a;
  if (from_data)
    a = BasicArray<double>(nr, nc, data.data());
  else
  {
    a = BasicArray<double>(g.range(0, 3), g.range(0, 3));
    a.resize(nr, nc);
    for (int r = 0; r < nr; ++r)
      for (int c = 0; c < nc; ++c)
        a(r, c) = data[static_cast<std::size_t>(r * nc + c)];
  }
  if (g.boolean())
  {
    BasicArray<double> b(a);
    if (nr * nc > 0)
      a(0, 0) = -1;  // a copy is independent
    a = b;
  }
  auto ref = [&](int r, int c) { return data[static_cast<std::size_t>(r * nc + c)]; };
  g.log() << nr << "x" << nc;
  CHECK(a.rows() == nr && a.cols() == nc && a.size() == nr * nc);
  for (int r = 0; r < nr; ++r)
    for (int c = 0; c < nc; ++c)
      CHECK(a(r, c) == ref(r, c) && a.at(r, c) == ref(r, c), << "entry " << r << "," << c);
  CHECK(a.flatten() == data, << "flattening is row by row");

  const int r0 = g.range(0, nr), c0 = g.range(0, nc), n = g.range(0, nr - r0), m = g.range(0, nc - c0);
  g.log() << " block at " << r0 << "," << c0 << " of " << n << "x" << m;
  auto same = [&](const BasicArray<double>& p, int pr, int pc, int pn, int pm, const char* what) {
    CHECK(p.rows() == pn && p.cols() == pm, << what << " has the wrong shape");
    for (int r = 0; r < pn; ++r)
      for (int c = 0; c < pm; ++c)
        CHECK(p(r, c) == ref(pr + r, pc + c), << what << " entry " << r << "," << c);
  };
  same(a.block(r0, c0, n, m), r0, c0, n, m, "block");
  same(a.middleRows(r0, n), r0, 0, n, nc, "middleRows");
  same(a.topRows(n), 0, 0, n, nc, "topRows");
  same(a.bottomRows(n), nr - n, 0, n, nc, "bottomRows");
  if (r0 < nr)
  {
    auto row = a.row(r0);
    CHECK(static_cast<int>(row.size()) == nc);
    for (int c = 0; c < nc; ++c)
      CHECK(row[static_cast<std::size_t>(c)] == ref(r0, c), << "row entry " << c);
    auto rb = a.rblock(r0, c0, m);
    CHECK(static_cast<int>(rb.size()) == m);
    for (int c = 0; c < m; ++c)
      CHECK(rb[static_cast<std::size_t>(c)] == ref(r0, c0 + c), << "row part entry " << c);
  }
  if (c0 < nc)
  {
    auto col = a.col(c0);
    CHECK(static_cast<int>(col.size()) == nr);
    for (int r = 0; r < nr; ++r)
      CHECK(col[static_cast<std::size_t>(r)] == ref(r, c0), << "column entry " << r);
    auto cb = a.cblock(r0, c0, n);
    CHECK(static_cast<int>(cb.size()) == n);
    for (int r = 0; r < n; ++r)
      CHECK(cb[static_cast<std::size_t>(r)] == ref(r0 + r, c0), << "column part entry " << r);
  }
  if (n > 0 && m > 0 && (r0 > 0 || c0 > 0))
    g.nontrivial();
}

PBT_CASES(table_interpolation, 600000, 6000000)
{
  const int n_old = g.count(1, 8, 40), n_new = g.count(0, 10, 60), dim = g.range(1, 3);
  Eigen::VectorXd x(n_old);
  double v = g.num(3);
  for (int i = 0; i < n_old; ++i)
  {
    x[i] = v;
    v += 0.125 + g.real(0, 2);
  }
  Eigen::MatrixXd y(n_old, dim);
  for (int i = 0; i < n_old; ++i)
    for (int j = 0; j < dim; ++j)
      y(i, j) = g.num(10);
  std::vector<double> q;
  for (int i = 0; i < n_new; ++i)
  {
    if (g.chance(1, 3))
      q.push_back(x[g.range(0, n_old - 1)]);
    else
      q.push_back(x[0] - 1 + g.real(0, x[n_old - 1] - x[0] + 2));
  }
  std::sort(q.begin(), q.end());
  Eigen::VectorXd xn = Eigen::Map<Eigen::VectorXd>(q.data(), n_new);
  g.log() << "x " << pbt::mat(x.transpose()) << " y " << pbt::mat(y) << " at " << pbt::mat(xn.transpose());
  const Eigen::MatrixXd r = trajopt_common::interp2d<Eigen::MatrixXd>(xn, x, y);
  CHECK(r.rows() == n_new && r.cols() == dim);
  for (int i = 0; i < n_new; ++i)
  {
    Eigen::RowVectorXd want;
    if (xn[i] <= x[0])
      want = y.row(0);
    else if (xn[i] >= x[n_old - 1])
      want = y.row(n_old - 1);
    else
    {
      int k = 0;
      while (!(x[k] <= xn[i] && xn[i] <= x[k + 1]))
        ++k;
      const double t = (xn[i] - x[k]) / (x[k + 1] - x[k]);
      want = (1 - t) * y.row(k) + t * y.row(k + 1);
      g.nontrivial();
    }
    for (int j = 0; j < dim; ++j)
      CHECK_NEAR(r(i, j), want[j], 1e-9, 1e-9, << "query " << i);
  }
}

PBT_CASES(lists_and_text, 600000, 4000000)
{
  const int n = g.count(0, 9, 80);
  Eigen::VectorXd v(n);
  std::vector<double> dv;
  std::vector<int> iv;
  for (int i = 0; i < n; ++i)
  {
    v[i] = g.chance(1, 3) ? 0.0 : g.num(9);
    dv.push_back(v[i]);
    iv.push_back(g.range(-9, 9));
  }
  std::vector<int> inds;
  if (n > 0)
    for (int i = g.count(0, 8, 60); i > 0; --i)
      inds.push_back(g.range(0, n - 1));
  g.log() << "v " << pbt::mat(v.transpose()) << " indices " << trajopt_common::Str(inds);
  const Eigen::VectorXd s = trajopt_common::fancySlice(v, inds);
  CHECK(s.size() == static_cast<long>(inds.size()));
  for (std::size_t i = 0; i < inds.size(); ++i)
    CHECK(s[static_cast<long>(i)] == v[inds[i]]);
  const std::vector<int> nz = trajopt_common::flatnonzero(v);
  std::vector<int> want;
  for (int i = 0; i < n; ++i)
    if (v[i] != 0)
      want.push_back(i);
  CHECK(nz == want, << "non-zero positions");
  CHECK(trajopt_common::toDblVec(v) == dv);
  CHECK(trajopt_common::toVectorXd(dv) == v, << "vector round trip");
  const std::vector<int> ar = trajopt_common::arange(n);
  CHECK(static_cast<int>(ar.size()) == n);
  for (int i = 0; i < n; ++i)
    CHECK(ar[static_cast<std::size_t>(i)] == i);
  std::vector<int> cat(iv);
  cat.insert(cat.end(), inds.begin(), inds.end());
  CHECK(trajopt_common::concat(iv, inds) == cat);

  // text: reading the numbers back gives the list
  std::string t = trajopt_common::Str(iv);
  CHECK(t.size() >= 2 && t.front() == '(' && t.back() == ')');
  for (auto& c : t)
    if (c == '(' || c == ')' || c == ',')
      c = ' ';
  std::istringstream is(t);
  std::vector<int> back;
  int k = 0;
  while (is >> k)
    back.push_back(k);
  CHECK(back == iv, << "text of a list");
  const std::set<int> st(iv.begin(), iv.end());
  t = trajopt_common::Str(st);
  CHECK(t.front() == '{' && t.back() == '}');
  for (auto& c : t)
    if (c == '{' || c == '}' || c == ',')
      c = ' ';
  std::istringstream is2(t);
  std::set<int> back2;
  while (is2 >> k)
    back2.insert(k);
  CHECK(back2 == st, << "text of a set");
  // row-major conversion of a matrix
  const int mr = g.range(1, 3), mc = g.range(1, 3);
  Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(mr, mc);
  for (int i = 0; i < mr; ++i)
    for (int j = 0; j < mc; ++j)
      m(i, j) = 10 * i + j;
  const auto md = trajopt_common::toDblVec(m);
  CHECK(static_cast<int>(md.size()) == mr * mc);
  for (int i = 0; i < mr; ++i)
    for (int j = 0; j < mc; ++j)
      CHECK(md[static_cast<std::size_t>(i * mc + j)] == m(i, j));
  if (n >= 2 && inds.size() >= 2)
    g.nontrivial();
}

PBT_CASES(twists, 300000, 3000000)
{
  auto vec = [&](double mag) { return Eigen::Vector3d(g.num(mag), g.num(mag), g.num(mag)); };
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  const Eigen::Vector3d ax = vec(1);
  if (ax.norm() > 1e-3)
    t.linear() = Eigen::AngleAxisd(g.real(-3, 3), ax.normalized()).toRotationMatrix();
  t.translation() = vec(5);
  Eigen::Matrix<double, 6, 1> tw;
  tw.head<3>() = vec(2);
  tw.tail<3>() = vec(2);
  const double dt = g.chance(1, 4) ? 1e-5 : g.real(0, 1.2);
  g.log() << "pose " << pbt::mat(t.matrix()) << " twist " << pbt::mat(tw.transpose()) << " dt " << dt;
  const Eigen::Isometry3d r = trajopt_common::addTwist(t, tw, dt);
  // the linear part moves the origin, the angular part (both in the base frame) turns the axes
  const Eigen::Vector3d p = t.translation() + tw.head<3>() * dt;
  Eigen::Matrix3d rot = t.linear();
  const Eigen::Vector3d w = tw.tail<3>() * dt;
  if (w.norm() > 0)
  {
    // Rodrigues, in the base frame
    const Eigen::Vector3d a = w.normalized();
    Eigen::Matrix3d k;
    k << 0, -a.z(), a.y(), a.z(), 0, -a.x(), -a.y(), a.x(), 0;
    const double th = w.norm();
    rot = (Eigen::Matrix3d::Identity() + std::sin(th) * k + (1 - std::cos(th)) * k * k) * t.linear();
    g.nontrivial();
  }
  CHECK((r.translation() - p).norm() < 1e-9, << "translation " << pbt::mat(r.translation().transpose()));
  CHECK((r.linear() - rot).norm() < 1e-7, << "rotation " << pbt::mat(r.linear()) << " expected " << pbt::mat(rot));
  CHECK((r.matrix().row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0, << "the result is a pose");
}

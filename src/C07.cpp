// C07: messages to and from the solver process arrive as they were sent
#include <trajopt_common/macros.h>

#include <trajopt_sco/bpmpd_io.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/solver_interface.hpp>

#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <thread>

#include "pbt.h"

PBT_PROPERTY("C07",
             "Cases: up to three consecutive solver requests and replies with vectors of 0 to 30000 entries, sent through a relay that "
             "passes the bytes on in pieces of random size (from single bytes to more than a pipe holds), and whole models of up to "
             "12000 variables solved by the real solver process. Non-trivial: a message larger than one pipe buffer, or one that "
             "is delivered in at least two pieces.");

namespace
{
struct Relay
{  // a -> b with random piece sizes
  int in[2], out[2];
  std::thread t;
  std::size_t pieces{ 0 };
  explicit Relay(std::vector<std::size_t> sizes)
  {
    if (pipe(in) || pipe(out))
      throw pbt::Failure("harness: no pipe");
    t = std::thread([this, sizes]() {
      std::vector<char> buf(1 << 17);
      std::size_t k = 0;
      while (true)
      {
        const ssize_t n = ::read(in[0], buf.data(), std::min(buf.size(), sizes[k++ % sizes.size()]));
        if (n <= 0)
          break;
        ssize_t done = 0;
        while (done < n)
        {
          const ssize_t w = ::write(out[1], buf.data() + done, static_cast<std::size_t>(n - done));
          if (w <= 0)
            return;
          done += w;
        }
        ++pieces;
        if (pieces % 64 == 0)
          std::this_thread::yield();
      }
      ::close(out[1]);
    });
  }
  void finish()
  {
    ::close(in[1]);
    t.join();
    ::close(in[0]);
    ::close(out[0]);
  }
};
template <class T>
std::vector<T> vec(pbt::Gen& g, int max_len)
{
  const int kind = g.range(0, 5);
  std::size_t n = kind == 0 ? 0 : kind < 4 ? static_cast<std::size_t>(g.range(0, 20)) : static_cast<std::size_t>(g.range(0, max_len));
  std::vector<T> v(n);
  uint64_t s = g.draw(1000000);
  for (auto& x : v)
  {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    x = static_cast<T>(static_cast<int64_t>(s >> 33) - (1LL << 30)) / static_cast<T>(3);
  }
  return v;
}
template <class T>
void same(pbt::Gen& g, const std::vector<T>& a, const std::vector<T>& b, const char* what)
{
  CHECK(a.size() == b.size(), << what << " arrives with " << a.size() << " entries of " << b.size());
  for (std::size_t i = 0; i < a.size(); ++i)
    CHECK(a[i] == b[i], << what << " entry " << i);
}
}  // namespace

PBT_CASES(messages, 20000, 300000)
{
  const int count = g.range(1, 3);
  const bool big = g.chance(1, 3);
  const int max_len = big ? 30000 : 1500;
  std::vector<bpmpd_io::bpmpd_input> in(static_cast<std::size_t>(count));
  std::vector<bpmpd_io::bpmpd_output> out(static_cast<std::size_t>(count));
  std::size_t bytes = 0;
  for (auto& b : in)
  {
    auto acc = [&](auto v) {
      bytes += v.size() * sizeof(v[0]);
      return v;
    };
    b = bpmpd_io::bpmpd_input(g.range(0, 1000), g.range(0, 1000), g.range(-5, 1000), g.range(0, 7), g.range(0, 9),
                              acc(vec<int>(g, max_len)), acc(vec<int>(g, max_len)), acc(vec<double>(g, max_len)),
                              acc(vec<int>(g, max_len)), acc(vec<int>(g, max_len)), acc(vec<double>(g, max_len)),
                              acc(vec<double>(g, max_len)), acc(vec<double>(g, max_len)), acc(vec<double>(g, max_len)),
                              acc(vec<double>(g, max_len)));
  }
  for (auto& b : out)
    b = bpmpd_io::bpmpd_output(vec<double>(g, max_len), vec<double>(g, max_len), vec<int>(g, max_len), g.range(-3, 4), g.num(100));
  std::vector<std::size_t> sizes;
  const int pieces = g.range(1, 4);
  for (int i = 0; i < pieces; ++i)
    sizes.push_back(g.pick(std::vector<std::size_t>{ 1 << 17, 65536, 65537, 4096, 1000, 8, 13, 100, 3 }));
  if (bytes > 200000)  // keep big messages affordable
    for (auto& s : sizes)
      s = std::max<std::size_t>(s, 500);
  g.log() << count << " messages, " << bytes << " bytes of vectors, pieces of";
  for (auto s : sizes)
    g.log() << " " << s;
  Relay r(sizes);
  std::thread writer([&]() {
    for (std::size_t i = 0; i < in.size(); ++i)
    {
      bpmpd_io::bpmpd_input a = in[i];
      bpmpd_io::ser(r.in[1], a, bpmpd_io::SER);
      bpmpd_io::bpmpd_output b = out[i];
      bpmpd_io::ser(r.in[1], b, bpmpd_io::SER);
    }
  });
  std::vector<bpmpd_io::bpmpd_input> in2(in.size());
  std::vector<bpmpd_io::bpmpd_output> out2(out.size());
  for (std::size_t i = 0; i < in.size(); ++i)
  {
    if (g.boolean())
    {  // the target may hold an old message
      in2[i] = in[0];
      out2[i] = out[0];
    }
    bpmpd_io::ser(r.out[0], in2[i], bpmpd_io::DESER);
    bpmpd_io::ser(r.out[0], out2[i], bpmpd_io::DESER);
  }
  writer.join();
  r.finish();
  for (std::size_t i = 0; i < in.size(); ++i)
  {
    CHECK(in2[i].m == in[i].m && in2[i].n == in[i].n && in2[i].nz == in[i].nz && in2[i].qn == in[i].qn && in2[i].qnz == in[i].qnz);
    same(g, in2[i].acolcnt, in[i].acolcnt, "acolcnt");
    same(g, in2[i].acolidx, in[i].acolidx, "acolidx");
    same(g, in2[i].acolnzs, in[i].acolnzs, "acolnzs");
    same(g, in2[i].qcolcnt, in[i].qcolcnt, "qcolcnt");
    same(g, in2[i].qcolidx, in[i].qcolidx, "qcolidx");
    same(g, in2[i].qcolnzs, in[i].qcolnzs, "qcolnzs");
    same(g, in2[i].rhs, in[i].rhs, "rhs");
    same(g, in2[i].obj, in[i].obj, "obj");
    same(g, in2[i].lbound, in[i].lbound, "lbound");
    same(g, in2[i].ubound, in[i].ubound, "ubound");
    same(g, out2[i].primal, out[i].primal, "primal");
    same(g, out2[i].dual, out[i].dual, "dual");
    same(g, out2[i].status, out[i].status, "status");
    CHECK(out2[i].code == out[i].code && out2[i].opt == out[i].opt);
  }
  if (bytes > 65536 || r.pieces > 1)
    g.nontrivial();
}

// A separable problem of any size, whose solution is known
PBT_CASES(large_models, 300, 6000)
{
  using namespace sco;
  const int n = g.boolean() ? g.range(1, 200) : g.range(1, 12000);
  Model::Ptr m = createModel(ModelType(ModelType::BPMPD));
  VarVector v;
  std::vector<double> want;
  QuadExpr obj;
  for (int i = 0; i < n; ++i)
  {
    const double lo = (i * 37 % 11) - 5, hi = lo + 1 + i % 3, target = (i * 53 % 17) - 8;
    v.push_back(m->addVar("x" + std::to_string(i), lo, hi));
    exprInc(obj, exprSquare(v.back() - target));
    want.push_back(std::min(std::max(target, lo), hi));
  }
  m->update();
  const int rows = g.boolean() ? 0 : g.range(1, std::max(1, n / 2));
  for (int i = 0; i < rows; ++i)
    m->addIneqCnt(v[static_cast<std::size_t>(i)] + v[static_cast<std::size_t>((i * 7 + 1) % n)] - 1000, "");
  m->setObjective(obj);
  g.log() << n << " variables, " << rows << " constraints";
  CHECK(m->optimize() == CVX_SOLVED);
  const DblVec x = m->getVarValues(v);
  for (int i = 0; i < n; ++i)
    CHECK_NEAR(x[static_cast<std::size_t>(i)], want[static_cast<std::size_t>(i)], 0.05, 0.01, << "variable " << i);
  if (n > 1000)
    g.nontrivial();
}

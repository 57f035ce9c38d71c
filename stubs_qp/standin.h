// Stand-ins for the QP libraries that are not installed here (OSQP, qpOASES, Gurobi): they take over problems as the libraries'
// documentation says, keep every problem they are asked to solve, and answer as the check tells them to.
#ifndef VERIF_STUB_STANDIN_H
#define VERIF_STUB_STANDIN_H
#include <Eigen/Dense>

#include <functional>
#include <limits>
#include <string>
#include <vector>

namespace standin
{
// min 1/2 x'Hx + c'x + c0  s.t.  l <= Ax <= u, lb <= x <= ub
struct Problem
{
  Eigen::MatrixXd H;
  Eigen::VectorXd c;
  double c0{ 0 };
  Eigen::MatrixXd A;
  Eigen::VectorXd l, u, lb, ub;
  struct Quad  // x'Qx + a'x <= b
  {
    Eigen::MatrixXd Q;
    Eigen::VectorXd a;
    double b{ 0 };
  };
  std::vector<Quad> quads;
};
struct State
{
  // what the library is to answer
  long long retcode{ 0 };    // of the next solve
  int status{ 1 };           // of the next solve, in the library's terms
  bool refuse_hot{ false };  // qpOASES: the next hotstart fails
  int hot_steps{ 3 };        // qpOASES: working set changes a hotstart takes
  int init_steps{ 10 };      // qpOASES: working set changes an init takes
  long long setup_error{ 0 };   // OSQP: of the next setup
  bool refuse_update{ false };  // OSQP: the next update fails
  bool refuse_matrix{ false };  // the next update of a matrix
  Eigen::VectorXd x, y;         // the solution of the next solve
  std::function<void(const Problem&)> on_solve;  // called with every problem, may set the answer
  // what happened
  std::vector<Problem> solved;
  int setups{ 0 }, updates{ 0 }, warm_starts{ 0 }, solves{ 0 }, alive{ 0 };
  std::vector<Eigen::VectorXd> warm_x, warm_y;
};
inline State& state()
{
  static State s;
  return s;
}
}  // namespace standin
#endif

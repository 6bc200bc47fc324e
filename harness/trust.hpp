// Samples the contracts that the verifier assumes of Eigen, boost, crocoddyl and ProxQP (mimv/lib.py) against the installed
// libraries: `harness TRUST SEED COUNT SECONDS`. Bounded; supports the assumptions, decides no property.
#pragma once
#include <boost/circular_buffer.hpp>
#include <crocoddyl/core/solvers/ddp.hpp>
#include <crocoddyl/core/utils/exception.hpp>
#include <deque>

namespace trust {
typedef crocoddyl::SolverDDP Base;

struct Solver : public Base {
  using Base::Base;
};

static VectorXd with_nan(Rnd& r, VectorXd v) {
  if (v.size()) v[r.i(0, (int)v.size() - 1)] = NaN;
  return v;
}
static bool has_nan(const VectorXd& v) {
  for (int j = 0; j < v.size(); ++j)
    if (v[j] != v[j]) return true;
  return false;
}

static void crocoddyl_solver(Rnd& r) {
  Spec sp = rand_spec(r, r.p(0.5));
  Prob P = make_problem(r, sp);
  no_faults();
  const std::size_t T = P.T();
  Solver s(P.p);
  REQUIRE(!P.p->is_updated(), "TRUST problem is updated after construction");
  Traj xs, us;
  rand_traj(r, P, xs, us);
  // setCandidate copies its arguments and writes nothing else
  const Traj fs0 = s.fs_;
  const double cost0 = s.cost_, preg0 = s.preg_, dreg0 = s.dreg_;
  const std::size_t it0 = s.iter_;
  const bool f = r.p(0.5), was = s.was_feasible_ = r.p(0.5);
  const int emp = r.i(0, 5);
  s.setCandidate(emp == 0 || emp == 2 ? Traj() : xs, emp == 1 || emp == 2 ? Traj() : us, f);
  Traj ex = xs, eu = us;
  if (emp == 0 || emp == 2)
    for (auto& x : ex) x = P.st->zero();
  if (emp == 1 || emp == 2)
    for (auto& u : eu) u.setZero();
  REQUIRE(same(s.xs_, ex) && same(s.us_, eu) && s.is_feasible_ == f, "TRUST setCandidate | " << P.describe());
  REQUIRE(same(s.fs_, fs0) && close(s.cost_, cost0) && close(s.preg_, preg0) && close(s.dreg_, dreg0) && s.iter_ == it0 && s.was_feasible_ == was,
          "TRUST frame of setCandidate | " << P.describe());
  s.setCandidate(xs, us, f);
  // calc: the node datas hold the models' values at the trajectory, the result is their sum
  Eval e = evaluate(P, xs, us, true);
  const double c = P.p->calc(xs, us);
  auto data = [&](std::size_t t) { return t < T ? P.p->get_runningDatas()[t] : P.p->get_terminalData(); };
  double sum = 0;
  std::vector<double> costs;
  Traj nx, g;
  for (std::size_t t = 0; t <= T; ++t) {
    auto d = data(t);
    sum += d->cost;
    costs.push_back(d->cost);
    if (t < T) nx.push_back(d->xnext);
    g.push_back(d->g);
    REQUIRE(close(d->cost, e.d[t]->cost) && (t == T || same(d->xnext, e.d[t]->xnext)) && same(d->g, e.d[t]->g), "TRUST calc, node " << t << " | " << P.describe());
  }
  REQUIRE(close(sum, c), "TRUST calc returns the sum of the node costs | " << P.describe());
  // calcDiff: derivatives at the trajectory; costs, states and constraints stay
  const double c2 = P.p->calcDiff(xs, us);
  REQUIRE(close(c2, sum), "TRUST calcDiff returns the sum of the node costs | " << P.describe());
  for (std::size_t t = 0; t <= T; ++t) {
    auto d = data(t);
    REQUIRE(d->cost == costs[t] && (t == T || same(d->xnext, nx[t])) && same(d->g, g[t]), "TRUST frame of calcDiff | " << P.describe());
    REQUIRE(same(d->Lx, e.d[t]->Lx) && d->Lxx == e.d[t]->Lxx && d->Fx == e.d[t]->Fx && d->Gx == e.d[t]->Gx, "TRUST calcDiff, node " << t << " | " << P.describe());
    if (P.toys[t]->get_nu())
      REQUIRE(same(d->Lu, e.d[t]->Lu) && d->Luu == e.d[t]->Luu && d->Lxu == e.d[t]->Lxu && d->Fu == e.d[t]->Fu && d->Gu == e.d[t]->Gu,
              "TRUST calcDiff, node " << t << " | " << P.describe());
  }
  REQUIRE(!P.p->is_updated(), "TRUST problem is updated by its evaluation");
  // gaps, whatever the feasibility flags say
  s.is_feasible_ = r.p(0.5);
  s.was_feasible_ = r.p(0.5);
  for (auto& q : s.fs_) q.setConstant(7.);
  const bool f0 = s.is_feasible_, f1 = s.was_feasible_;
  s.computeDynamicFeasibility();
  REQUIRE(same(s.fs_, e.fs), "TRUST computeDynamicFeasibility (flags " << f0 << f1 << ") | " << P.describe());
  REQUIRE(same(s.xs_, xs) && same(s.us_, us), "TRUST frame of computeDynamicFeasibility | " << P.describe());
  // a model's calc writes its own data only and is a function of its arguments; without controls the two forms agree
  for (std::size_t t = 0; t <= T; ++t) {
    auto d = P.toys[t]->createData();
    if (P.toys[t]->get_nu() == 0) {
      auto d2 = P.toys[t]->createData();
      P.toys[t]->calc(d, xs[t]);
      P.toys[t]->calc(d2, xs[t], VectorXd::Zero(0));
      REQUIRE(close(d->cost, d2->cost), "TRUST calc without controls");
    }
  }
  // states
  const VectorXd x = rand_state(*P.st, r), z = VectorXd::Zero(P.ndx());
  VectorXd y(P.st->get_nx()), dx(P.ndx());
  P.st->integrate(x, z, y);
  REQUIRE(vclose(x, y, 1e-12), "TRUST integrate(x, 0) = x");
  P.st->diff(x, x, dx);
  REQUIRE(ninf(dx) <= 1e-12, "TRUST diff(x, x) = 0");
  const VectorXd v = r.v((int)P.ndx(), 0.5);
  P.st->integrate(x, v, y);
  P.st->diff(x, y, dx);
  REQUIRE(vclose(dx, v, 1e-9), "TRUST diff(x, integrate(x, v)) = v");
  // raiseIfNaN
  REQUIRE(crocoddyl::raiseIfNaN(NaN) && crocoddyl::raiseIfNaN(INF) && crocoddyl::raiseIfNaN(1e31) && !crocoddyl::raiseIfNaN(r.u(-1e6, 1e6)), "TRUST raiseIfNaN");
}

static void eigen(Rnd& r) {
  const int n = r.i(1, 9), m = r.i(1, 5);
  MatrixXd A = r.m(n, n, 1.);
  MatrixXd S = A * A.transpose() + 0.1 * MatrixXd::Identity(n, n);
  Eigen::LLT<MatrixXd> l(n);
  l.compute(S);
  REQUIRE(l.info() == Eigen::Success, "TRUST LLT of a positive definite matrix");
  MatrixXd B = r.m(n, m, 1.), X = l.solve(B), Y = B;
  l.solveInPlace(Y);
  REQUIRE((S * X - B).cwiseAbs().maxCoeff() < 1e-8 * (1 + X.cwiseAbs().maxCoeff()) && (X - Y).cwiseAbs().maxCoeff() < 1e-9 * (1 + X.cwiseAbs().maxCoeff()), "TRUST LLT solve");
  MatrixXd N = S;
  N(n - 1, n - 1) = -1.;
  l.compute(N);
  REQUIRE(l.info() != Eigen::Success, "TRUST LLT of an indefinite matrix reports failure");
  // the triangle that is read is the lower one
  MatrixXd L = S;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) L(i, j) = NaN;
  l.compute(L);
  REQUIRE((l.solve(B) - X).cwiseAbs().maxCoeff() < 1e-9 * (1 + X.cwiseAbs().maxCoeff()), "TRUST LLT reads the lower triangle");
  // NaN: kept by sums and 1-norms, by the object of cwiseMax, cwiseMin; dropped from their argument
  const VectorXd a = r.v(n), b = r.v(n), an = with_nan(r, a), zero = VectorXd::Zero(n);
  REQUIRE(std::isnan(an.lpNorm<1>()) && std::isnan(an.sum()) && std::isnan(an.dot(b)) && std::isnan((an - b).lpNorm<1>()) && std::isnan(an.squaredNorm()), "TRUST NaN in a 1-norm");
  REQUIRE(has_nan(an.cwiseMax(b)) && has_nan(an.cwiseMin(b)) && std::isnan((an - b).cwiseMax(zero).lpNorm<1>()) && std::isnan((b - an).cwiseMax(VectorXd::Zero(n)).lpNorm<1>()),
          "TRUST NaN in the object of cwiseMax");
  REQUIRE(!has_nan(b.cwiseMax(an)) && !has_nan(b.cwiseMin(an)), "TRUST NaN in the argument of cwiseMax");
  REQUIRE(an.hasNaN() && !a.hasNaN() && !an.allFinite() && a.allFinite() && std::isnan(std::max(NaN, 1.)) && std::max(1., NaN) == 1. && std::isnan(std::min(NaN, 1.)) && std::min(1., NaN) == 1.,
          "TRUST NaN tests");
  REQUIRE(has_nan(A * an) || n == 0, "TRUST NaN in a product");
  REQUIRE(close(a.lpNorm<Eigen::Infinity>(), ninf(a)) && close(a.lpNorm<1>(), a.cwiseAbs().sum()), "TRUST norms");
  const VectorXd e0(0);
  REQUIRE(e0.lpNorm<1>() == 0 && e0.lpNorm<Eigen::Infinity>() == 0 && e0.sum() == 0, "TRUST norms of an empty vector");
}

static void ring(Rnd& r) {
  const int cap = r.i(1, 6);
  boost::circular_buffer<double> q(cap);
  std::deque<double> d;
  std::size_t c = cap;
  for (int k = 0; k < 30; ++k) {
    switch (r.i(0, 5)) {
      case 0: {
        const std::size_t n = r.i(1, 7);
        q.resize(n, -1.);
        if (n > c) c = n;
        while (d.size() > n) d.pop_back();
        while (d.size() < n) d.push_back(-1.);
        break;
      }
      case 1: {
        const std::size_t n = r.i(1, 7);
        const bool rs = r.p(0.5);
        if (rs) q.rset_capacity(n); else q.set_capacity(n);
        c = n;
        while (d.size() > n) { if (rs) d.pop_front(); else d.pop_back(); }
        break;
      }
      default: {
        const double v = r.n();
        q.push_back(v);
        d.push_back(v);
        if (d.size() > c) d.pop_front();
      }
    }
    REQUIRE(q.size() == d.size() && q.capacity() == c, "TRUST circular_buffer: size or capacity");
    for (std::size_t i = 0; i < d.size(); ++i) REQUIRE(q[i] == d[i], "TRUST circular_buffer: element");
    if (d.size()) REQUIRE(q.back() == d.back(), "TRUST circular_buffer: back");
  }
}

static void qp(Rnd& r) {
  const int n = r.i(2, 6), ne = r.i(1, n - 1), ni = r.i(0, 3);
  MatrixXd A0 = r.m(n, n, 1.), H = A0 * A0.transpose() + 0.2 * MatrixXd::Identity(n, n), A = r.m(ne, n, 1.), C = r.m(ni, n, 1.);
  VectorXd g = r.v(n), x = r.v(n), b = A * x, l = C * x - VectorXd::Ones(ni), u = C * x + VectorXd::Ones(ni);
  proxsuite::proxqp::sparse::QP<double, long long> q(n, ne, ni);
  q.settings.eps_abs = 1e-9;
  q.settings.eps_rel = 0;
  {
    Eigen::SparseMatrix<double> Hs = H.sparseView(), As = A.sparseView(), Cs = C.sparseView();
    VectorXd gg = g, bb = b, ll = l, uu = u;
    q.init(Hs, gg, As, bb, Cs, ll, uu);
    // the arguments were copied
    Hs *= 7; As *= 7; Cs *= 7; gg *= 7; bb *= 7; ll *= 7; uu *= 7;
    q.solve();
  }
  REQUIRE(q.results.x.size() == n && q.results.y.size() == ne && q.results.z.size() == ni, "TRUST ProxQP: result sizes");
  if (q.results.info.status != proxsuite::proxqp::QPSolverOutput::PROXQP_SOLVED) return;
  REQUIRE(ninf(A * q.results.x - b) <= 1e-7, "TRUST ProxQP: equality rows");
  VectorXd st = H * q.results.x + g + A.transpose() * q.results.y;
  if (ni) st += C.transpose() * q.results.z;
  REQUIRE(ninf(st) <= 1e-6, "TRUST ProxQP: stationarity, sign of the multipliers");
}
}  // namespace trust

static void trust_sample(unsigned long seed) {
  Rnd r(seed);
  trust::crocoddyl_solver(r);
  trust::eigen(r);
  trust::ring(r);
  if (seed % 4 == 0) trust::qp(r);
}

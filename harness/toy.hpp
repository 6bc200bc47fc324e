// Random optimal-control problems, fault injection and reference evaluations for the replay harness.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include <crocoddyl/core/action-base.hpp>
#include <crocoddyl/core/optctrl/shooting.hpp>
#include <crocoddyl/core/states/euclidean.hpp>

using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef std::vector<VectorXd> Traj;
static const double INF = std::numeric_limits<double>::infinity();
static const double NaN = std::numeric_limits<double>::quiet_NaN();

struct Fail {
  std::string what;
};
#define REQUIRE(cond, msg)            \
  do {                                \
    if (!(cond)) {                    \
      std::ostringstream os_;         \
      os_.precision(17);              \
      os_ << msg;                     \
      throw Fail{os_.str()};          \
    }                                 \
  } while (0)

struct Rnd {
  std::mt19937_64 g;
  explicit Rnd(unsigned long s) : g(s * 7919ul + 17ul) { g.discard(3); }
  double u(double a = 0., double b = 1.) { return std::uniform_real_distribution<double>(a, b)(g); }
  double n(double s = 1.) { return std::normal_distribution<double>(0., s)(g); }
  int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
  bool p(double q) { return u() < q; }
  VectorXd v(int k, double s = 1.) {
    VectorXd r(k);
    for (int j = 0; j < k; ++j) r[j] = n(s);
    return r;
  }
  MatrixXd m(int r, int c, double s = 1.) {
    MatrixXd a(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) a(i, j) = n(s);
    return a;
  }
};

// ---------------------------------------------------------------- states
// circle x R^(ndx-1), so that nx = ndx + 1
class StateCircle : public crocoddyl::StateAbstractTpl<double> {
 public:
  explicit StateCircle(std::size_t ndx) : crocoddyl::StateAbstractTpl<double>(ndx + 1, ndx) {}
  VectorXd zero() const override {
    VectorXd x = VectorXd::Zero(nx_);
    x[0] = 1.;
    return x;
  }
  VectorXd rand() const override { return zero(); }
  void diff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1,
            Eigen::Ref<VectorXd> dxout) const override {
    check(x0.size() == (long)nx_ && x1.size() == (long)nx_ && dxout.size() == (long)ndx_);
    const double c = x0[0] * x1[0] + x0[1] * x1[1], s = x0[0] * x1[1] - x0[1] * x1[0];
    dxout[0] = std::atan2(s, c);
    dxout.tail(ndx_ - 1) = x1.tail(ndx_ - 1) - x0.tail(ndx_ - 1);
  }
  void integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx,
                 Eigen::Ref<VectorXd> xout) const override {
    check(x.size() == (long)nx_ && dx.size() == (long)ndx_ && xout.size() == (long)nx_);
    const double c = std::cos(dx[0]), s = std::sin(dx[0]);
    const double a = x[0], b = x[1];
    xout[0] = c * a - s * b;
    xout[1] = s * a + c * b;
    xout.tail(ndx_ - 1) = x.tail(ndx_ - 1) + dx.tail(ndx_ - 1);
  }
  static void check(bool ok) {
    if (!ok) {
      std::fprintf(stderr, "ABORT: state operation called with wrong dimensions\n");
      std::abort();
    }
  }
  void Jdiff(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd>,
             Eigen::Ref<MatrixXd>, const crocoddyl::Jcomponent) const override {
    std::abort();
  }
  void Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd>,
                  Eigen::Ref<MatrixXd>, const crocoddyl::Jcomponent, const crocoddyl::AssignmentOp) const override {
    std::abort();
  }
  void JintegrateTransport(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&,
                           Eigen::Ref<MatrixXd>, const crocoddyl::Jcomponent) const override {
    std::abort();
  }
};

// ---------------------------------------------------------------- faults
struct Faults {
  enum Kind { NONE, THROW, NANCOST, INFCOST, NANX, NANG };
  Kind kind = NONE;      // of evaluations
  enum DKind { DNONE, DTHROW, DNAN_LX, DNAN_LU, DNAN_FX, DNAN_FU, DNAN_GX, DNAN_LXX, DINDEF };
  DKind dkind = DNONE;   // of derivatives
  double freq = 0.;      // share of the state-control space that fails
  double phase = 0.;
  int node = -1;         // -1: every node
  bool blind = false;    // cost, dynamics and constraints do not depend on a state component that is not a number
  bool on = false;
  long calls = 0, dcalls = 0, limit = 0;
  long kill_after = -1;  // abort the whole call once that many evaluations have been made
};
struct Killed {};  // not a std::exception: leaves the solver
static Faults F;

struct ToyData : public crocoddyl::ActionDataAbstract {
  template <template <typename Scalar> class Model>
  explicit ToyData(Model<double>* const m) : crocoddyl::ActionDataAbstractTpl<double>(m) {}
};

class Toy : public crocoddyl::ActionModelAbstractTpl<double> {
 public:
  typedef crocoddyl::ActionModelAbstractTpl<double> Base;
  typedef crocoddyl::ActionDataAbstractTpl<double> Data;
  int node;
  MatrixXd H, A, B, G, Gu;
  VectorXd q, c, g0;
  double l0 = 0, eps = 0;
  Toy(std::shared_ptr<crocoddyl::StateAbstract> st, int node, int nu, int ng, Rnd& r, double eps_, double indef,
      bool lin_cost)
      : Base(st, nu, 0, ng, 0, ng, 0), node(node), eps(eps_) {
    const int n = st->get_ndx(), k = n + nu;
    MatrixXd M = r.m(k, k, 0.7);
    H = M * M.transpose() * 0.5 + 0.3 * MatrixXd::Identity(k, k);
    if (indef > 0) H -= indef * MatrixXd::Identity(k, k);
    q = r.v(k);
    if (lin_cost) H.setZero();
    l0 = r.n(2.);
    A = MatrixXd::Identity(n, n) + r.m(n, n, 0.35);
    B = r.m(n, nu, 0.8);
    c = r.v(n, 0.4);
    G = r.m(ng, n, 0.8);
    Gu = r.m(ng, nu, 0.8);
    g0 = r.v(ng, 0.5);
    VectorXd lb(ng), ub(ng);
    for (int j = 0; j < ng; ++j) {
      const double m = r.n(0.6);
      switch (r.i(0, 5)) {
        case 0: lb[j] = -INF; ub[j] = INF; break;
        case 1: lb[j] = m; ub[j] = m; break;
        case 2: lb[j] = -INF; ub[j] = m; break;
        case 3: lb[j] = m; ub[j] = INF; break;
        default: lb[j] = m - r.u(0.05, 1.5); ub[j] = m + r.u(0.05, 1.5);
      }
    }
    set_g_lb(lb);
    set_g_ub(ub);
  }
  void set_bounds(const VectorXd& lb, const VectorXd& ub) {
    set_g_lb(lb);
    set_g_ub(ub);
  }
  bool bad(const VectorXd& z) const {
    if (!F.on || (F.node >= 0 && F.node != node)) return false;
    double h = F.phase + 1.7 * node;
    for (int j = 0; j < z.size(); ++j) h += (3.1 + 1.3 * j) * z[j];
    h = 0.5 + 0.5 * std::sin(7.3 * h);
    return h < F.freq;
  }
  VectorXd zvec(const Eigen::Ref<const VectorXd>& x, const VectorXd& u) const {
    const int n = state_->get_ndx();
    VectorXd z(n + nu_);
    VectorXd xi(n);
    state_->diff(state_->zero(), x, xi);
    if (F.on && F.blind)
      for (int j = 0; j < n; ++j)
        if (std::isnan(xi[j])) xi[j] = 0.;
    z.head(n) = xi;
    z.tail(nu_) = u;
    return z;
  }
  void eval(Data& d, const Eigen::Ref<const VectorXd>& x, const VectorXd& u) const {
    const int n = state_->get_ndx();
    const VectorXd z = zvec(x, u);
    const VectorXd xi = z.head(n);
    const bool b = bad(z);
    if (b && F.kind == Faults::THROW) throw std::runtime_error("model evaluation failed");
    d.cost = 0.5 * z.dot(H * z) + q.dot(z) + l0;
    if (eps != 0)
      for (int j = 0; j < z.size(); ++j) d.cost += eps * (1. - std::cos(z[j] + j));
    if (node >= 0) {
      VectorXd f = A * xi + c;
      if (nu_) f += B * u;
      if (eps != 0) {
        for (int j = 0; j < n; ++j) f[j] += 0.4 * eps * std::sin(xi[j]);
        for (int j = 0; j < (int)nu_; ++j) f[j % n] += 0.3 * eps * std::sin(u[j]);
      }
      state_->integrate(state_->zero(), f, d.xnext);
    }
    if (ng_) {
      VectorXd gg = G * xi + g0;
      if (nu_) gg += Gu * u;
      if (eps != 0)
        for (int j = 0; j < (int)ng_; ++j) gg[j] += 0.3 * eps * (std::sin(xi[0] + j) + (nu_ ? std::sin(u[0] + j) : 0.));
      d.g.head(ng_) = gg;
    }
    if (b) {
      if (F.kind == Faults::NANCOST) d.cost = NaN;
      if (F.kind == Faults::INFCOST) d.cost = INF;
      if (F.kind == Faults::NANX && node >= 0) d.xnext[d.xnext.size() - 1] = NaN;
      if (F.kind == Faults::NANG && ng_) d.g[ng_ - 1] = NaN;
    }
  }
  void evalDiff(Data& d, const Eigen::Ref<const VectorXd>& x, const VectorXd& u) const {
    const int n = state_->get_ndx();
    const VectorXd z = zvec(x, u);
    const bool b = bad(z);
    if (b && F.dkind == Faults::DTHROW) throw std::runtime_error("model derivatives failed");
    VectorXd grad = H * z + q;
    MatrixXd hess = H;
    if (eps != 0)
      for (int j = 0; j < z.size(); ++j) {
        grad[j] += eps * std::sin(z[j] + j);
        hess(j, j) += eps * std::max(0., std::cos(z[j] + j));
      }
    d.Lx = grad.head(n);
    d.Lxx = hess.topLeftCorner(n, n);
    if (b && F.dkind == Faults::DINDEF) hess -= 50. * MatrixXd::Identity(n + nu_, n + nu_);
    if (nu_) {
      d.Lu = grad.tail(nu_);
      d.Luu = hess.bottomRightCorner(nu_, nu_);
      d.Lxu = hess.topRightCorner(n, nu_);
    }
    if (node >= 0) {
      d.Fx = A;
      if (eps != 0)
        for (int j = 0; j < n; ++j) d.Fx(j, j) += 0.4 * eps * std::cos(z[j]);
      if (nu_) d.Fu = B;
      if (eps != 0)
        for (int j = 0; j < (int)nu_; ++j) d.Fu(j % n, j) += 0.3 * eps * std::cos(u[j]);
    }
    if (ng_) {
      d.Gx.topRows(ng_) = G;
      if (eps != 0)
        for (int j = 0; j < (int)ng_; ++j) d.Gx(j, 0) += 0.3 * eps * std::cos(z[0] + j);
      if (nu_) d.Gu.topRows(ng_) = Gu;
      if (eps != 0 && nu_)
        for (int j = 0; j < (int)ng_; ++j) d.Gu(j, 0) += 0.3 * eps * std::cos(u[0] + j);
    }
    if (b) {
      if (F.dkind == Faults::DNAN_LX) d.Lx[n - 1] = NaN;
      if (F.dkind == Faults::DNAN_LXX) d.Lxx(n - 1, n - 1) = NaN;
      if (F.dkind == Faults::DNAN_LU && nu_) d.Lu[nu_ - 1] = NaN;
      if (F.dkind == Faults::DNAN_FX && node >= 0) d.Fx(0, n - 1) = NaN;
      if (F.dkind == Faults::DNAN_FU && node >= 0 && nu_) d.Fu(0, 0) = NaN;
      if (F.dkind == Faults::DNAN_GX && ng_) d.Gx(0, 0) = NaN;
    }
  }
  void tick() {
    ++F.calls;
    if (F.kill_after >= 0 && F.calls > F.kill_after) throw Killed{};
  }
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const VectorXd>& x,
            const Eigen::Ref<const VectorXd>& u) override {
    tick();
    eval(*d, x, u);
  }
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const VectorXd>& x) override {
    tick();
    eval(*d, x, VectorXd::Zero(nu_));
  }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const VectorXd>& x,
                const Eigen::Ref<const VectorXd>& u) override {
    tick();
    evalDiff(*d, x, u);
  }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const VectorXd>& x) override {
    tick();
    evalDiff(*d, x, VectorXd::Zero(nu_));
  }
  std::shared_ptr<Data> createData() override {
    return std::allocate_shared<ToyData>(Eigen::aligned_allocator<ToyData>(), this);
  }
};

// ---------------------------------------------------------------- problems
struct Spec {
  bool cons = false;       // inequality constraints
  bool circle = false;
  int T = 1, ndx = 1;
  double eps = 0, indef = 0;
  bool lin_cost = false;
  bool vary_nu = true;
  bool nu0 = true;         // allow nodes without controls
};

struct Prob {
  Spec s;
  std::shared_ptr<crocoddyl::StateAbstract> st;
  std::vector<std::shared_ptr<Toy>> toys;  // running nodes then terminal
  std::shared_ptr<crocoddyl::ShootingProblem> p;
  std::size_t T() const { return p->get_T(); }
  std::size_t ndx() const { return st->get_ndx(); }
  std::string describe() const {
    std::ostringstream o;
    o << "T=" << T() << " nx=" << st->get_nx() << " ndx=" << ndx() << " nu=[";
    for (auto& t : toys) o << t->get_nu() << " ";
    o << "] ng=[";
    for (auto& t : toys) o << t->get_ng() << " ";
    o << "] eps=" << s.eps << " indef=" << s.indef;
    return o.str();
  }
};

inline VectorXd rand_state(const crocoddyl::StateAbstract& st, Rnd& r, double sc = 0.6) {
  VectorXd x(st.get_nx());
  st.integrate(st.zero(), r.v(st.get_ndx(), sc), x);
  return x;
}

inline Prob make_problem(Rnd& r, Spec s) {
  Prob P;
  P.s = s;
  if (s.circle)
    P.st = std::make_shared<StateCircle>(s.ndx);
  else
    P.st = std::make_shared<crocoddyl::StateVector>(s.ndx);
  std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> rm;
  const int nu_common = r.i(1, 3);
  for (int t = 0; t < s.T; ++t) {
    int nu = s.vary_nu ? r.i(s.nu0 ? 0 : 1, 3) : nu_common;
    int ng = s.cons ? r.i(0, 3) : 0;
    auto m = std::make_shared<Toy>(P.st, t, nu, ng, r, s.eps, s.indef, s.lin_cost);
    P.toys.push_back(m);
    rm.push_back(m);
  }
  auto m = std::make_shared<Toy>(P.st, -1, 0, s.cons ? r.i(0, 3) : 0, r, s.eps, s.indef, s.lin_cost);
  P.toys.push_back(m);
  P.p = std::make_shared<crocoddyl::ShootingProblem>(rand_state(*P.st, r), rm, m);
  return P;
}

inline Spec rand_spec(Rnd& r, bool cons) {
  Spec s;
  s.cons = cons;
  s.T = r.p(0.25) ? 1 : r.i(2, 5);
  s.ndx = r.i(1, 3);
  s.circle = r.p(0.25);
  s.eps = r.p(0.5) ? 0. : r.u(0.1, 1.2);
  s.vary_nu = r.p(0.7);
  s.nu0 = r.p(0.5);
  return s;
}

inline void rand_traj(Rnd& r, const Prob& P, Traj& xs, Traj& us, double sc = 0.6) {
  xs.clear();
  us.clear();
  for (std::size_t t = 0; t <= P.T(); ++t) xs.push_back(rand_state(*P.st, r, sc));
  for (std::size_t t = 0; t < P.T(); ++t) us.push_back(r.v(P.toys[t]->get_nu(), sc));
}

// ---------------------------------------------------------------- reference evaluation
struct Eval {
  bool threw = false, nan = false, dthrew = false;
  double cost = 0, gap1 = 0, con1 = 0;
  std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract>> d;  // T+1, at the trajectory
  Traj fs;                                                        // T+1 gaps
};

inline double viol1(const Toy& m, const VectorXd& g) {
  double s = 0;
  for (int j = 0; j < (int)m.get_ng(); ++j) {
    const double a = m.get_g_lb()[j] - g[j], b = g[j] - m.get_g_ub()[j];
    if (std::isnan(g[j])) return NaN;
    s += std::max(a, 0.) + std::max(b, 0.);
  }
  return s;
}

inline Eval evaluate(const Prob& P, const Traj& xs, const Traj& us, bool diff) {
  Eval e;
  const std::size_t T = P.T();
  e.fs.assign(T + 1, VectorXd::Zero(P.ndx()));
  P.st->diff(xs[0], P.p->get_x0(), e.fs[0]);
  try {
    for (std::size_t t = 0; t <= T; ++t) {
      Toy& m = *P.toys[t];
      auto d = m.createData();
      const VectorXd u = t < T ? us[t] : VectorXd::Zero(m.get_nu());
      m.eval(*d, xs[t], u);
      e.cost += d->cost;
      e.con1 += viol1(m, d->g);
      if (t < T) {
        P.st->diff(xs[t + 1], d->xnext, e.fs[t + 1]);
      }
      e.d.push_back(d);
    }
  } catch (std::exception&) {
    e.threw = true;
    return e;
  }
  for (auto& f : e.fs) e.gap1 += f.lpNorm<1>();
  for (auto& f : e.fs)
    for (int j = 0; j < f.size(); ++j)
      if (std::isnan(f[j])) e.gap1 = NaN;
  if (std::isnan(e.cost) || std::isnan(e.gap1) || std::isnan(e.con1)) e.nan = true;
  if (diff) {
    try {
      for (std::size_t t = 0; t <= T; ++t) {
        Toy& m = *P.toys[t];
        const VectorXd u = t < T ? us[t] : VectorXd::Zero(m.get_nu());
        m.evalDiff(*e.d[t], xs[t], u);
      }
    } catch (std::exception&) {
      e.dthrew = true;
    }
  }
  return e;
}

inline double ninf(const VectorXd& v) {
  double m = 0;
  for (int j = 0; j < v.size(); ++j) {
    if (std::isnan(v[j])) return NaN;
    m = std::max(m, std::fabs(v[j]));
  }
  return m;
}
inline double nanmax(double a, double b) { return (std::isnan(a) || std::isnan(b)) ? NaN : std::max(a, b); }

// largest absolute entry of gradients of the Lagrangian, gaps (and constraint violation)
inline double kkt_residual(const Prob& P, const Eval& e, const Traj& lam, const Traj* y, bool skip_x0, bool gx0) {
  double k = 0;
  const std::size_t T = P.T();
  for (std::size_t t = 0; t < T; ++t) {
    auto& d = *e.d[t];
    VectorXd gx = d.Lx + d.Fx.transpose() * lam[t + 1] - lam[t];
    if (y && P.toys[t]->get_ng() && (t > 0 || gx0)) gx += d.Gx.transpose() * (*y)[t];
    if (!(skip_x0 && t == 0)) k = nanmax(k, ninf(gx));
    if (P.toys[t]->get_nu()) {
      VectorXd gu = d.Lu + d.Fu.transpose() * lam[t + 1];
      if (y && P.toys[t]->get_ng()) gu += d.Gu.transpose() * (*y)[t];
      k = nanmax(k, ninf(gu));
    }
  }
  VectorXd gx = e.d[T]->Lx - lam[T];
  if (y && P.toys[T]->get_ng()) gx += e.d[T]->Gx.transpose() * (*y)[T];
  k = nanmax(k, ninf(gx));
  for (auto& f : e.fs) k = nanmax(k, ninf(f));
  if (y) k = nanmax(k, e.con1);
  return k;
}

inline bool close(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= tol * (1. + std::max(std::fabs(a), std::fabs(b)));
}
inline bool same(const VectorXd& a, const VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (int j = 0; j < a.size(); ++j)
    if (!(a[j] == b[j] || (std::isnan(a[j]) && std::isnan(b[j])))) return false;
  return true;
}
inline bool same(const Traj& a, const Traj& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t t = 0; t < a.size(); ++t)
    if (!same(a[t], b[t])) return false;
  return true;
}
inline bool vclose(const VectorXd& a, const VectorXd& b, double tol, double scale = 1.) {
  if (a.size() != b.size()) return false;
  for (int j = 0; j < a.size(); ++j)
    if (!(std::fabs(a[j] - b[j]) <= tol * (scale + std::max(std::fabs(a[j]), std::fabs(b[j]))))) return false;
  return true;
}

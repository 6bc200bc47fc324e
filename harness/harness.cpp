// Replay harness: runs the real solver classes of /repo on generated problems and compares what they do
// with a direct evaluation of the property statements.  Compiled with -fno-access-control against
// /repo's current sources on every check.
//   harness PROPERTY FIRST_SEED COUNT SECONDS
#include "toy.hpp"

#include <chrono>
#include <csignal>
#include <unistd.h>

#include "mim_solvers/csqp.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
#include "mim_solvers/sqp.hpp"
#ifdef MIM_SOLVERS_WITH_PROXQP
#include "mim_solvers/csqp_proxqp.hpp"
#endif

using namespace mim_solvers;
static unsigned long cur_seed = 0;
static std::string cur_prop, cur_note;

template <class S>
struct Tr {
  static constexpr bool cons = false;
  static constexpr bool filter = false;
};
template <> struct Tr<SolverSQP> { static constexpr bool cons = false, filter = true; };
template <> struct Tr<SolverCSQP> { static constexpr bool cons = true, filter = true; };
template <> struct Tr<SolverPROXQP> { static constexpr bool cons = true, filter = true; };
template <> struct Tr<SolverDDP> { static constexpr bool cons = false, filter = false; };
template <> struct Tr<SolverFDDP> { static constexpr bool cons = false, filter = false; };

struct Ev {
  enum K { DIR, KKT, TRY, CB } k;
  Traj xs, us, lam, y, dx, du, fs;
  double cost = 0, gap = 0, con = 0, merit = 0, kkt = 0, alpha = 0, ret = 0;
  double mu_inf = 0, preg = 0, step = 0;
  bool threw = false, recalc = false;
  std::size_t iter = 0;
};

template <class S>
struct Spy : public S {
  std::vector<Ev> log;
  bool rec = true;
  long dirs = 0, dir_limit = -1, dirok = 0;
  bool dirthrow_seen = false;
  std::function<void(bool)> on_dir;
  std::vector<bool> seen_flag_at_dir_end;
  long reported_qp() const {
    if constexpr (std::is_same<S, SolverCSQP>::value) return (long)this->get_qp_iters();
    return 0;
  }
  std::function<void()> on_forward, after_try;
  bool remove_flag() const {
    if constexpr (std::is_same<S, SolverCSQP>::value) return this->remove_reg_;
    return false;
  }
  explicit Spy(std::shared_ptr<crocoddyl::ShootingProblem> p) : S(p) {}
  void snap(Ev& e) {
    e.xs = this->xs_;
    e.us = this->us_;
    e.fs = this->fs_;
    e.cost = S::cost_;
    e.iter = this->iter_;
    e.preg = this->preg_;
    e.step = this->steplength_;
    e.kkt = S::KKT_;
    e.lam = S::lag_mul_;
    if constexpr (Tr<S>::filter) {
      e.gap = S::gap_norm_;
      e.merit = S::merit_;
      e.dx = S::dx_;
      e.du = S::du_;
    }
    if constexpr (Tr<S>::cons) {
      e.con = S::constraint_norm_;
      e.y = S::y_;
    }
  }
  void computeDirection(const bool r) override {
    Ev e;
    e.k = Ev::DIR;
    e.recalc = r;
    ++dirs;
    if (dir_limit >= 0 && dirs > dir_limit) throw Killed{};
    if (on_dir) on_dir(true);
    try {
      S::computeDirection(r);
      ++dirok;
      dirthrow_seen = false;
      if (on_dir && dir_limit < 0) on_dir(false);
      if constexpr (std::is_same<S, SolverCSQP>::value) seen_flag_at_dir_end.push_back(this->get_max_solve_time_reached());
    } catch (std::exception&) {
      dirthrow_seen = true;
      e.threw = true;
      snap(e);
      if (rec) log.push_back(e);
      throw;
    }
    snap(e);
    if (rec) log.push_back(e);
  }
  void checkKKTConditions() override {
    S::checkKKTConditions();
    Ev e;
    e.k = Ev::KKT;
    snap(e);
    if (rec) log.push_back(e);
  }
  double tryStep(const double a) override {
    Ev e;
    e.k = Ev::TRY;
    e.alpha = a;
    double v = 0;
    try {
      v = S::tryStep(a);
    } catch (std::exception&) {
      e.threw = true;
      e.iter = this->iter_;
      if (rec) log.push_back(e);
      throw;
    }
    e.ret = v;
    e.iter = this->iter_;
    e.xs = S::xs_try_;
    e.us = S::us_try_;
    e.cost = S::cost_try_;
    if constexpr (Tr<S>::filter) e.gap = S::gap_norm_try_;
    if constexpr (Tr<S>::cons) e.con = S::constraint_norm_try_;
    if (rec) log.push_back(e);
    if (after_try) after_try();
    return v;
  }
  void forwardPass(const double a) override {
    if (on_forward) on_forward();
    S::forwardPass(a);
  }
};

template <class S>
struct Cb : public CallbackAbstract {
  Spy<S>* s;
  explicit Cb(Spy<S>* s) : s(s) {}
  void operator()(crocoddyl::SolverAbstract&) override { add(); }
  void operator()(crocoddyl::SolverAbstract&, std::string) override { add(); }
  void add() {
    Ev e;
    e.k = Ev::CB;
    s->snap(e);
    s->log.push_back(e);
  }
};

static void fault_plan(Rnd& r, bool eval_faults, bool diff_faults) {
  F = Faults();
  F.phase = r.u(0, 6.28);
  F.freq = r.p(0.5) ? r.u(0.02, 0.2) : r.u(0.2, 0.6);
  F.node = r.p(0.5) ? -1 : r.i(0, 3);
  if (eval_faults) F.kind = (Faults::Kind)r.i(0, 5);
  if (diff_faults) F.dkind = (Faults::DKind)r.i(0, 8);
  F.blind = r.p(0.3);
  F.on = true;
  F.kill_after = 3000000;
}
static void no_faults() {
  F = Faults();
  F.kill_after = 3000000;
}
struct FaultsOff {
  Faults keep;
  FaultsOff() : keep(F) { F.on = false; }
  ~FaultsOff() {
    long c = F.calls;
    F = keep;
    F.calls = c;
  }
};

template <class S>
void rand_settings(Rnd& r, Spy<S>& s) {
  s.S::termination_tol_ = r.p(0.35) ? 1e-6 : std::pow(10., r.u(-6, 2));
  if constexpr (Tr<S>::filter) {
    s.set_use_filter_line_search(r.p(0.7));
    const int n = r.i(0, 3);
    for (int k = 0; k < n; ++k) s.set_filter_size(r.i(1, 6));
    s.set_mu_dynamic(r.u(0.1, 20));
  }
  if constexpr (std::is_same<S, SolverSQP>::value) s.set_extra_iteration_for_last_kkt(r.p(0.4));
  if constexpr (std::is_same<S, SolverCSQP>::value) {
    s.set_extra_iteration_for_last_kkt(r.p(0.4));
    s.set_mu_constraint(r.u(0.1, 20));
    if (r.p(0.2)) s.set_mu_dynamic(-1.);
    s.set_max_qp_iters(r.p(0.5) ? r.i(1, 30) : r.i(30, 300));
    s.set_rho_update_interval(r.p(0.4) ? 25 : r.i(1, 10));
    s.set_eps_abs(std::pow(10., r.u(-9, -1)));
    s.set_eps_rel(r.p(0.3) ? 0. : std::pow(10., r.u(-9, -1)));
    s.set_equality_qp_initial_guess(r.p(0.6));
    s.reset_y_ = r.p(0.3);
    s.reset_rho_ = r.p(0.3);
    s.update_rho_with_heuristic_ = r.p(0.3);
    s.set_adaptive_rho_tolerance(r.i(1, 5));
    if (r.p(0.2)) s.set_sigma(std::pow(10., r.u(-6, 0)));
    if (r.p(0.3)) s.set_alpha(r.u(1.0, 1.9));
  }
  if constexpr (std::is_same<S, SolverPROXQP>::value) {
    s.set_mu_constraint(r.u(0.1, 20));
    s.set_max_qp_iters(r.i(5, 200));
    s.set_eps_abs(std::pow(10., r.u(-9, -3)));
    s.set_eps_rel(0.);
  }
  if (r.p(0.2)) {
    std::vector<double> al;
    double a = r.p(0.7) ? 1. : r.u(0.3, 1.);
    const int n = r.i(1, 6);
    for (int k = 0; k < n; ++k, a *= r.u(0.2, 0.9)) al.push_back(a);
    s.set_alphas(al);
  }
  if (r.p(0.2)) s.set_th_stepdec(r.u(0.05, 1.));
  if (r.p(0.2)) s.set_th_stepinc(r.u(0.01, 1.));
}

static bool finite_traj(const Traj& a) {
  for (auto& v : a)
    if (!v.allFinite()) return false;
  return true;
}
static double maxabs(const Traj& a) {
  double m = 0;
  for (auto& v : a) m = nanmax(m, ninf(v));
  return m;
}

enum Hist { PLAIN, FAULTS };

// a solve that ends by an exception does not report success
static bool attempt_escaped = false;
template <class Fn>
static bool attempt(Fn fn) {
  attempt_escaped = false;
  try {
    return fn();
  } catch (std::exception&) {
    attempt_escaped = true;
    return false;
  }
}

// run one or two solves with random settings and history; returns result of the last one
template <class S>
bool run_solve(Rnd& r, const Prob& P, Spy<S>& s, Hist h, bool diff_faults, int& maxiter, bool two = true,
               bool fresh_cb = false) {
  Traj xs, us;
  rand_traj(r, P, xs, us, r.u(0.05, 1.0));
  no_faults();
  if (two && r.p(0.35)) {
    s.rec = false;
    const int n0 = r.i(0, 5);
    const double reg0 = r.p(0.5) ? NaN : 1e-4;
    attempt([&] { return s.solve(xs, us, n0, false, reg0); });
    s.rec = true;
    rand_traj(r, P, xs, us, r.u(0.05, 1.0));
    if constexpr (Tr<S>::filter)
      if (r.p(0.5)) s.set_filter_size(r.i(1, 6));
  }
  s.log.clear();
  s.dirs = 0;
  if (h == FAULTS) fault_plan(r, true, diff_faults);
  maxiter = r.p(0.3) ? r.i(0, 2) : r.i(2, 12);
  const double reg = r.p(0.5) ? NaN : std::pow(10., r.u(-9, -1));
  bool ok;
  if (r.p(0.15)) {
    ok = attempt([&] { return s.solve(crocoddyl::DEFAULT_VECTOR, crocoddyl::DEFAULT_VECTOR, maxiter, false, reg); });
  } else {
    ok = attempt([&] { return s.solve(xs, us, maxiter, false, reg); });
  }
  F.on = F.on && h == FAULTS;
  return ok;
}

// ================================================================ C01 C02 C03 C04: certificates
template <class S>
void certificate(unsigned long seed, bool faults, bool diff_faults) {
  Rnd r(seed);
  Spec sp = rand_spec(r, Tr<S>::cons);
  if (r.p(0.2)) sp.indef = r.u(0.1, 1.5);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  int maxiter;
  const bool ok = run_solve(r, P, s, faults ? FAULTS : PLAIN, diff_faults, maxiter);
  if (!ok) return;
  const double kkt = s.S::KKT_;
  REQUIRE(kkt <= s.S::termination_tol_, "success reported with residual " << kkt << " above the tolerance "
                                                                       << s.S::termination_tol_ << " | " << P.describe());
  if constexpr (Tr<S>::filter)
    REQUIRE(same(s.xs_[0], P.p->get_x0()), "success but the first state is not the initial state | " << P.describe());
  Eval e = evaluate(P, s.xs_, s.us_, true);
  if (e.threw || e.dthrew) {
    REQUIRE(false, "success reported although evaluating the returned trajectory fails | " << P.describe());
  }
  Traj lam = s.S::lag_mul_;
  double ref;
  std::vector<Traj> keep;
  if constexpr (std::is_same<S, SolverPROXQP>::value) {
    const Ev* k = nullptr;
    for (auto& v : s.log)
      if (v.k == Ev::KKT) k = &v;
    REQUIRE(k != nullptr, "success without a residual test | " << P.describe());
    ref = kkt_residual(P, e, k->lam, &k->y, true, false);
  } else if constexpr (std::is_same<S, SolverCSQP>::value) {
    ref = kkt_residual(P, e, lam, &s.y_, false, false);
  } else {
    ref = kkt_residual(P, e, lam, nullptr, false, false);
  }
  const double scale = 1. + maxabs(lam) + maxabs(s.xs_) + maxabs(s.us_);
  REQUIRE(close(kkt, ref, 1e-8) || std::fabs(kkt - ref) <= 1e-9 * scale,
          "success reported with residual " << kkt << " but the residual of the returned trajectory is " << ref
                                            << " (tolerance " << s.S::termination_tol_ << ") | " << P.describe());
}

// DDP family keeps the derivatives of the last accepted point; feasibility flag random
template <class S>
void certificate_ddp(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  if (r.p(0.2)) sp.indef = r.u(0.1, 1.0);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  if constexpr (std::is_same<S, SolverFDDP>::value) {
    s.set_use_filter_line_search(r.p(0.5));
    const int n = r.i(0, 2);
    for (int k = 0; k < n; ++k) s.set_filter_size(r.i(1, 5));
  }
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us, 0.5);
  if (r.p(0.3)) s.solve(xs, us, r.i(0, 4));
  rand_traj(r, P, xs, us, 0.5);
  if (r.p(0.5)) xs[0] = P.p->get_x0();
  if (r.p(0.3)) fault_plan(r, true, false);
  s.log.clear();
  bool feas = false;
  if (r.p(0.3)) {  // feasible start
    FaultsOff off;
    xs = P.p->rollout_us(us);
    feas = true;
  }
  const bool ok = s.solve(xs, us, r.i(1, 12), feas);
  if (!ok) return;
  REQUIRE(s.S::KKT_ <= s.S::termination_tol_, "success with residual " << s.S::KKT_ << " above tolerance | " << P.describe());
  FaultsOff off;
  Eval e = evaluate(P, s.xs_, s.us_, true);
  const double ref = kkt_residual(P, e, s.S::lag_mul_, nullptr, false, false);
  const double scale = 1. + maxabs(s.S::lag_mul_) + maxabs(s.xs_);
  REQUIRE(close(s.S::KKT_, ref, 1e-7) || std::fabs(s.S::KKT_ - ref) <= 1e-8 * scale,
          "reported residual " << s.S::KKT_ << " but derivatives, gaps and multipliers at the returned trajectory give "
                               << ref << " | " << P.describe());
}

template <class S>
void rollouts(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us, 0.4);
  bool feas = r.p(0.3);
  if (feas) xs = P.p->rollout_us(us);
  s.xs_try_[0] = P.p->get_x0();
  s.setCandidate(xs, us, feas);
  s.preg_ = s.dreg_ = std::pow(10., r.u(-9, 0));
  try {
    s.computeDirection(true);
  } catch (std::exception&) {
    return;
  }
  for (int rep = 0; rep < 3; ++rep) {
    const double a = r.p(0.3) ? 1. : r.p(0.1) ? 0. : r.u();
    double dV;
    const Traj xs0 = s.xs_, us0 = s.us_;
    try {
      dV = s.tryStep(a);
    } catch (std::exception&) {
      continue;
    }
    REQUIRE(same(xs0, s.xs_) && same(us0, s.us_), "trial changed the current trajectory | " << P.describe());
    double cost = 0;
    VectorXd x = P.p->get_x0(), dx(P.ndx());
    const bool keepgap = std::is_same<S, SolverFDDP>::value && !feas && a != 1.;
    for (std::size_t t = 0; t <= P.T(); ++t) {
      if (keepgap) {
        VectorXd x2(P.st->get_nx());
        P.st->integrate(x, s.fs_[t] * (a - 1.), x2);
        x = x2;
      }
      REQUIRE(vclose(x, s.xs_try_[t], 1e-9), "trial state " << t << " is not the rollout for step " << a << ": "
                                                           << s.xs_try_[t].transpose() << " vs " << x.transpose() << " | "
                                                           << P.describe());
      auto d = P.toys[t]->createData();
      VectorXd u = VectorXd::Zero(P.toys[t]->get_nu());
      if (t < P.T()) {
        P.st->diff(xs[t], s.xs_try_[t], dx);
        if (P.toys[t]->get_nu()) {
          u = us[t] - a * s.k_[t] - s.K_[t] * dx;
          REQUIRE(vclose(u, s.us_try_[t], 1e-8), "trial control " << t << " does not follow the policy for step " << a << " | "
                                                                 << P.describe());
          u = s.us_try_[t];
        }
      }
      P.toys[t]->eval(*d, s.xs_try_[t], u);
      cost += d->cost;
      x = d->xnext;
    }
    REQUIRE(close(cost, s.cost_try_, 1e-9), "trial cost " << s.cost_try_ << " but the trial trajectory costs " << cost << " | "
                                                         << P.describe());
    REQUIRE(close(dV, s.cost_ - s.cost_try_, 1e-12), "cost decrease misreported | " << P.describe());
  }
  bool thrown = false;
  try {
    s.tryStep(r.p(0.5) ? 1. + 1e-9 + r.u() : -1e-9 - r.u());
  } catch (std::exception&) {
    thrown = true;
  }
  REQUIRE(thrown, "step length outside [0,1] accepted | " << P.describe());
}

// ================================================================ C05 C13 C16 C17: line search histories
template <class S>
void history(unsigned long seed, const std::string& what) {
  Rnd r(seed);
  Spec sp = rand_spec(r, Tr<S>::cons);
  if (r.p(0.2)) sp.indef = r.u(0.1, 1.0);
  if (r.p(0.3)) sp.eps = r.u(0.5, 3.0);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  if (r.p(0.8)) s.S::termination_tol_ = 1e-9;
  if (r.p(0.1)) s.S::termination_tol_ = -1;
  constexpr bool csqp = std::is_same<S, SolverCSQP>::value;
  const bool want_faults = what == "C16" ? r.p(0.9) : r.p(0.4);
  const int ncb = r.i(0, 3);
  if constexpr (!std::is_same<S, SolverPROXQP>::value) {
    std::vector<std::shared_ptr<CallbackAbstract>> cbs;
    if (what == "C17")
      for (int k = 0; k < ncb; ++k) cbs.push_back(std::make_shared<Cb<S>>(&s));
    s.setCallbacks(cbs);
  }
  int maxiter;
  Traj before_x;
  bool ok = false;
  bool escaped = false;
  try {
    ok = run_solve(r, P, s, want_faults ? FAULTS : PLAIN, what == "C16", maxiter);
  } catch (std::exception& e) {
    escaped = true;
  }
  escaped = escaped || attempt_escaped;  // remove_reg_ or faults in calc(): the error reaches the caller
  const std::size_t fsize = Tr<S>::filter ? s.filter_size_ : 1;
  // iterates
  struct It {
    const Ev* kkt;
    std::vector<const Ev*> tries;
    std::vector<const Ev*> cbs;
    std::size_t first, last;
  };
  std::vector<It> its;
  for (std::size_t n = 0; n < s.log.size(); ++n) {
    const Ev& e = s.log[n];
    if (e.k == Ev::KKT) its.push_back(It{&e, {}, {}, n, n});
    if (e.k == Ev::TRY && !its.empty()) its.back().tries.push_back(&e), its.back().last = n;
    if (e.k == Ev::CB && !its.empty()) its.back().cbs.push_back(&e);
  }
  if (what == "C13") {
    REQUIRE(same(s.xs_[0], P.p->get_x0()), "first state of the result is not the initial state | " << P.describe());
  }
  for (std::size_t k = 0; k < its.size(); ++k) {
    It& it = its[k];
    const Traj& nx = k + 1 < its.size() ? its[k + 1].kkt->xs : s.xs_;
    const Traj& nu = k + 1 < its.size() ? its[k + 1].kkt->us : s.us_;
    const bool moved = !same(nx, it.kkt->xs) || !same(nu, it.kkt->us);
    const Ev* last = it.tries.empty() ? nullptr : it.tries.back();
    const bool eq_last = last && !last->threw && same(nx, last->xs) && same(nu, last->us);
    // the line search stopped before the end of the step list, or moved
    const bool adopted = moved || (eq_last && it.tries.size() < s.alphas_.size());
    if (what == "C13" || what == "C05")
      REQUIRE(!moved || eq_last, "iterate " << k + 1 << " is neither the previous iterate nor the last trial | " << P.describe());
    if (adopted && last && what == "C05") {
      if (s.use_filter_line_search_) {
        const std::size_t m = std::min(fsize, k + 1);
        for (std::size_t j = 0; j < m; ++j) {
          const Ev& o = *its[k - j].kkt;
          const bool better = last->cost < o.cost || last->gap < o.gap || (Tr<S>::cons && last->con < o.con);
          const bool anynan = std::isnan(o.cost) || std::isnan(o.gap) || std::isnan(o.con);
          REQUIRE(better || anynan, "adopted a trial (cost " << last->cost << " gap " << last->gap << " con " << last->con
                                                             << ") that improves nothing over the iterate " << j
                                                             << " steps back (cost " << o.cost << " gap " << o.gap << " con "
                                                             << o.con << "), filter size " << fsize << " | " << P.describe());
          // the recorded values must be those of the iterate
          FaultsOff off;
          Eval eo = evaluate(P, o.xs, o.us, false), en = evaluate(P, nx, nu, false);
          const double tl = 1e-7;
          const bool really = en.cost < eo.cost + tl * (1 + std::fabs(eo.cost)) || en.gap1 < eo.gap1 + tl * (1 + eo.gap1) ||
                              (Tr<S>::cons && en.con1 < eo.con1 + tl * (1 + eo.con1));
          if (!want_faults)
            REQUIRE(really, "adopted iterate improves nothing over iterate " << k - j << ": cost " << en.cost << " vs " << eo.cost
                                                                           << " gap " << en.gap1 << " vs " << eo.gap1 << " con "
                                                                           << en.con1 << " vs " << eo.con1 << " | "
                                                                           << P.describe());
        }
      } else {
        // merit at the iterate, with the same weights
        double m0 = it.kkt->merit;
        if (csqp) {
          if constexpr (csqp) {
            if (s.mu_dynamic_ < 0. || s.mu_constraint_ < 0.) {
              double li = 0;
              for (auto& v : it.kkt->lam) li = std::max(li, ninf(v));
              for (auto& v : it.kkt->y) li = std::max(li, ninf(v));
              m0 = it.kkt->cost + s.lag_mul_inf_norm_coef_ * li * (it.kkt->gap + it.kkt->con);
            } else {
              m0 = it.kkt->cost + s.mu_dynamic_ * it.kkt->gap + s.mu_constraint_ * it.kkt->con;
            }
          }
        } else {
          m0 = it.kkt->cost + s.mu_dynamic_ * it.kkt->gap;
          if constexpr (std::is_same<S, SolverPROXQP>::value) m0 += s.mu_constraint_ * it.kkt->con;
        }
        REQUIRE(std::isnan(m0) || last->ret < m0 + 1e-10 * (1 + std::fabs(m0)),
                "adopted a trial of merit " << last->ret << ", not below the current merit " << m0 << " | " << P.describe());
        REQUIRE(last->ret != m0, "adopted a trial with the same merit " << m0 << " | " << P.describe());
      }
    }
    // a qualifying trial that came before the last one would have been adopted; a rejected one leaves everything as it is
    if (what == "C16" && adopted && last) {
      REQUIRE(!last->threw, "adopted a trial whose evaluation failed | " << P.describe());
      Eval en = evaluate(P, nx, nu, false);
      REQUIRE(!en.threw, "adopted a trial whose evaluation throws | " << P.describe());
      REQUIRE(!en.nan, "adopted a trial whose cost/gap/constraint norm is not a number (cost "
                           << en.cost << " gap " << en.gap1 << " con " << en.con1 << ") | " << P.describe());
    }
    if (what == "C17" && last) {
      // value reported after the line search: next direction event after the line search, or the final state
      double rep = s.steplength_, preg = s.preg_;
      for (std::size_t n = it.last + 1; n < s.log.size(); ++n)
        if (s.log[n].k == Ev::DIR) {
          rep = s.log[n].step;
          break;
        }
      REQUIRE(rep == last->alpha, "reported step length " << rep << " but the last one tried was " << last->alpha << " (iteration "
                                                          << k << ") | " << P.describe());
      // regularisation decision of this iteration
      const Ev* nd = nullptr;
      for (std::size_t n = it.last + 1; n < s.log.size(); ++n)
        if (s.log[n].k == Ev::DIR) {
          nd = &s.log[n];
          break;
        }
      if (nd) preg = nd->preg;
      (void)preg;
      const bool first_try_ok = !nd || !nd->threw;
      if (!escaped && first_try_ok && !(csqp && s.remove_flag())) {
        double exp_ = it.kkt->preg;
        const double a = last->alpha;
        bool skip = false;
        if (csqp) {
          if (!adopted) skip = true;  // the solve stops before the update
          else if (a > s.th_stepdec_) exp_ = std::max(exp_ / s.reg_decfactor_, s.reg_min_);
          else exp_ = std::min(exp_ * s.reg_incfactor_, s.reg_max_);
        } else {
          if (a > s.th_stepdec_) exp_ = std::max(exp_ / s.reg_decfactor_, s.reg_min_);
          if (a <= s.th_stepinc_) exp_ = std::min(exp_ * s.reg_incfactor_, s.reg_max_);
        }
        if (!skip)
          REQUIRE(close(preg, exp_, 1e-12) || (preg == exp_), "regularisation " << preg << " after a step of " << a
                                                                               << ", expected " << exp_ << " | " << P.describe());
      }
    }
    if (what == "C17" && !std::is_same<S, SolverPROXQP>::value) {
      REQUIRE((int)it.cbs.size() == ncb, "iteration " << k << " called " << it.cbs.size() << " of " << ncb << " callbacks | "
                                                     << P.describe());
      for (auto* c : it.cbs) {
        REQUIRE(c->kkt == it.kkt->kkt || (std::isnan(c->kkt) && std::isnan(it.kkt->kkt)),
                "callback sees a residual that is not the one of the iterate | " << P.describe());
        REQUIRE(same(c->xs, it.kkt->xs) && same(c->us, it.kkt->us), "callback called after a step | " << P.describe());
        if (!want_faults) {
          Eval en = evaluate(P, c->xs, c->us, false);
          double m = en.cost + s.S::mu_dynamic_ * en.gap1;
          if constexpr (csqp) {
            if (s.mu_dynamic_ < 0. || s.mu_constraint_ < 0.) {
              double li = 0;
              for (auto& v : c->lam) li = std::max(li, ninf(v));
              for (auto& v : c->y) li = std::max(li, ninf(v));
              m = en.cost + s.lag_mul_inf_norm_coef_ * li * (en.gap1 + en.con1);
            } else {
              m += s.mu_constraint_ * en.con1;
            }
            REQUIRE(close(c->con, en.con1), "callback sees a violation of " << c->con << ", the iterate has " << en.con1 << " | "
                                                                            << P.describe());
          }
          REQUIRE(close(c->cost, en.cost), "callback sees a cost of " << c->cost << ", the iterate has " << en.cost << " | "
                                                                      << P.describe());
          REQUIRE(close(c->gap, en.gap1), "callback sees a gap norm of " << c->gap << ", the iterate has " << en.gap1 << " | "
                                                                         << P.describe());
          REQUIRE(close(c->merit, m), "callback sees a merit of " << c->merit << ", the iterate has " << m << " | " << P.describe());
        }
      }
      std::size_t seen = 0;
      bool tried = false;
      for (std::size_t n = it.first; n <= it.last; ++n) {
        if (s.log[n].k == Ev::TRY) tried = true;
        if (s.log[n].k == Ev::CB) {
          ++seen;
          REQUIRE(!tried, "callback called after a trial step | " << P.describe());
        }
      }
    }
  }
  if (what == "C16" && ok) {
    Eval e = evaluate(P, s.xs_, s.us_, true);
    REQUIRE(!e.threw && !e.dthrew, "success reported although evaluating the returned trajectory fails | " << P.describe());
    // the cost value itself is not part of the residual
    bool nan = std::isnan(e.gap1) || (Tr<S>::cons && std::isnan(e.con1));
    constexpr bool prox = !std::is_same<S, SolverSQP>::value && !csqp;
    for (std::size_t t = 0; t <= P.T(); ++t) {
      auto& d = *e.d[t];
      const bool run = t < P.T(), con = Tr<S>::cons && P.toys[t]->get_ng();
      if (!(prox && t == 0)) {
        if (d.Lx.hasNaN() || (run && d.Fx.hasNaN())) nan = true;
        if (con && t > 0 && d.Gx.hasNaN()) nan = true;
      }
      if (run && P.toys[t]->get_nu()) {
        if (d.Lu.hasNaN() || d.Fu.hasNaN() || (con && d.Gu.hasNaN())) nan = true;
      }
    }
    REQUIRE(!nan, "success reported although a quantity of the residual is not a number | " << P.describe());
  }
}

// ================================================================ C06: trial evaluation
template <class S>
void trial(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, Tr<S>::cons);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us);
  xs[0] = P.p->get_x0();
  s.setCandidate(xs, us, false);
  s.xs_try_[0] = P.p->get_x0();
  for (std::size_t t = 0; t <= P.T(); ++t) {
    s.S::dx_[t] = t ? r.v(P.ndx()) : VectorXd::Zero(P.ndx());
    if (t < P.T()) {
      s.S::du_[t] = r.v(P.toys[t]->get_nu());
      s.us_try_[t] = us[t];
    }
  }
  double coef = 0, li = 0;
  if constexpr (std::is_same<S, SolverCSQP>::value) {
    s.lag_mul_inf_norm_ = li = std::fabs(r.n(3.));
    if (r.p(0.5)) s.set_lag_mul_inf_norm_coef(r.u(1, 20));
    coef = s.get_lag_mul_inf_norm_coef();
  }
  const Traj dx = s.S::dx_, du = s.S::du_;
  for (int rep = 0; rep < 3; ++rep) {
    const double a = r.p(0.2) ? 1. : r.p(0.1) ? 0. : r.u();
    const double v = s.tryStep(a);
    REQUIRE(same(s.xs_, xs) && same(s.us_, us), "trial evaluation changed the current trajectory | " << P.describe());
    REQUIRE(same(s.S::dx_, dx) && same(s.S::du_, du), "trial evaluation changed the search direction | " << P.describe());
    for (std::size_t t = 0; t <= P.T(); ++t) {
      VectorXd x(P.st->get_nx());
      P.st->integrate(xs[t], a * dx[t], x);
      REQUIRE(vclose(x, s.S::xs_try_[t], 1e-11), "trial state " << t << " is not integrate(x, a dx) for a=" << a << " | " << P.describe());
      if (t < P.T()) {
        VectorXd u = us[t] + a * du[t];
        REQUIRE(vclose(u, s.S::us_try_[t], 1e-11), "trial control " << t << " is not u + a du for a=" << a << " | " << P.describe());
      }
    }
    Eval e = evaluate(P, s.S::xs_try_, s.S::us_try_, false);
    REQUIRE(close(e.cost, s.S::cost_try_), "trial cost " << s.S::cost_try_ << " is not the sum of node costs " << e.cost << " | " << P.describe());
    REQUIRE(close(e.gap1, s.S::gap_norm_try_), "trial gap norm " << s.S::gap_norm_try_ << " is not the 1-norm of the gaps " << e.gap1
                                                               << " | " << P.describe());
    double m = e.cost + s.S::mu_dynamic_ * e.gap1;
    if constexpr (Tr<S>::cons) {
      REQUIRE(close(e.con1, s.S::constraint_norm_try_), "trial constraint norm " << s.S::constraint_norm_try_
                                                        << " is not the 1-norm of the violations " << e.con1 << " | " << P.describe());
      m += s.S::mu_constraint_ * e.con1;
      if constexpr (std::is_same<S, SolverCSQP>::value)
        if (s.mu_dynamic_ < 0. || s.mu_constraint_ < 0.) m = e.cost + coef * li * (e.gap1 + e.con1);
    }
    REQUIRE(close(m, v), "merit " << v << " but the trial's merit is " << m << " | " << P.describe());
  }
  const double bad[] = {1. + 1e-12, 1.5, -1e-12, -0.3, INF, -INF};
  for (double a : bad) {
    bool thrown = false;
    try {
      s.tryStep(a);
    } catch (std::exception&) {
      thrown = true;
    }
    REQUIRE(thrown, "step length " << a << " accepted | " << P.describe());
  }
}

// ================================================================ C07: SQP direction
static void c07_check(Prob& P, Spy<SolverSQP>& s, const Traj& xs, const Traj& us) {
  const std::size_t T = P.T();
  Eval e = evaluate(P, xs, us, true);
  const Traj &dx = s.SolverSQP::dx_, &du = s.SolverSQP::du_, &lam = s.SolverSQP::lag_mul_;
  const double sc = 1. + maxabs(dx) + maxabs(du) + maxabs(lam), tl = 1e-8;
  REQUIRE(ninf(dx[0]) == 0., "direction does not start at zero | " << P.describe());
  for (std::size_t t = 0; t < T; ++t) {
    auto& d = *e.d[t];
    const int nu = P.toys[t]->get_nu();
    VectorXd nx = e.fs[t + 1] + d.Fx * dx[t];
    if (nu) nx += d.Fu * du[t];
    REQUIRE(vclose(nx, dx[t + 1], tl, sc), "linearised dynamics violated at node " << t << " | " << P.describe());
    VectorXd sx = d.Lx + d.Lxx * dx[t] + s.preg_ * dx[t] + d.Fx.transpose() * lam[t + 1];
    if (nu) sx += d.Lxu * du[t];
    REQUIRE(vclose(sx, lam[t], tl, sc * 10), "state stationarity violated at node " << t << ": " << (sx - lam[t]).transpose()
                                                                               << " | " << P.describe());
    if (nu) {
      VectorXd su = d.Lu + d.Luu * du[t] + s.dreg_ * du[t] + d.Lxu.transpose() * dx[t] + d.Fu.transpose() * lam[t + 1];
      REQUIRE(ninf(su) <= tl * sc * 10, "control stationarity violated at node " << t << ": " << su.transpose() << " | "
                                                                              << P.describe());
    }
  }
  VectorXd sx = e.d[T]->Lx + e.d[T]->Lxx * dx[T] + s.preg_ * dx[T];
  REQUIRE(vclose(sx, lam[T], tl, sc * 10), "terminal stationarity violated | " << P.describe());
}
// the directions of a solve, whatever the feasibility flag of the call
struct Cb07 : public CallbackAbstract {
  Prob& P;
  Spy<SolverSQP>& s;
  Cb07(Prob& P, Spy<SolverSQP>& s) : P(P), s(s) {}
  void operator()(crocoddyl::SolverAbstract&) override { add(); }
  void operator()(crocoddyl::SolverAbstract&, std::string) override { add(); }
  void add() {
    if (maxabs(s.xs_) + maxabs(s.us_) < 100.) c07_check(P, s, s.xs_, s.us_);
  }
};
static void c07(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  Prob P = make_problem(r, sp);
  Spy<SolverSQP> s(P.p);
  no_faults();
  Traj xs, us;
  for (int rep = 0; rep < 2; ++rep) {
    rand_traj(r, P, xs, us);
    xs[0] = P.p->get_x0();
    s.setCandidate(xs, us, false);
    s.preg_ = s.dreg_ = r.p(0.3) ? 1e-9 : std::pow(10., r.u(-6, 1));
    if (r.p(0.3)) s.dreg_ *= 3.;
    s.iter_ = 0;
    try {
      s.computeDirection(true);
    } catch (std::exception&) {
      return;
    }
    c07_check(P, s, xs, us);
  }
  {
    rand_traj(r, P, xs, us);
    s.setCallbacks({std::make_shared<Cb07>(P, s)});
    try {
      s.solve(xs, us, r.i(1, 3), r.p(0.5), r.p(0.5) ? NAN : 1e-6);
    } catch (std::exception& e) {
    }
    s.setCallbacks({});
  }
}

// ================================================================ C08 .. C11: CSQP inner iteration
struct LQ {  // augmented Lagrangian subproblem of the current CSQP data
  std::vector<MatrixXd> Hxx, Hxu, Huu;
  Traj gx, gu;
};
static LQ al_model(const Prob& P, Spy<SolverCSQP>& s, bool constrained) {
  LQ q;
  const std::size_t T = P.T(), n = P.ndx();
  auto& R = P.p->get_runningDatas();
  for (std::size_t t = 0; t <= T; ++t) {
    auto& d = t < T ? *R[t] : *P.p->get_terminalData();
    const int nu = t < T ? P.toys[t]->get_nu() : 0, nc = P.toys[t]->get_ng();
    MatrixXd hx = d.Lxx + (s.preg_ + (constrained ? s.sigma_ : 0.)) * MatrixXd::Identity(n, n);
    VectorXd gx = d.Lx;
    MatrixXd hu(nu, nu), hxu(n, nu);
    VectorXd gu(nu);
    if (nu) {
      hu = d.Luu + (s.dreg_ + (constrained ? s.sigma_ : 0.)) * MatrixXd::Identity(nu, nu);
      hxu = d.Lxu;
      gu = d.Lu;
    }
    if (constrained) {
      gx -= s.sigma_ * s.SolverCSQP::dx_[t];
      if (nu) gu -= s.sigma_ * s.SolverCSQP::du_[t];
      if (nc) {
        const VectorXd w = s.y_[t] - s.rho_vec_[t].cwiseProduct(s.z_[t]);
        const MatrixXd Rh = s.rho_vec_[t].asDiagonal();
        if (t > 0) {
          hx += d.Gx.transpose() * Rh * d.Gx;
          gx += d.Gx.transpose() * w;
        }
        if (nu) {
          hu += d.Gu.transpose() * Rh * d.Gu;
          gu += d.Gu.transpose() * w;
          if (t > 0) hxu += d.Gx.transpose() * Rh * d.Gu;
        }
      }
    }
    q.Hxx.push_back(hx);
    q.Hxu.push_back(hxu);
    q.Huu.push_back(hu);
    q.gx.push_back(gx);
    q.gu.push_back(gu);
  }
  return q;
}
// multipliers from the stationarity in x, then checks the stationarity in u and the dynamics
static void check_lq(const Prob& P, Spy<SolverCSQP>& s, const LQ& q, const Traj& dx, const Traj& du, const std::string& tag) {
  const std::size_t T = P.T();
  auto& R = P.p->get_runningDatas();
  double hs = 1.;
  for (std::size_t t = 0; t <= T; ++t) {
    hs = std::max(hs, q.Hxx[t].cwiseAbs().maxCoeff());
    if (q.Huu[t].size()) hs = std::max(hs, q.Huu[t].cwiseAbs().maxCoeff());
  }
  const double sc = (1. + maxabs(dx) + maxabs(du) + maxabs(q.gx) + maxabs(q.gu)) * hs, tl = 1e-7;
  REQUIRE(ninf(dx[0]) == 0., tag << ": step does not start at zero | " << P.describe());
  VectorXd lam = q.gx[T] + q.Hxx[T] * dx[T];
  for (int t = (int)T - 1; t >= 0; --t) {
    auto& d = *R[t];
    const int nu = P.toys[t]->get_nu();
    VectorXd nx = s.fs_[t + 1] + d.Fx * dx[t];
    if (nu) nx += d.Fu * du[t];
    REQUIRE(vclose(nx, dx[t + 1], 1e-8, 1. + maxabs(dx)), tag << ": linearised dynamics violated at node " << t << " | " << P.describe());
    if (nu) {
      VectorXd su = q.gu[t] + q.Huu[t] * du[t] + q.Hxu[t].transpose() * dx[t] + d.Fu.transpose() * lam;
      REQUIRE(ninf(su) <= tl * sc, tag << ": control stationarity violated at node " << t << " by " << ninf(su) << " | " << P.describe());
    }
    VectorXd l2 = q.gx[t] + q.Hxx[t] * dx[t] + d.Fx.transpose() * lam;
    if (nu) l2 += q.Hxu[t] * du[t];
    lam = l2;
  }
}
static void csqp_prepare(Rnd& r, Prob& P, Spy<SolverCSQP>& s) {
  Traj xs, us;
  rand_traj(r, P, xs, us);
  xs[0] = P.p->get_x0();
  s.setCandidate(xs, us, false);
  s.preg_ = s.dreg_ = r.p(0.3) ? 0. : std::pow(10., r.u(-6, 0));
  if (r.p(0.3)) s.dreg_ *= 2.;
  s.calc(true);
  s.set_rho_sparse(std::pow(10., r.u(-3, 1)));
  s.apply_rho_update(s.get_rho_sparse());
  for (std::size_t t = 0; t <= P.T(); ++t) {
    const int nc = P.toys[t]->get_ng();
    s.y_[t] = r.v(nc);
    s.z_[t] = r.v(nc);
    s.SolverCSQP::dx_[t] = t ? r.v(P.ndx()) : VectorXd::Zero(P.ndx());
    if (t < P.T()) s.SolverCSQP::du_[t] = r.v(P.toys[t]->get_nu());
  }
}
static void c08(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, true);
  Prob P = make_problem(r, sp);
  Spy<SolverCSQP> s(P.p);
  rand_settings(r, s);
  no_faults();
  csqp_prepare(r, P, s);
  try {
    s.backwardPass();
    s.forwardPass(0.);
  } catch (std::exception&) {
    return;
  }
  check_lq(P, s, al_model(P, s, true), s.dxtilde_, s.dutilde_, "full serial pass");
  for (int rep = 0; rep < 2; ++rep) {  // reuse of the factorisation with new multipliers
    for (std::size_t t = 0; t <= P.T(); ++t) {
      s.y_[t] = r.v(P.toys[t]->get_ng());
      s.z_[t] = r.v(P.toys[t]->get_ng());
      s.SolverCSQP::dx_[t] = t ? r.v(P.ndx()) : VectorXd::Zero(P.ndx());
      if (t < P.T()) s.SolverCSQP::du_[t] = r.v(P.toys[t]->get_nu());
    }
    s.backwardPass_without_rho_update();
    s.forwardPass(0.);
    check_lq(P, s, al_model(P, s, true), s.dxtilde_, s.dutilde_, "pass reusing the factorisation");
    const Traj a = s.dxtilde_, b = s.dutilde_;
    s.backwardPass_without_rho_update_mt();
    s.forwardPass(0.);
    check_lq(P, s, al_model(P, s, true), s.dxtilde_, s.dutilde_, "multi-threaded pass reusing the factorisation");
    s.backwardPass_mt();
    s.forwardPass(0.);
    check_lq(P, s, al_model(P, s, true), s.dxtilde_, s.dutilde_, "multi-threaded pass");
    s.backwardPass_without_rho_update();
    s.forwardPass(0.);
    check_lq(P, s, al_model(P, s, true), s.dxtilde_, s.dutilde_, "pass reusing the multi-threaded factorisation");
  }
  try {
    s.backwardPass_without_constraints();
    s.forwardPass_without_constraints();
  } catch (std::exception&) {
    return;
  }
  check_lq(P, s, al_model(P, s, false), s.SolverCSQP::dx_, s.SolverCSQP::du_, "unconstrained warm start");
  // every inner iteration of a whole direction
  csqp_prepare(r, P, s);
  struct G {
    Spy<SolverCSQP>& s;
    ~G() { s.on_forward = nullptr; }
  } g{s};
  s.start_time_ = crocoddyl::getProfiler().take_time();
  s.on_forward = [&]() {
    // gains of this inner iteration are in place: the step that follows must solve the current model
    const LQ q = al_model(P, s, true);
    Traj dx = s.dxtilde_, du = s.dutilde_;
    auto& R = P.p->get_runningDatas();
    dx[0].setZero();
    for (std::size_t t = 0; t < P.T(); ++t) {
      dx[t + 1] = s.fs_[t + 1] + R[t]->Fx * dx[t];
      if (P.toys[t]->get_nu()) {
        du[t] = -s.k_[t] - s.K_[t] * dx[t];
        dx[t + 1] += R[t]->Fu * du[t];
      }
    }
    check_lq(P, s, q, dx, du, "inner iteration");
  };
  s.iter_ = 0;
  if (r.p(0.5)) s.reset_rho_ = false;
  s.computeDirection(true);
  // the warm start within a direction (no inner iterations), at any later outer iteration
  s.on_forward = nullptr;
  csqp_prepare(r, P, s);
  s.start_time_ = crocoddyl::getProfiler().take_time();
  s.max_solve_time_ = 1e9;
  s.iter_ = r.i(0, 3);
  s.set_equality_qp_initial_guess(true);
  s.set_max_qp_iters(0);
  s.computeDirection(true);
  check_lq(P, s, al_model(P, s, false), s.SolverCSQP::dx_, s.SolverCSQP::du_, "warm start of a direction");
}

static void c09(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, true);
  Prob P = make_problem(r, sp);
  Spy<SolverCSQP> s(P.p);
  rand_settings(r, s);
  no_faults();
  csqp_prepare(r, P, s);
  for (std::size_t t = 0; t <= P.T(); ++t) {
    s.dxtilde_[t] = t ? r.v(P.ndx()) : VectorXd::Zero(P.ndx());
    if (t < P.T()) s.dutilde_[t] = r.v(P.toys[t]->get_nu());
  }
  const Traj y0 = s.y_, z0 = s.z_, dxt = s.dxtilde_, dut = s.dutilde_;
  const int it = r.i(1, 12);
  s.update_lagrangian_parameters(it);
  auto& R = P.p->get_runningDatas();
  double np = -INF, nd = -INF, npr = -INF, ndr = -INF;
  for (std::size_t t = 0; t <= P.T(); ++t) {
    auto& d = t < P.T() ? *R[t] : *P.p->get_terminalData();
    const int nc = P.toys[t]->get_ng(), nu = t < P.T() ? P.toys[t]->get_nu() : 0;
    REQUIRE(same(s.SolverCSQP::dx_[t], dxt[t]), "reported state step differs from the candidate at node " << t << " | " << P.describe());
    if (t < P.T()) REQUIRE(same(s.SolverCSQP::du_[t], dut[t]), "reported control step differs from the candidate | " << P.describe());
    if (!nc) continue;
    VectorXd C = d.Gx * dxt[t];
    if (nu) C += d.Gu * dut[t];
    const VectorXd zr = s.alpha_ * C + (1. - s.alpha_) * z0[t];
    VectorXd z(nc), y(nc);
    for (int j = 0; j < nc; ++j) {
      const double lo = P.toys[t]->get_g_lb()[j] - d.g[j], hi = P.toys[t]->get_g_ub()[j] - d.g[j], rho = s.rho_vec_[t][j];
      z[j] = std::min(std::max(zr[j] + y0[t][j] / rho, lo), hi);
      y[j] = y0[t][j] + rho * (zr[j] - z[j]);
      const double zz = s.z_[t][j], yy = s.y_[t][j], tl = 1e-9 * (1 + std::fabs(y0[t][j]) + rho * (std::fabs(zr[j]) + std::fabs(zz)));
      REQUIRE(zz >= lo && zz <= hi, "slack " << zz << " outside [" << lo << "," << hi << "] at node " << t << " | " << P.describe());
      REQUIRE(!(yy < -tl && zz != lo), "negative multiplier " << yy << " with the slack " << zz << " above its lower bound " << lo
                                                            << " at node " << t << " | " << P.describe());
      REQUIRE(!(yy > tl && zz != hi), "positive multiplier " << yy << " with the slack " << zz << " below its upper bound " << hi
                                                           << " at node " << t << " | " << P.describe());
    }
    REQUIRE(vclose(z, s.z_[t], 1e-9), "slack is not the relaxed projection at node " << t << " | " << P.describe());
    REQUIRE(vclose(y, s.y_[t], 1e-9, 10.), "multiplier does not follow the dual ascent at node " << t << " | " << P.describe());
    // residuals (C11)
    const VectorXd w = s.rho_vec_[t].cwiseProduct(s.z_[t] - z0[t]);
    np = std::max(np, ninf(C - s.z_[t]));
    npr = std::max(npr, std::max(ninf(C), ninf(s.z_[t])));
    if (s.update_rho_with_heuristic_) {
      nd = std::max(nd, ninf(w));
      ndr = std::max(ndr, ninf(s.y_[t]));
    } else {
      nd = std::max(nd, ninf(d.Gx.transpose() * w));
      ndr = std::max(ndr, ninf(d.Gx.transpose() * s.y_[t]));
      if (t < P.T()) {
        nd = std::max(nd, nu ? ninf(d.Gu.transpose() * w) : 0.);
        ndr = std::max(ndr, nu ? ninf(d.Gu.transpose() * s.y_[t]) : 0.);
      }
    }
  }
  if (it % (int)s.rho_update_interval_ == 0 && cur_prop == "C11") {
    REQUIRE(close(np, s.norm_primal_), "primal residual " << s.norm_primal_ << " instead of " << np << " | " << P.describe());
    REQUIRE(close(nd, s.norm_dual_), "dual residual " << s.norm_dual_ << " instead of " << nd << " | " << P.describe());
    REQUIRE(close(npr, s.norm_primal_rel_), "primal scale " << s.norm_primal_rel_ << " instead of " << npr << " | " << P.describe());
    REQUIRE(close(ndr, s.norm_dual_rel_), "dual scale " << s.norm_dual_rel_ << " instead of " << ndr << " | " << P.describe());
  }
}

static void check_rho(const Prob& P, Spy<SolverCSQP>& s, const std::string& tag) {
  const double base = s.get_rho_sparse();
  REQUIRE(base > 0 && base <= s.rho_max_ * (1 + 1e-12), tag << ": base penalty " << base << " outside its limits | " << P.describe());
  for (std::size_t t = 0; t <= P.T(); ++t)
    for (int j = 0; j < (int)P.toys[t]->get_ng(); ++j) {
      const double lb = P.toys[t]->get_g_lb()[j], ub = P.toys[t]->get_g_ub()[j];
      const double e = (lb == -INF && ub == INF) ? s.rho_min_ : std::fabs(lb - ub) <= 1e-6 ? 1e3 * base : base;
      REQUIRE(close(s.rho_vec_[t][j], e, 1e-12), tag << ": penalty " << s.rho_vec_[t][j] << " instead of " << e << " for bounds [" << lb
                                                    << "," << ub << "] at node " << t << " | " << P.describe());
      REQUIRE(close(s.inv_rho_vec_[t][j] * s.rho_vec_[t][j], 1., 1e-12), tag << ": inverse penalty is not the reciprocal at node " << t
                                                                        << " | " << P.describe());
    }
}
static void c10(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, true);
  Prob P = make_problem(r, sp);
  Spy<SolverCSQP> s(P.p);
  rand_settings(r, s);
  no_faults();
  csqp_prepare(r, P, s);
  check_rho(P, s, "apply_rho_update");
  for (int rep = 0; rep < 8; ++rep) {
    const double old = s.rho_sparse_;
    const Traj ro = s.rho_vec_;
    s.norm_primal_ = r.p(0.1) ? -INF : r.p(0.1) ? 0. : std::pow(10., r.u(-6, 3));
    s.norm_dual_ = r.p(0.1) ? -INF : r.p(0.1) ? 0. : std::pow(10., r.u(-6, 3));
    s.norm_primal_rel_ = r.p(0.1) ? -INF : r.p(0.1) ? 0. : std::pow(10., r.u(-3, 3));
    s.norm_dual_rel_ = r.p(0.1) ? -INF : r.p(0.1) ? 0. : std::pow(10., r.u(-3, 3));
    const int it = r.i(1, 30);
    s.update_rho_vec(it);
    const double est = std::sqrt((s.norm_primal_ * s.norm_dual_rel_) / (s.norm_dual_ * s.norm_primal_rel_)) * old;
    const double lim = std::isnan(est) ? est : std::min(std::max(est, s.rho_min_), s.rho_max_);
    const double tol = s.adaptive_rho_tolerance_;
    const bool due = it % (int)s.rho_update_interval_ == 0 && (lim > old * tol || lim < old / tol);
    const bool edge = close(lim, old * tol, 1e-9) || close(lim, old / tol, 1e-9);
    if (!edge) {
      if (due)
        REQUIRE(close(s.rho_sparse_, lim, 1e-9), "base penalty " << s.rho_sparse_ << " instead of the bounded estimate " << lim << " | "
                                                                << P.describe());
      else
        REQUIRE(s.rho_sparse_ == old && same(ro, s.rho_vec_), "penalties changed although no update was due (iteration "
                                                                << it << ", estimate " << lim << ", base " << old << ") | " << P.describe());
    }
    check_rho(P, s, "update_rho_vec");
  }
  s.reset_rho_vec();
  REQUIRE(s.rho_sparse_ == s.rho_sparse_base_, "reset does not restore the base penalty | " << P.describe());
  check_rho(P, s, "reset_rho_vec");
  // whole solves: penalties are consistent whenever used, and factorisations are those of the current penalties
  std::vector<double> bases;
  long stale = 0;
  s.on_forward = [&]() {
    check_rho(P, s, "inner iteration");
    REQUIRE(bases.empty() || s.qp_iters_ == 1 || s.rho_sparse_ == bases.back() ||
                (s.qp_iters_ - 1) % s.rho_update_interval_ == 0,
            "base penalty changed outside the update interval | " << P.describe());
    bases.push_back(s.rho_sparse_);
    // K = Quu^-1 Qux for the current penalties
    const LQ q = al_model(P, s, true);
    auto& R = P.p->get_runningDatas();
    MatrixXd V = q.Hxx[P.T()];
    double sc = 1;
    for (int t = (int)P.T() - 1; t >= 0; --t) {
      const int nu = P.toys[t]->get_nu();
      MatrixXd Q = q.Hxx[t] + R[t]->Fx.transpose() * V * R[t]->Fx;
      if (nu) {
        MatrixXd Quu = q.Huu[t] + R[t]->Fu.transpose() * V * R[t]->Fu;
        MatrixXd Qux = q.Hxu[t].transpose() + R[t]->Fu.transpose() * V * R[t]->Fx;
        sc = 1 + Quu.cwiseAbs().maxCoeff() * (1 + s.K_[t].cwiseAbs().maxCoeff()) + Qux.cwiseAbs().maxCoeff();
        if (!((Quu * s.K_[t] - Qux).cwiseAbs().maxCoeff() <= 1e-6 * sc)) ++stale;
        Q -= Qux.transpose() * Quu.llt().solve(Qux);
      }
      V = 0.5 * (Q + Q.transpose());
    }
    REQUIRE(stale == 0, "gains of another penalty vector reused in inner iteration " << s.qp_iters_ << " | " << P.describe());
  };
  Traj xs, us;
  rand_traj(r, P, xs, us);
  for (int rep = 0; rep < 2; ++rep) {
    bases.clear();
    s.solve(xs, us, r.i(1, 4));
  }
  s.on_forward = nullptr;
}

static void c11(unsigned long seed) {
  if (seed % 2) return c09(seed);
  Rnd r(seed);
  Spec sp = rand_spec(r, true);
  Prob P = make_problem(r, sp);
  Spy<SolverCSQP> s(P.p);
  rand_settings(r, s);
  if (r.p(0.5)) {
    s.set_eps_abs(1e-3);
    s.set_max_qp_iters(r.i(20, 400));
  }
  no_faults();
  csqp_prepare(r, P, s);
  Traj z0, rho;
  long fw = 0;
  s.on_forward = [&]() {
    ++fw;
    z0 = s.z_;
    rho = s.rho_vec_;
  };
  s.start_time_ = crocoddyl::getProfiler().take_time();
  try {
    s.computeDirection(true);
  } catch (std::exception&) {
    return;
  }
  s.on_forward = nullptr;
  const long n = s.qp_iters_;
  REQUIRE(fw <= (long)s.max_qp_iters_, "more inner iterations (" << fw << ") than allowed " << s.max_qp_iters_ << " | " << P.describe());
  if (fw == (long)s.max_qp_iters_) return;
  REQUIRE(n == fw, "reported " << n << " inner iterations, ran " << fw << " | " << P.describe());
  REQUIRE(fw % (long)s.rho_update_interval_ == 0, "inner loop left at iteration " << fw << ", not an update iteration | " << P.describe());
  double np = -INF, nd = -INF, npr = -INF, ndr = -INF;
  auto& R = P.p->get_runningDatas();
  for (std::size_t t = 0; t <= P.T(); ++t) {
    auto& d = t < P.T() ? *R[t] : *P.p->get_terminalData();
    const int nc = P.toys[t]->get_ng(), nu = t < P.T() ? P.toys[t]->get_nu() : 0;
    if (!nc) continue;
    VectorXd C = d.Gx * s.SolverCSQP::dx_[t];
    if (nu) C += d.Gu * s.SolverCSQP::du_[t];
    const VectorXd w = rho[t].cwiseProduct(s.z_[t] - z0[t]);
    np = std::max(np, ninf(C - s.z_[t]));
    npr = std::max(npr, std::max(ninf(C), ninf(s.z_[t])));
    if (s.update_rho_with_heuristic_) {
      nd = std::max(nd, ninf(w));
      ndr = std::max(ndr, ninf(s.y_[t]));
    } else {
      nd = std::max(nd, std::max(ninf(d.Gx.transpose() * w), nu ? ninf(d.Gu.transpose() * w) : 0.));
      ndr = std::max(ndr, std::max(ninf(d.Gx.transpose() * s.y_[t]), nu ? ninf(d.Gu.transpose() * s.y_[t]) : 0.));
    }
  }
  const bool rel = std::fabs(s.eps_rel_) > std::numeric_limits<double>::epsilon();
  const double tp = s.eps_abs_ + (rel ? s.eps_rel_ * npr : 0.), td = s.eps_abs_ + (rel ? s.eps_rel_ * ndr : 0.);
  REQUIRE(close(np, s.norm_primal_) && close(nd, s.norm_dual_), "reported residuals " << s.norm_primal_ << ", " << s.norm_dual_
                                                                << " but they are " << np << ", " << nd << " | " << P.describe());
  REQUIRE((np <= tp || np <= tp + 1e-9 * (1 + std::fabs(tp))) && (nd <= td || nd <= td + 1e-9 * (1 + std::fabs(td))),
          "inner loop left at iteration " << fw << " with residuals " << np << ", " << nd << " above the tolerances " << tp << ", " << td
                                          << " | " << P.describe());
}

// ================================================================ C12
template <class S>
void c12(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, Tr<S>::cons);
  sp.T = r.i(1, 2);
  sp.nu0 = false;
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  no_faults();
  for (int k = 0; k < 6; ++k) {
    if (r.p(0.5)) s.set_reg_incfactor(1. + std::pow(10., r.u(-2, 2)));
    if (r.p(0.5)) s.set_reg_decfactor(1. + std::pow(10., r.u(-2, 2)));
    if (r.p(0.3)) s.set_reg_min(r.p(0.2) ? 0. : std::pow(10., r.u(-12, 0)));
    if (r.p(0.3)) s.set_reg_max(std::pow(10., r.u(0, 10)));
    s.preg_ = std::pow(10., r.u(-12, 10));
    s.dreg_ = s.preg_;
    const double p0 = s.preg_;
    s.increaseRegularization();
    REQUIRE(close(s.preg_, std::min(p0 * s.get_reg_incfactor(), s.get_reg_max()), 1e-14), "increase of " << p0 << " gives " << s.preg_);
    REQUIRE(s.preg_ == s.dreg_, "state and control regularisation differ after an increase");
    const double p1 = s.preg_;
    s.decreaseRegularization();
    REQUIRE(close(s.preg_, std::max(p1 / s.get_reg_decfactor(), s.get_reg_min()), 1e-14), "decrease of " << p1 << " gives " << s.preg_);
    REQUIRE(s.preg_ == s.dreg_, "state and control regularisation differ after a decrease");
  }
  // a solve that keeps failing returns
  if (r.p(0.5)) s.set_reg_max(1e3);
  if (r.p(0.5)) s.set_reg_incfactor(r.u(2., 20.));
  Traj xs, us;
  rand_traj(r, P, xs, us);
  F = Faults();
  F.on = true;
  F.freq = 2.;
  F.node = -1;
  F.dkind = r.p(0.5) ? Faults::DINDEF : Faults::DTHROW;
  if (std::is_same<S, SolverPROXQP>::value || std::is_same<S, SolverKKT>::value) F.dkind = Faults::DTHROW;
  F.kill_after = 30000;
  double reg = r.p(0.3) ? 0. : r.p(0.3) ? NaN : std::pow(10., r.u(-9, 12));
  if (r.p(0.15)) reg = -1.;
  if (r.p(0.2)) s.set_reg_min(0.);
  bool ok = true;
  // the retry limit is counted by the spy: directions are tried without end otherwise
  s.rec = false;
  s.dir_limit = 20000;
  double last = -1;
  bool notlarger = false;
  s.on_dir = [&](bool first) {
    (void)first;
    if (s.dirthrow_seen && !(s.preg_ > last)) notlarger = true;
    last = s.preg_;
  };
  bool escaped = false;
  try {
    ok = s.solve(xs, us, 5, false, reg);
  } catch (Killed&) {
    REQUIRE(false, "a solve whose backward pass keeps failing does not return (initial regularisation " << reg << ", limits " << s.get_reg_min()
                                                                                               << ".." << s.get_reg_max() << ") | " << P.describe());
  } catch (std::exception&) {
    escaped = true;
  }
  s.on_dir = nullptr;
  if (escaped) return;
  if (F.dkind == Faults::DTHROW || s.dirok == 0) {
    REQUIRE(!ok, "a solve whose direction computation always fails reports success | " << P.describe());
    REQUIRE(!notlarger, "retry without a larger regularisation | " << P.describe());
  }
}
static void c12kkt(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  sp.vary_nu = true;
  Prob P = make_problem(r, sp);
  SolverKKT s(P.p);
  F = Faults();
  F.on = true;
  F.freq = 2.;
  F.dkind = Faults::DTHROW;
  F.kill_after = 20000;
  Traj xs, us;
  rand_traj(r, P, xs, us);
  bool ok = true;
  try {
    ok = s.solve(xs, us, 3);
  } catch (Killed&) {
    REQUIRE(false, "SolverKKT: a solve whose direction keeps failing does not return | " << P.describe());
  }
  REQUIRE(!ok, "SolverKKT: success reported although the derivatives cannot be evaluated | " << P.describe());
}

// ================================================================ C14
template <class S>
void c14(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, Tr<S>::cons);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  if (r.p(0.6)) s.S::termination_tol_ = r.p(0.5) ? -1. : 1e-12;
  constexpr bool csqp = std::is_same<S, SolverCSQP>::value;
  double limit = INF;
  if constexpr (csqp) {
    if (r.p(0.4)) s.set_max_solve_time(limit = r.p(0.4) ? 0. : std::pow(10., r.u(-6, -2)));
    if (r.p(0.2)) s.set_max_qp_iters(r.i(1, 3));
  }
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us);
  const int maxiter = r.i(0, 6);
  std::vector<std::pair<long, long>> qp;  // ran, reported
  long fw = 0;
  s.on_forward = [&]() { ++fw; };
  s.on_dir = [&](bool before) {
    if (before)
      fw = 0;
    else
      qp.push_back({fw, s.reported_qp()});
  };
  s.log.clear();
  s.dirs = 0;
  bool ok = false;
  const double t0 = crocoddyl::getProfiler().take_time();
  try {
    ok = s.solve(xs, us, maxiter);
  } catch (std::exception&) {
    return;
  }
  const double t1 = crocoddyl::getProfiler().take_time();
  long kk = 0, tries_after = 0, outer = 0;
  bool trial = false;
  bool passed = false;
  for (auto& e : s.log) {
    if (e.k == Ev::KKT) {
      ++kk;
      passed = e.kkt <= s.S::termination_tol_;
      trial = false;
    }
    if (e.k == Ev::TRY && !trial) {
      trial = true;
      ++outer;
    }
  }
  (void)tries_after;
  bool extra = false;
  if constexpr (!std::is_same<S, SolverPROXQP>::value && Tr<S>::filter) extra = s.get_extra_iteration_for_last_kkt();
  REQUIRE(outer <= maxiter, outer << " outer iterations with a step, " << maxiter << " requested | " << P.describe());
  REQUIRE(kk <= maxiter + (extra ? 1 : 0), kk << " iterations, " << maxiter << " requested, extra " << extra << " | " << P.describe());
  REQUIRE(!ok || passed, "success without the residual test having passed | " << P.describe());
  REQUIRE((long)s.get_iter() <= maxiter, "iteration counter " << s.get_iter() << " above " << maxiter);
  if constexpr (csqp) {
    for (auto& q : qp) {
      REQUIRE(q.first <= (long)s.get_max_qp_iters(), "inner iterations " << q.first << " above the budget " << s.get_max_qp_iters()
                                                                       << " | " << P.describe());
      REQUIRE(q.first == q.second, "reported " << q.second << " inner iterations, ran " << q.first << " (budget " << s.get_max_qp_iters()
                                               << ") | " << P.describe());
    }
    const bool flag = s.get_max_solve_time_reached();
    REQUIRE(!flag || t1 - t0 >= limit - 5e-6, "time-limit flag set after " << t1 - t0 << " s with a limit of " << limit << " | " << P.describe());
    if (limit == 0.) {
      REQUIRE(maxiter == 0 || flag, "time limit 0 reached but not flagged | " << P.describe());
      REQUIRE(maxiter == 0 || outer == 0, "outer iteration started after the time limit | " << P.describe());
    }
    // no iteration starts once the limit was seen
    if (flag && !s.seen_flag_at_dir_end.empty()) {
      bool was = false;
      for (bool b : s.seen_flag_at_dir_end) {
        REQUIRE(!was, "a direction was computed after the time limit had been reached | " << P.describe());
        was = was || b;
      }
    }
    // a later solve starts with a cleared flag
    s.set_max_solve_time(INF);
    s.solve(xs, us, 1);
    REQUIRE(!s.get_max_solve_time_reached(), "time-limit flag kept from an earlier solve | " << P.describe());
  }
  if (!ok && !extra && s.get_iter() < (std::size_t)maxiter && kk > 0 && !csqp) {
    // left early without success: only because the regularisation gave up
    REQUIRE(s.preg_ >= s.get_reg_max() || s.preg_ <= 0., "solve left after " << kk << " iterations without success or failure | " << P.describe());
  }
}

// ================================================================ C15
template <class S>
std::vector<double> settings_of(Spy<S>& s) {
  std::vector<double> v = {s.get_reg_incfactor(), s.get_reg_decfactor(), s.get_reg_min(), s.get_reg_max(), s.get_th_stepdec(),
                           s.get_th_stepinc(), s.get_th_grad(), s.S::termination_tol_};
  v.push_back(s.get_th_acceptstep());
  v.push_back(s.get_th_stop());
  if constexpr (Tr<S>::filter) {
    v.push_back(s.get_filter_size());
    v.push_back(s.get_mu_dynamic());
    v.push_back(s.get_use_filter_line_search());
  }
  if constexpr (Tr<S>::cons) {
    v.push_back(s.get_mu_constraint());
    v.push_back(s.get_eps_abs());
    v.push_back(s.get_eps_rel());
    v.push_back(s.max_qp_iters_);
  }
  if constexpr (std::is_same<S, SolverCSQP>::value) {
    v.push_back(s.get_sigma());
    v.push_back(s.get_alpha());
    v.push_back(s.get_rho_sparse());
    v.push_back(s.get_rho_update_interval());
    v.push_back(s.get_adaptive_rho_tolerance());
    v.push_back(s.get_max_solve_time());
    v.push_back(s.get_equality_qp_initial_guess());
    v.push_back(s.get_lag_mul_inf_norm_coef());
    v.push_back(s.get_extra_iteration_for_last_kkt());
    v.push_back(s.getQPCallbacks());
  }
  if constexpr (std::is_same<S, SolverSQP>::value) v.push_back(s.get_extra_iteration_for_last_kkt());
  v.push_back(s.get_alphas().size());
  for (double a : s.get_alphas()) v.push_back(a);
  return v;
}
static bool vsame(const std::vector<double>& a, const std::vector<double>& b, std::vector<int> except = {}) {
  if (a.size() != b.size()) return false;
  for (std::size_t k = 0; k < a.size(); ++k) {
    bool ex = false;
    for (int e : except) ex = ex || e == (int)k;
    if (!ex && !(a[k] == b[k] || (std::isnan(a[k]) && std::isnan(b[k])))) return false;
  }
  return true;
}
template <class S>
void c15(unsigned long seed) {
  Rnd r(seed);
  Spec sp;
  sp.cons = Tr<S>::cons;
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  no_faults();
  auto val = [&](int) {
    const double sp[] = {NaN, INF, -INF, 0., -0., 1., -1., 1. + 1e-15, 1. - 1e-16, 5e-324, -5e-324, 0.5, 2., 1e300};
    return r.p(0.6) ? sp[r.i(0, 13)] : r.n(2.);
  };
  for (int rep = 0; rep < 12; ++rep) {
    const double x = val(0);
    auto before = settings_of(s);
    bool thrown = false;
    auto call = [&](const std::function<void()>& f) {
      thrown = false;
      try {
        f();
      } catch (std::exception&) {
        thrown = true;
      }
    };
    auto judge = [&](const char* name, bool valid, std::vector<int> fields, double got) {
      REQUIRE(thrown == !valid, name << "(" << x << ") was " << (thrown ? "rejected" : "accepted"));
      auto after = settings_of(s);
      if (!valid)
        REQUIRE(vsame(before, after), name << "(" << x << ") was rejected but changed a setting");
      else {
        REQUIRE(vsame(before, after, fields), name << "(" << x << ") changed another setting");
        REQUIRE(got == x, name << "(" << x << ") stored " << got);
        for (int f : fields) REQUIRE(after[f] == x, name << "(" << x << ") did not take effect");
      }
    };
    switch (r.i(0, 11)) {
      case 0: call([&] { s.set_reg_incfactor(x); }); judge("set_reg_incfactor", x > 1., {0}, s.get_reg_incfactor()); break;
      case 1: call([&] { s.set_reg_decfactor(x); }); judge("set_reg_decfactor", x > 1., {1}, s.get_reg_decfactor()); break;
      case 2: call([&] { s.set_regfactor(x); }); judge("set_regfactor", x > 1., {0, 1}, s.get_regfactor()); break;
      case 3: call([&] { s.set_reg_min(x); }); judge("set_reg_min", x >= 0., {2}, s.get_reg_min()); break;
      case 4: call([&] { s.set_regmin(x); }); judge("set_regmin", x >= 0., {2}, s.get_regmin()); break;
      case 5: call([&] { s.set_reg_max(x); }); judge("set_reg_max", x >= 0., {3}, s.get_reg_max()); break;
      case 6: call([&] { s.set_regmax(x); }); judge("set_regmax", x >= 0., {3}, s.get_regmax()); break;
      case 7: call([&] { s.set_th_stepdec(x); }); judge("set_th_stepdec", x > 0. && x <= 1., {4}, s.get_th_stepdec()); break;
      case 8: call([&] { s.set_th_stepinc(x); }); judge("set_th_stepinc", x > 0. && x <= 1., {5}, s.get_th_stepinc()); break;
      case 9: call([&] { s.set_th_grad(x); }); judge("set_th_grad", x >= 0., {6}, s.get_th_grad()); break;
      default: {
        std::vector<double> al;
        const int n = r.i(0, 5);
        double a = r.p(0.7) ? 1. : val(0);
        for (int k = 0; k < n; ++k) {
          al.push_back(a);
          a = r.p(0.85) ? a * r.u(0.2, 0.95) : val(0);
        }
        bool valid = !al.empty();
        for (std::size_t k = 0; k < al.size(); ++k) {
          if (!(al[k] > 0.)) valid = false;
          if (k && !(al[k] < al[k - 1])) valid = false;
        }
        std::ostringstream os;
        for (double q : al) os << q << " ";
        std::vector<double> old = s.get_alphas();
        call([&] { s.set_alphas(al); });
        REQUIRE(thrown == !valid, "set_alphas(" << os.str() << ") was " << (thrown ? "rejected" : "accepted"));
        if (!valid)
          REQUIRE(vsame(before, settings_of(s)), "set_alphas(" << os.str() << ") was rejected but changed a setting");
        else {
          REQUIRE(s.get_alphas() == al, "set_alphas(" << os.str() << ") did not take effect");
          auto after = settings_of(s);
          const std::size_t k = before.size() - old.size() - 1;
          before.resize(k);
          after.resize(k);
          REQUIRE(vsame(before, after), "set_alphas changed another setting");
        }
      }
    }
    if constexpr (Tr<S>::filter) {
      before = settings_of(s);
      const int n = r.i(1, 9);
      switch (r.i(0, 4)) {
        case 0:
          s.set_filter_size(n);
          REQUIRE(s.get_filter_size() == (std::size_t)n && vsame(before, settings_of(s), {10}), "set_filter_size(" << n << ")");
          break;
        case 1: s.set_mu_dynamic(0.5 * n); REQUIRE(s.get_mu_dynamic() == 0.5 * n && vsame(before, settings_of(s), {11}), "set_mu_dynamic"); break;
        case 2:
          s.set_use_filter_line_search(n % 2);
          REQUIRE(s.get_use_filter_line_search() == (n % 2 == 1) && vsame(before, settings_of(s), {12}), "set_use_filter_line_search");
          break;
        case 3:
          s.set_termination_tolerance(1e-3 * n);
          REQUIRE(s.get_termination_tolerance() == 1e-3 * n && vsame(before, settings_of(s), {7}), "set_termination_tolerance");
          break;
        default:
          if constexpr (Tr<S>::cons) {
            s.set_mu_constraint(0.25 * n);
            REQUIRE(s.get_mu_constraint() == 0.25 * n && vsame(before, settings_of(s), {13}), "set_mu_constraint");
            before = settings_of(s);
            s.set_eps_abs(1e-5 * n);
            REQUIRE(s.get_eps_abs() == 1e-5 * n && vsame(before, settings_of(s), {14}), "set_eps_abs");
            before = settings_of(s);
            s.set_eps_rel(1e-6 * n);
            REQUIRE(s.get_eps_rel() == 1e-6 * n && vsame(before, settings_of(s), {15}), "set_eps_rel");
            before = settings_of(s);
            s.set_max_qp_iters(n);
            REQUIRE(s.get_max_qp_iters() == n && vsame(before, settings_of(s), {16}), "set_max_qp_iters");
          }
      }
      if constexpr (std::is_same<S, SolverCSQP>::value) {
        before = settings_of(s);
        switch (r.i(0, 8)) {
          case 0: s.set_sigma(1e-3 * n); REQUIRE(s.get_sigma() == 1e-3 * n && vsame(before, settings_of(s), {17}), "set_sigma"); break;
          case 1: s.set_alpha(0.1 * n); REQUIRE(s.get_alpha() == 0.1 * n && vsame(before, settings_of(s), {18}), "set_alpha"); break;
          case 2: s.set_rho_sparse(0.1 * n); REQUIRE(s.get_rho_sparse() == 0.1 * n && vsame(before, settings_of(s), {19}), "set_rho_sparse"); break;
          case 3:
            s.set_rho_update_interval(n);
            REQUIRE((int)s.get_rho_update_interval() == n && vsame(before, settings_of(s), {20}), "set_rho_update_interval");
            break;
          case 4:
            s.set_adaptive_rho_tolerance(n);
            REQUIRE((int)s.get_adaptive_rho_tolerance() == n && vsame(before, settings_of(s), {21}), "set_adaptive_rho_tolerance");
            break;
          case 5:
            s.set_max_solve_time(n);
            REQUIRE(s.get_max_solve_time() == n && vsame(before, settings_of(s), {22}), "set_max_solve_time");
            break;
          case 6:
            s.set_equality_qp_initial_guess(n % 2);
            REQUIRE(s.get_equality_qp_initial_guess() == (n % 2 == 1) && vsame(before, settings_of(s), {23}), "set_equality_qp_initial_guess");
            break;
          case 7:
            s.set_lag_mul_inf_norm_coef(n);
            REQUIRE(s.get_lag_mul_inf_norm_coef() == n && vsame(before, settings_of(s), {24}), "set_lag_mul_inf_norm_coef");
            break;
          default:
            s.set_extra_iteration_for_last_kkt(n % 2);
            REQUIRE(s.get_extra_iteration_for_last_kkt() == (n % 2 == 1) && vsame(before, settings_of(s), {25}), "set_extra_iteration_for_last_kkt");
        }
      }
    }
  }
}

// ================================================================ C18: buffers (run with library assertions / sanitizers)
template <class S>
void c18(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, Tr<S>::cons);
  sp.T = r.p(0.4) ? 1 : r.i(2, 4);
  sp.nu0 = true;
  sp.circle = r.p(0.4);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  no_faults();
  if (r.p(0.3)) fault_plan(r, true, true);
  if constexpr (Tr<S>::filter) {
    s.set_filter_size(r.i(0, 4));
  }
  if constexpr (std::is_same<S, SolverCSQP>::value) {
    try {
      s.set_rho_update_interval(r.p(0.2) ? 0 : r.i(1, 4));
    } catch (std::exception&) {  // rejecting 0 is fine
    }
    s.set_max_qp_iters(r.i(0, 12));
  }
  Traj xs, us;
  rand_traj(r, P, xs, us);
  auto go = [&](int n) {
    try {
      if (r.p(0.2))
        s.solve(crocoddyl::DEFAULT_VECTOR, crocoddyl::DEFAULT_VECTOR, n);
      else
        s.solve(xs, us, n);
    } catch (std::exception&) {
    }
  };
  go(r.i(0, 6));
  if constexpr (Tr<S>::filter) s.set_filter_size(r.i(0, 6));
  go(r.i(0, 6));
  if constexpr (std::is_same<S, SolverCSQP>::value) {
    try {
      csqp_prepare(r, P, s);
      s.backwardPass();
      s.forwardPass(0.);
      s.backwardPass_without_rho_update();
      s.backwardPass_mt();
      s.backwardPass_without_rho_update_mt();
    } catch (std::exception&) {
    }
  }
}

// ================================================================ C19
#ifdef MIM_SOLVERS_WITH_PROXQP
static void c19(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, true);
  Prob P = make_problem(r, sp);
  Spy<SolverPROXQP> s(P.p);
  no_faults();
  for (int rep = 0; rep < 2; ++rep) {
    Traj xs, us;
    if (r.p(0.4)) {  // the QP must not depend on what the solver did before
      rand_traj(r, P, xs, us);
      s.set_termination_tolerance(1e-12);
      s.set_max_qp_iters(r.i(1, 60));
      try {
        s.solve(xs, us, r.i(1, 4), r.p(0.3));
      } catch (std::exception&) {
      }
    }
    rand_traj(r, P, xs, us);
    xs[0] = P.p->get_x0();
    s.setCandidate(xs, us, false);
    s.set_eps_abs(1e-5);
    s.set_eps_rel(0.);
    s.set_max_qp_iters(r.i(1, 60));
    const bool direct = r.p(0.3);
    try {
      if (direct)
        s.calc(true);
      else
        s.computeDirection(true);
    } catch (std::exception&) {
      return;
    }
    Eval e = evaluate(P, xs, us, true);
    const int T = P.T(), n = P.ndx();
    int nv = T * n, nin = 0;
    for (int t = 0; t < T; ++t) nv += P.toys[t]->get_nu();
    for (int t = 0; t <= T; ++t) nin += P.toys[t]->get_ng();
    MatrixXd Q = MatrixXd::Zero(nv, nv), A = MatrixXd::Zero(T * n, nv), C = MatrixXd::Zero(nin, nv);
    VectorXd q = VectorXd::Zero(nv), b = VectorXd::Zero(T * n), l = VectorXd::Zero(nin), u = VectorXd::Zero(nin);
    int iu = T * n, ic = 0;
    for (int t = 0; t <= T; ++t) {
      auto& d = *e.d[t];
      const int nu = t < T ? P.toys[t]->get_nu() : 0, nc = P.toys[t]->get_ng();
      if (t > 0) {
        Q.block((t - 1) * n, (t - 1) * n, n, n) = d.Lxx;
        q.segment((t - 1) * n, n) = d.Lx;
        if (nc) C.block(ic, (t - 1) * n, nc, n) = d.Gx;
        if (t < T) A.block(t * n, (t - 1) * n, n, n) = -d.Fx;
        if (nu) {
          Q.block((t - 1) * n, iu, n, nu) = d.Lxu;
          Q.block(iu, (t - 1) * n, nu, n) = d.Lxu.transpose();
        }
      }
      if (t < T) {
        A.block(t * n, t * n, n, n).setIdentity();
        if (nu) A.block(t * n, iu, n, nu) = -d.Fu;
        b.segment(t * n, n) = e.fs[t + 1];
      }
      if (nu) {
        Q.block(iu, iu, nu, nu) = d.Luu;
        q.segment(iu, nu) = d.Lu;
        if (nc) C.block(ic, iu, nc, nu) = d.Gu;
      }
      if (nc) {
        l.segment(ic, nc) = P.toys[t]->get_g_lb() - d.g;
        u.segment(ic, nc) = P.toys[t]->get_g_ub() - d.g;
      }
      iu += nu;
      ic += nc;
    }
    auto mc = [&](const MatrixXd& a, const MatrixXd& b2, const char* name) {
      REQUIRE(a.rows() == b2.rows() && a.cols() == b2.cols(), name << " has size " << b2.rows() << "x" << b2.cols() << " instead of " << a.rows() << "x"
                                                                  << a.cols() << " | " << P.describe());
      for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j)
          REQUIRE(close(a(i, j), b2(i, j)), name << "(" << i << "," << j << ") is " << b2(i, j) << " instead of " << a(i, j) << " | " << P.describe());
    };
    mc(Q, s.get_P(), "P");
    mc(A, s.get_A(), "A");
    mc(C, s.get_C(), "C");
    mc(q, s.get_q(), "q");
    mc(b, s.get_b(), "b");
    mc(l, s.get_l(), "l");
    mc(u, s.get_u(), "u");
    mc(Q, MatrixXd(s.Psp_), "sparse P");
    mc(A, MatrixXd(s.Asp_), "sparse A");
    mc(C, MatrixXd(s.Csp_), "sparse C");
    if (direct) continue;
    // read-back: the direction and multipliers are the parts of the solution of that QP
    proxsuite::proxqp::sparse::QP<double, long long> qp(nv, T * n, nin);
    qp.init(Eigen::SparseMatrix<double>(s.get_P().sparseView()), s.get_q(), Eigen::SparseMatrix<double>(s.get_A().sparseView()), s.get_b(),
            Eigen::SparseMatrix<double>(s.get_C().sparseView()), s.get_l(), s.get_u());
    qp.settings.eps_abs = s.eps_abs_;
    qp.settings.eps_rel = s.eps_rel_;
    qp.settings.max_iter = s.max_qp_iters_;
    qp.settings.max_iter_in = s.max_qp_iters_;
    qp.solve();
    const VectorXd &X = qp.results.x, &Y = qp.results.y, &Z = qp.results.z;
    if (qp.results.info.status != proxsuite::proxqp::QPSolverOutput::PROXQP_SOLVED || X.hasNaN() || Y.hasNaN() || Z.hasNaN()) continue;
    iu = T * n, ic = 0;
    REQUIRE(ninf(s.SolverPROXQP::dx_[0]) == 0, "dx[0] is not zero | " << P.describe());
    for (int t = 0; t <= T; ++t) {
      const int nu = t < T ? P.toys[t]->get_nu() : 0, nc = P.toys[t]->get_ng();
      if (t < T) {
        REQUIRE(vclose(X.segment(t * n, n), s.SolverPROXQP::dx_[t + 1], 1e-9), "dx[" << t + 1 << "] is not the QP solution's part | " << P.describe());
        REQUIRE(vclose(X.segment(iu, nu), s.SolverPROXQP::du_[t], 1e-9), "du[" << t << "] is not the QP solution's part | " << P.describe());
        REQUIRE(vclose(-Y.segment(t * n, n), s.SolverPROXQP::lag_mul_[t + 1], 1e-9), "multiplier " << t + 1 << " is not the QP solution's part | " << P.describe());
      }
      REQUIRE(vclose(Z.segment(ic, nc), s.y_[t], 1e-9), "constraint multiplier " << t << " is not the QP solution's part | " << P.describe());
      iu += nu;
      ic += nc;
    }
  }
}
#endif

// ================================================================ main
// ================================================================ C21: quadratic model and acceptance of DDP / FDDP
struct Pred {
  double m1, m2, a;
  bool feas;
};
template <class S>
Pred predict(const Prob& P, Spy<S>& s, double a, bool with_move) {
  constexpr bool fdd = std::is_same<S, SolverFDDP>::value;
  Pred p{0, 0, a, (bool)s.is_feasible_};
  for (std::size_t t = 0; t < P.T(); ++t) {
    if (!P.toys[t]->get_nu()) continue;
    p.m1 += s.Qu_[t].dot(s.k_[t]);
    p.m2 -= s.k_[t].dot(s.Quu_[t] * s.k_[t]);
  }
  if (fdd && !p.feas) {
    double mv = 0;
    VectorXd dx(P.ndx());
    for (std::size_t t = 0; t <= P.T(); ++t) {
      p.m1 -= s.Vx_[t].dot(s.fs_[t]);
      p.m2 += s.fs_[t].dot(s.Vxx_[t] * s.fs_[t]);
      if (with_move) {
        P.st->diff(s.xs_try_[t], s.xs_[t], dx);
        mv -= s.fs_[t].dot(s.Vxx_[t] * dx);
      }
    }
    p.m1 += mv;
    p.m2 -= 2 * mv;
  }
  return p;
}

template <class S>
void c21_model(unsigned long seed) {
  constexpr bool fdd = std::is_same<S, SolverFDDP>::value;
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us, 0.4);
  const bool feas = r.p(0.3);
  if (feas) xs = P.p->rollout_us(us);
  s.xs_try_[0] = P.p->get_x0();
  s.setCandidate(xs, us, feas);
  s.preg_ = std::pow(10., r.u(-9, 0));
  s.dreg_ = std::pow(10., r.u(-9, 0));
  try {
    s.computeDirection(true);
  } catch (std::exception&) {
    return;
  }
  const std::size_t T = P.T();
  const double tol = 1e-7;
  auto mclose = [&](const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
    return a.rows() == b.rows() && a.cols() == b.cols() &&
           (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff() + a.cwiseAbs().maxCoeff()));
  };
  const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(P.ndx(), P.ndx());
  auto gp = [&](std::size_t t) { return s.is_feasible_ ? VectorXd(VectorXd::Zero(P.ndx())) : VectorXd(s.Vxx_[t] * s.fs_[t]); };
  {
    auto d = P.p->get_terminalData();
    REQUIRE(mclose(s.Vxx_[T], d->Lxx + s.preg_ * I), "terminal value Hessian | " << P.describe());
    REQUIRE(mclose(s.Vx_[T], d->Lx + gp(T)), "terminal value gradient | " << P.describe());
  }
  for (std::size_t t = 0; t < T; ++t) {
    auto d = P.p->get_runningDatas()[t];
    const int nu = (int)P.toys[t]->get_nu();
    Eigen::MatrixXd Vxx = d->Lxx + d->Fx.transpose() * s.Vxx_[t + 1] * d->Fx + s.preg_ * I;
    VectorXd Vx = d->Lx + d->Fx.transpose() * s.Vx_[t + 1];
    if (nu) {
      const Eigen::MatrixXd Quu =
          d->Luu + d->Fu.transpose() * s.Vxx_[t + 1] * d->Fu + s.dreg_ * Eigen::MatrixXd::Identity(nu, nu);
      const Eigen::MatrixXd Qxu = d->Lxu + d->Fx.transpose() * s.Vxx_[t + 1] * d->Fu;
      const VectorXd Qu = d->Lu + d->Fu.transpose() * s.Vx_[t + 1];
      REQUIRE(mclose(Quu * s.k_[t], Qu), "feedforward term of node " << t << " does not solve the model | " << P.describe());
      REQUIRE(mclose(Quu * s.K_[t], Qxu.transpose()), "gain of node " << t << " does not solve the model | " << P.describe());
      const Eigen::MatrixXd W = Qxu * s.K_[t];
      Vxx -= 0.5 * (W + W.transpose());
      Vx -= s.K_[t].transpose() * Qu;
    }
    REQUIRE(mclose(s.Vxx_[t], Vxx), "value Hessian of node " << t << " | " << P.describe());
    REQUIRE(mclose(s.Vx_[t], Vx + gp(t)), "value gradient of node " << t << " | " << P.describe());
  }
  const double a = r.p(0.3) ? 1. : r.u();
  if constexpr (fdd) s.updateExpectedImprovement();
  try {
    s.tryStep(a);
  } catch (std::exception&) {
    return;
  }
  const Eigen::Vector2d d = s.expectedImprovement();
  const Pred p = predict(P, s, a, true);
  const double sc = 1 + std::fabs(p.m1) + std::fabs(p.m2);
  REQUIRE(std::fabs(d[0] - p.m1) <= tol * sc && std::fabs(d[1] - p.m2) <= tol * sc,
          "predicted improvement (" << d.transpose() << ") but the model gives " << p.m1 << " " << p.m2 << " | " << P.describe());
  if constexpr (fdd) {
    FaultsOff off;
    const Eval e = evaluate(P, s.xs_try_, s.us_try_, false);
    if (!e.threw && !e.nan && std::isfinite(s.gap_norm_try_))
      REQUIRE(std::fabs(s.gap_norm_try_ - e.gap1) <= 1e-7 * (1 + e.gap1 + maxabs(s.xs_try_)),
              "gap norm of the trial " << s.gap_norm_try_ << " but its gaps sum to " << e.gap1 << " | " << P.describe());
  }
}

template <class S>
void c21_accept(unsigned long seed) {
  constexpr bool fdd = std::is_same<S, SolverFDDP>::value;
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  if (r.p(0.2)) sp.indef = r.u(0.1, 1.0);
  if (r.p(0.3)) sp.eps = r.u(0.5, 3.0);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  s.S::termination_tol_ = 1e-9;
  if (r.p(0.4)) s.th_acceptstep_ = r.u(0.01, 0.95);
  if (r.p(0.2)) s.th_grad_ = r.u(0, 0.1);
  std::size_t fsize = 1;
  bool filter = false;
  if constexpr (fdd) {
    filter = r.p(0.6);
    s.set_use_filter_line_search(filter);
    const int n = r.i(0, 2);
    for (int k = 0; k < n; ++k) s.set_filter_size(r.i(1, 5));
    if (r.p(0.3)) s.th_acceptnegstep_ = r.u(0.1, 4);
    fsize = s.filter_size_;
  }
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us, 0.5);
  if (r.p(0.3)) attempt([&] { return s.solve(xs, us, r.i(0, 4)); });
  rand_traj(r, P, xs, us, 0.5);
  bool feas = false;
  if (r.p(0.3)) {
    xs = P.p->rollout_us(us);
    feas = true;
  } else if (r.p(0.5)) {
    xs[0] = P.p->get_x0();
  }
  s.log.clear();
  std::vector<Pred> preds;  // one per TRY event that did not throw
  s.after_try = [&] { preds.push_back(predict(P, s, s.steplength_, true)); };
  if (r.p(0.2)) fault_plan(r, true, false);
  attempt([&] { return s.solve(xs, us, r.i(1, 12), feas); });
  FaultsOff off;
  struct It {
    const Ev* kkt;
    const Ev* last = nullptr;
    int pred = -1;
  };
  std::vector<It> its;
  int np = 0;
  for (const Ev& e : s.log) {
    if (e.k == Ev::KKT) its.push_back(It{&e});
    if (e.k == Ev::TRY) {
      const int id = e.threw ? -1 : np++;
      if (!its.empty()) its.back().last = &e, its.back().pred = id;
    }
  }
  for (std::size_t k = 0; k < its.size(); ++k) {
    const It& it = its[k];
    const Traj& nx = k + 1 < its.size() ? its[k + 1].kkt->xs : s.xs_;
    const Traj& nu = k + 1 < its.size() ? its[k + 1].kkt->us : s.us_;
    if (same(nx, it.kkt->xs) && same(nu, it.kkt->us)) continue;
    REQUIRE(it.last && !it.last->threw && same(nx, it.last->xs) && same(nu, it.last->us),
            "iterate " << k + 1 << " is neither the previous iterate nor the last trial | " << P.describe());
    const Eval eo = evaluate(P, it.kkt->xs, it.kkt->us, false), en = evaluate(P, nx, nu, false);
    if (eo.threw || en.threw || eo.nan || en.nan) continue;
    if (!std::isfinite(it.kkt->cost) || !std::isfinite(it.last->cost)) continue;  // an injected infinite cost
    const double dV = eo.cost - en.cost;
    const double tl = 1e-7 * (1 + std::fabs(eo.cost) + std::fabs(en.cost));
    if (filter) {
      for (std::size_t j = 0; j < std::min(fsize, k + 1); ++j) {
        const Ev& o = *its[k - j].kkt;
        const Eval ej = evaluate(P, o.xs, o.us, false);
        if (ej.threw || ej.nan || !std::isfinite(o.cost)) continue;
        const double g = 1e-7 * (1 + ej.gap1 + maxabs(nx));
        REQUIRE(en.cost < ej.cost + tl || en.gap1 < ej.gap1 + g,
                "filter adopted a trial (cost " << en.cost << " gap " << en.gap1 << ") no better than iterate " << k - j << " (cost "
                                                << ej.cost << " gap " << ej.gap1 << ") | " << P.describe());
      }
      continue;
    }
    const Pred& p = preds[it.pred];
    const double e = p.a * (p.m1 + 0.5 * p.a * p.m2);
    const double te = tl + 1e-7 * (1 + std::fabs(p.m1) + std::fabs(p.m2));
    bool ok;
    if (!fdd)
      ok = e >= -te && (p.m1 < s.th_grad_ + te || !p.feas || dV > s.th_acceptstep_ * e - te);
    else {
      double neg = 0;
      if constexpr (fdd) neg = s.th_acceptnegstep_;
      ok = (e >= -te && (p.m1 < s.th_grad_ + te || dV > s.th_acceptstep_ * e - te)) || (e < te && dV > neg * e - te);
    }
    REQUIRE(ok, "adopted a trial with cost decrease " << dV << " where the model predicts " << e << " (slope " << p.m1
                                                      << ", step " << p.a << ", threshold " << s.th_acceptstep_ << ") | "
                                                      << P.describe());
  }
}

// ================================================================ C16: adopted trials of DDP and FDDP
template <class S>
void c16_adopt(unsigned long seed) {
  Rnd r(seed);
  Spec sp = rand_spec(r, false);
  if (r.p(0.2)) sp.indef = r.u(0.1, 1.0);
  if (r.p(0.3)) sp.eps = r.u(0.5, 3.0);
  Prob P = make_problem(r, sp);
  Spy<S> s(P.p);
  rand_settings(r, s);
  if (r.p(0.8)) s.S::termination_tol_ = 1e-9;
  if constexpr (std::is_same<S, SolverFDDP>::value) {
    s.set_use_filter_line_search(r.p(0.6));
    const int n = r.i(0, 2);
    for (int k = 0; k < n; ++k) s.set_filter_size(r.i(1, 5));
  }
  no_faults();
  Traj xs, us;
  rand_traj(r, P, xs, us, r.u(0.05, 1.0));
  if (r.p(0.3)) attempt([&] { return s.solve(xs, us, r.i(0, 4)); });
  rand_traj(r, P, xs, us, r.u(0.05, 1.0));
  bool feas = false;
  if (r.p(0.3)) {
    xs = P.p->rollout_us(us);
    feas = true;
  } else if (r.p(0.5)) {
    xs[0] = P.p->get_x0();
  }
  s.log.clear();
  fault_plan(r, true, r.p(0.3));
  const bool ok = attempt([&] { return s.solve(xs, us, r.i(1, 12), feas); });
  REQUIRE(!(ok && std::isnan(s.S::KKT_)), "success reported with a residual that is not a number | " << P.describe());
  std::vector<std::pair<const Ev*, const Ev*>> its;
  for (const Ev& e : s.log) {
    if (e.k == Ev::KKT) its.push_back({&e, nullptr});
    if (e.k == Ev::TRY && !its.empty()) its.back().second = &e;
  }
  for (std::size_t k = 0; k < its.size(); ++k) {
    const Traj& nx = k + 1 < its.size() ? its[k + 1].first->xs : s.xs_;
    const Traj& nu = k + 1 < its.size() ? its[k + 1].first->us : s.us_;
    if (same(nx, its[k].first->xs) && same(nu, its[k].first->us)) continue;
    const Ev* last = its[k].second;
    REQUIRE(last && same(nx, last->xs) && same(nu, last->us),
            "iterate " << k + 1 << " is neither the previous iterate nor the last trial | " << P.describe());
    REQUIRE(!last->threw, "adopted a trial whose evaluation failed | " << P.describe());
    Eval en = evaluate(P, nx, nu, false);
    REQUIRE(!en.threw, "adopted a trial whose evaluation throws | " << P.describe());
    REQUIRE(!en.nan, "adopted a trial whose cost or predicted states are not numbers (cost " << en.cost << " gap " << en.gap1 << ") | "
                                                                                             << P.describe());
  }
}

// ================================================================ C22: a solve does not depend on the solves before it
static bool sameval(double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }
template <class S>
void c22(unsigned long seed) {
  Rnd r(seed);
  const unsigned long ps = 1 + seed * 3;
  auto prob = [&] {
    Rnd q(ps);
    Spec sp = rand_spec(q, Tr<S>::cons);
    if (q.p(0.2)) sp.indef = q.u(0.1, 1.5);
    return make_problem(q, sp);
  };
  Prob PA = prob(), PB = prob();
  Spy<S> a(PA.p), b(PB.p);
  double tol = r.p(0.5) ? 1e-9 : std::pow(10., r.u(-6, 1));
  // these solvers test the residual with the multipliers of the last direction or trial, carried over by design:
  // any multipliers certify, so only the moment of stopping depends on them
  if (!std::is_same<S, SolverSQP>::value && !std::is_same<S, SolverCSQP>::value) tol = -1;
  auto setup = [&](Spy<S>& s) {
    Rnd q(ps + 1);
    rand_settings(q, s);
    s.S::termination_tol_ = tol;
    if constexpr (std::is_same<S, SolverFDDP>::value) s.set_use_filter_line_search(q.p(0.5));
    if constexpr (std::is_same<S, SolverCSQP>::value) {
      // kept by configuration: multipliers; proximal centre of the subproblem
      s.reset_y_ = true;
      s.set_equality_qp_initial_guess(true);
      s.remove_reg_ = q.p(0.3);
    }
  };
  setup(a);
  setup(b);
  Traj xs, us;
  const int n = r.i(1, 3);
  // a feasible solve after one that stopped before its first step
  const bool stop_then_feas = !Tr<S>::filter && n > 1 && r.p(0.4);
  for (int k = 0; k < n; ++k) {
    rand_traj(r, PA, xs, us, r.u(0.05, 1.0));
    bool feas = false;
    const bool at_once = stop_then_feas && k == n - 1;
    if (!Tr<S>::filter && !at_once && r.p(stop_then_feas ? 0.8 : 0.3)) {
      no_faults();
      xs = PA.p->rollout_us(us);
      feas = true;
    }
    no_faults();
    if (!at_once && r.p(0.4)) fault_plan(r, true, r.p(0.5));
    const double reg = r.p(0.5) ? NaN : std::pow(10., r.u(-9, 2));
    if (at_once || r.p(0.3)) a.S::termination_tol_ = 1e6;  // stops at once
    if constexpr (std::is_same<S, SolverCSQP>::value)
      if (r.p(0.2)) a.set_max_solve_time(0.);
    attempt([&] { return a.solve(xs, us, r.i(0, 8), feas, reg); });
    a.S::termination_tol_ = tol;
    if constexpr (std::is_same<S, SolverCSQP>::value) a.set_max_solve_time(std::numeric_limits<double>::infinity());
  }
  no_faults();
  rand_traj(r, PA, xs, us, r.u(0.05, 1.0));
  bool feas = false;
  if (!Tr<S>::filter && r.p(stop_then_feas ? 1.0 : 0.3)) {
    xs = PA.p->rollout_us(us);
    feas = true;
  }
  if (r.p(0.1)) xs.clear(), us.clear(), feas = false;
  const double reg = r.p(0.5) ? NaN : std::pow(10., r.u(-9, 1));
  const int maxiter = r.i(1, 8);
  a.log.clear();
  a.dirs = b.dirs = 0;
  auto go = [&](Spy<S>& s) {
    return attempt([&] {
      return xs.empty() ? s.solve(crocoddyl::DEFAULT_VECTOR, crocoddyl::DEFAULT_VECTOR, maxiter, feas, reg)
                        : s.solve(xs, us, maxiter, feas, reg);
    });
  };
  const bool okb = go(b);
  const bool oka = go(a);
  const std::size_t m = std::min(a.log.size(), b.log.size());
  for (std::size_t k = 0; k < m; ++k) {
    const Ev &x = a.log[k], &y = b.log[k];
    REQUIRE(x.k == y.k && x.threw == y.threw, "step " << k << " of the solve differs from the same solve without history | " << PA.describe());
    if (x.threw) continue;
    if (x.k == Ev::DIR || x.k == Ev::KKT) {
      REQUIRE(same(x.xs, y.xs) && same(x.us, y.us), "iterate at step " << k << " differs from the same solve without history | " << PA.describe());
      REQUIRE(sameval(x.preg, y.preg), "regularisation " << x.preg << " at step " << k << ", without history " << y.preg << " | " << PA.describe());
      REQUIRE(same(x.fs, y.fs), "gaps at step " << k << " differ from those of the same solve without history | " << PA.describe());
      if (x.k == Ev::DIR)
        REQUIRE(same(x.dx, y.dx) && same(x.du, y.du), "direction at step " << k << " differs from the same solve without history | " << PA.describe());
    }
    if (x.k == Ev::TRY)
      REQUIRE(same(x.xs, y.xs) && same(x.us, y.us) && sameval(x.cost, y.cost), "trial at step " << k << " differs from the same solve without history | " << PA.describe());
  }
  REQUIRE(a.log.size() == b.log.size() && oka == okb && a.iter_ == b.iter_ && same(a.xs_, b.xs_) && same(a.us_, b.us_),
          "result " << oka << " after " << a.iter_ << " iterations, without history " << okb << " after " << b.iter_ << " | " << PA.describe());
  if constexpr (std::is_same<S, SolverCSQP>::value) {
    // what every direction starts from
    a.reset_y_ = r.p(0.6);
    a.reset_rho_ = r.p(0.5);
    a.equality_qp_initial_guess_ = r.p(0.5);
    const Traj y0 = a.y_;
    const Traj rho0 = a.rho_vec_;
    a.reset_params();
    REQUIRE(maxabs(a.z_) == 0, "a direction starts with slacks that are not zero | " << PA.describe());
    if (a.reset_y_)
      REQUIRE(maxabs(a.y_) == 0, "a direction starts with multipliers that are not zero although they are to be reset | " << PA.describe());
    else
      REQUIRE(same(a.y_, y0), "multipliers changed by the reset although they are to be kept | " << PA.describe());
    if (a.reset_rho_)
      REQUIRE(a.rho_sparse_ == a.rho_sparse_base_, "penalty not reset to its base value | " << PA.describe());
    else
      REQUIRE(same(a.rho_vec_, rho0), "penalties changed by the reset although they are to be kept | " << PA.describe());
  }
}

#include "trust.hpp"

static void one(const std::string& p, unsigned long seed) {
  const unsigned long k = seed;
  if (p == "TRUST") return trust_sample(k);
  if (p == "C01") return certificate<SolverSQP>(k, k % 3 == 0, k % 9 == 0);
  if (p == "C02") return certificate<SolverCSQP>(k, k % 3 == 0, k % 9 == 0);
  if (p == "C03") return certificate<SolverPROXQP>(k, k % 3 == 0, k % 9 == 0);
  if (p == "C04") {
    switch (k % 4) {
      case 0: return certificate_ddp<SolverDDP>(k);
      case 1: return certificate_ddp<SolverFDDP>(k);
      case 2: return rollouts<SolverDDP>(k);
      default: return rollouts<SolverFDDP>(k);
    }
  }
  if (p == "C16" && k % 5 >= 3) return k % 5 == 3 ? c16_adopt<SolverDDP>(k) : c16_adopt<SolverFDDP>(k);
  if (p == "C05" || p == "C13" || p == "C16" || p == "C17") {
    switch (k % (p == "C17" ? 2 : 3)) {
      case 0: return history<SolverSQP>(k, p);
      case 1: return history<SolverCSQP>(k, p);
      default: return history<SolverPROXQP>(k, p);
    }
  }
  if (p == "C06") {
    switch (k % 3) {
      case 0: return trial<SolverSQP>(k);
      case 1: return trial<SolverCSQP>(k);
      default: return trial<SolverPROXQP>(k);
    }
  }
  if (p == "C07") return c07(k);
  if (p == "C08") return c08(k);
  if (p == "C09") return c09(k);
  if (p == "C10") return c10(k);
  if (p == "C11") return c11(k);
  if (p == "C12") {
    switch (k % 6) {
      case 0: return c12<SolverSQP>(k);
      case 1: return c12<SolverCSQP>(k);
      case 2: return c12<SolverPROXQP>(k);
      case 3: return c12<SolverDDP>(k);
      case 4: return c12<SolverFDDP>(k);
      default: return c12kkt(k);
    }
  }
  if (p == "C14") {
    switch (k % 4) {
      case 0: return c14<SolverSQP>(k);
      case 3: return c14<SolverPROXQP>(k);
      default: return c14<SolverCSQP>(k);
    }
  }
  if (p == "C15") {
    switch (k % 5) {
      case 0: return c15<SolverSQP>(k);
      case 1: return c15<SolverCSQP>(k);
      case 2: return c15<SolverPROXQP>(k);
      case 3: return c15<SolverDDP>(k);
      default: return c15<SolverFDDP>(k);
    }
  }
  if (p == "C18") {
    switch (k % 5) {
      case 0: return c18<SolverSQP>(k);
      case 1: return c18<SolverPROXQP>(k);
      case 2: return c18<SolverDDP>(k);
      case 3: return c18<SolverFDDP>(k);
      default: return c18<SolverCSQP>(k);
    }
  }
  if (p == "C19") return c19(k);
  if (p == "C21") {
    switch (k % 4) {
      case 0: return c21_model<SolverDDP>(k);
      case 1: return c21_model<SolverFDDP>(k);
      case 2: return c21_accept<SolverDDP>(k);
      default: return c21_accept<SolverFDDP>(k);
    }
  }
  if (p == "C22") {
    switch (k % 5) {
      case 0: return c22<SolverSQP>(k);
      case 1: return c22<SolverPROXQP>(k);
      case 2: return c22<SolverDDP>(k);
      case 3: return c22<SolverFDDP>(k);
      default: return c22<SolverCSQP>(k);
    }
  }
  std::fprintf(stderr, "unknown property %s\n", p.c_str());
  std::exit(3);
}

static void on_signal(int sg) {
  // a crash while running one input: report it (only async-signal-safe output)
  char buf[160];
  int n = std::snprintf(buf, sizeof buf, "\nCRASH property=%s seed=%lu signal=%d\n", cur_prop.c_str(), cur_seed, sg);
  ssize_t w = write(1, buf, n);
  (void)w;
  _exit(sg == SIGALRM ? 5 : 4);
}

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  cur_prop = argv[1];
  const unsigned long s0 = std::strtoul(argv[2], nullptr, 10), cnt = std::strtoul(argv[3], nullptr, 10);
  const double secs = std::atof(argv[4]);
  for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) std::signal(sg, on_signal);
  std::ostringstream sink;
  auto* keep_cerr = std::cerr.rdbuf(sink.rdbuf());
  const auto t0 = std::chrono::steady_clock::now();
  unsigned long n = 0;
  int bad = 0;
  for (unsigned long k = 0; k < cnt; ++k) {
    cur_seed = s0 + k;
    alarm(60);
    try {
      one(cur_prop, cur_seed);
    } catch (Fail& f) {
      std::printf("FAIL property=%s seed=%lu %s\n", cur_prop.c_str(), cur_seed, f.what.c_str());
      if (++bad >= 12) break;
    } catch (Killed&) {
      std::printf("FAIL property=%s seed=%lu the call did not return within %ld model evaluations\n", cur_prop.c_str(), cur_seed, F.kill_after);
      if (++bad >= 12) break;
    } catch (std::exception& e) {
      std::printf("FAIL property=%s seed=%lu unexpected exception: %s\n", cur_prop.c_str(), cur_seed, e.what());
      if (++bad >= 12) break;
    }
    ++n;
    sink.str("");
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  alarm(0);
  std::cerr.rdbuf(keep_cerr);
  std::printf("DONE property=%s inputs=%lu failures=%d\n", cur_prop.c_str(), n, bad);
  return bad ? 1 : 0;
}

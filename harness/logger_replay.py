"""Bounded replay for C20: runs solvers through the Python bindings with a CallbackLogger and an independent recorder.

usage: logger_replay.py PYDIR SEED COUNT SECONDS"""
import sys
import time

sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
import crocoddyl  # noqa: E402
import mim_solvers  # noqa: E402

MAP = dict(us='us', xs='xs', fs='fs', iter='iter', cost='cost', merit='merit', preg='preg', dreg='dreg', step='stepLength',
           KKT='KKT')
EXTRA = dict(gap_norm='gap_norm', constraint_norm='constraint_norm', qp_iter='qp_iters')


def plain(v):
    if isinstance(v, (int, float)):
        return float(v)
    return [np.array(x, dtype=float).copy() for x in v.tolist()] if hasattr(v, 'tolist') else \
        [np.array(x, dtype=float).copy() for x in v]


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


class Recorder(mim_solvers.CallbackAbstract):
    def __init__(self):
        super().__init__()
        self.rows = []

    def __call__(self, solver, typ):
        m = dict(MAP)
        if typ == 'CSQP':
            m.update(EXTRA)
        row = {k: plain(getattr(solver, a)) for k, a in m.items()}
        row['_type'] = typ
        row['_mu'] = (solver.mu_dynamic, getattr(solver, 'mu_constraint', 0.))
        self.rows.append(row)


class Pair(mim_solvers.CallbackAbstract):
    """calls the logger and the recorder on the same state, and checks that the logger changes nothing of the solver"""
    def __init__(self, log, rec):
        super().__init__()
        self.log, self.rec, self.bad = log, rec, None

    def __call__(self, solver, typ):
        if typ != ('CSQP' if isinstance(solver, mim_solvers.SolverCSQP) else 'SQP'):
            self.bad = 'a %s calls back with the type %r' % (type(solver).__name__, typ)
        self.rec(solver, typ)
        self.log(solver, typ)
        r2 = Recorder()
        r2(solver, typ)
        a, b = self.rec.rows[-1], r2.rows[-1]
        for k in a:
            if k[0] != '_' and not same(a[k], b[k]):
                self.bad = 'the logger changes solver.%s' % k


def problem(rng):
    T = int(rng.integers(1, 9))
    if rng.random() < .5:
        m = crocoddyl.ActionModelUnicycle()
        m.dt = .05
        m.costWeights = rng.uniform(.1, 10, 2)
    else:
        nx, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        m = crocoddyl.ActionModelLQR(nx, nu, True)
    x0 = rng.uniform(-1, 1, m.state.nx)
    return crocoddyl.ShootingProblem(x0, [m] * T, m)


def one(seed):
    rng = np.random.default_rng(seed)
    log, rec = mim_solvers.CallbackLogger(), Recorder()
    if log.convergence_data:
        return 'a new logger is not empty'
    calls = {}
    for _ in range(int(rng.integers(1, 4))):
        p = problem(rng)
        cls = mim_solvers.SolverSQP if rng.random() < .5 else mim_solvers.SolverCSQP
        s = cls(p)
        pair = Pair(log, rec)
        s.setCallbacks([pair] if rng.random() < .5 else [pair, Recorder()])
        s.termination_tolerance = 10.0 ** float(rng.integers(-9, -2))
        if cls is mim_solvers.SolverCSQP:
            s.max_qp_iters = int(rng.integers(1, 300))
        s.use_filter_line_search = bool(rng.random() < .5)
        s.extra_iteration_for_last_kkt = bool(rng.random() < .5)
        n0 = len(rec.rows)
        xs = [rng.uniform(-1, 1, p.x0.size) for _ in range(p.T + 1)]
        us = [rng.uniform(-1, 1, m.nu) for m in p.runningModels]
        ok = s.solve(xs, us, int(rng.integers(0, 8)), False)
        if ok and not s.KKT <= s.termination_tolerance:
            return 'solver.KKT is %r at success, tolerance %r' % (s.KKT, s.termination_tolerance)
        if pair.bad:
            return pair.bad
        for row in rec.rows[n0:]:
            if row['_type'] == 'CSQP':
                g = sum(np.abs(f).sum() for f in row['fs'])
                if abs(g - row['gap_norm']) > 1e-8 * (1 + g):
                    return 'gap_norm logged %r, the gaps logged sum to %r' % (row['gap_norm'], g)
                w = row['cost'] + row['_mu'][0] * row['gap_norm'] + row['_mu'][1] * row['constraint_norm']
                if abs(w - row['merit']) > 1e-8 * (1 + abs(w)):
                    return 'merit logged %r, cost + penalties is %r' % (row['merit'], w)
                if not 0 <= row['qp_iter'] <= s.max_qp_iters or row['qp_iter'] != int(row['qp_iter']):
                    return 'qp_iter logged %r' % row['qp_iter']
        if rng.random() < .3:
            before = {k: len(v) for k, v in log.convergence_data.items()}
            try:
                log(s, 'DDP')
                return 'a solver of another type is accepted'
            except Exception:
                pass
            if {k: len(v) for k, v in log.convergence_data.items()} != before:
                return 'a rejected call changes the log'
    # compare everything at the end: earlier entries must still be as they were
    want = {}
    for row in rec.rows:
        for k, v in row.items():
            if k[0] != '_':
                want.setdefault(k, []).append(v)
    for k, vs in want.items():
        got = log.convergence_data.get(k)
        if got is None or len(got) != len(vs):
            return 'history %r has %s entries, %d calls' % (k, 'no' if got is None else len(got), len(vs))
        for i, (a, b) in enumerate(zip(got, vs)):
            if not same(plain(a), b):
                return 'entry %d of %r is %r, the solver held %r' % (i, k, plain(a), b)
    for k in log.convergence_data:
        if k not in want and k in dict(MAP, **EXTRA) and log.convergence_data[k]:
            return 'history %r grows without a call' % k
    return None


def main():
    seed, count, secs = int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
    t0, n, bad = time.time(), 0, 0
    while n < count and time.time() - t0 < secs and bad < 5:
        try:
            e = one(seed + n)
        except Exception as x:
            e = 'exception %s: %s' % (type(x).__name__, str(x)[:200])
        if e:
            bad += 1
            print('FAIL C20 input=%d %s' % (seed + n, ' '.join(e.split())[:400]), flush=True)
        n += 1
    print('DONE C20 inputs=%d fails=%d' % (n, bad))


main()

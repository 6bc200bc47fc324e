"""Runs the units of a property, the replay harness, and reports."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def load_units(prog):
    from . import unit
    from . import u_settings
    mods = [u_settings]
    for m in ('u_data', 'u_csqp', 'u_lq', 'u_dir', 'u_nan', 'u_solve', 'u_proxqp', 'u_ctor', 'u_logger', 'u_bind', 'u_model', 'u_start'):
        try:
            mods.append(__import__('mimv.' + m, fromlist=['x']))
        except ModuleNotFoundError as e:
            if m not in str(e):
                raise
    for m in mods:
        m.register(prog)
    return unit.UNITS


_G = {}


def _work(i, timeout, q):
    from . import unit
    try:
        r = unit.run_unit(_G['prog'], _G['units'][i], timeout)
    except BaseException as e:
        r = dict(unit=_G['units'][i].name, props=_G['units'][i].props, err='crashed: %r' % e, obs=[], funcs=[], queries=0,
                 solver_s=0, wall=0, notes=[], vac=[], invariants=[])
    q.send(r)
    q.close()


def run_units(prog, units, timeout, jobs=8, verbose=False):
    _G['prog'], _G['units'] = prog, units
    ctx = mp.get_context('fork')
    todo = list(range(len(units)))
    live = {}
    out = [None] * len(units)
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(i, timeout, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        done = []
        for i, (p, a, t0) in live.items():
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = 'dead'
            elif time.time() - t0 > timeout + 60:
                r = 'timeout'
            if r is None:
                continue
            if isinstance(r, str):
                p.kill()
                u = units[i]
                r = dict(unit=u.name, props=u.props, err=r, obs=[], funcs=[], queries=0, solver_s=0,
                         wall=round(time.time() - t0, 1), notes=[], vac=[], invariants=[])
            p.join()
            out[i] = r
            done.append(i)
            if verbose:
                print('%-60s %6.1fs %s' % (r['unit'], r['wall'], r['err'] or 'ok'), flush=True)
        for i in done:
            del live[i]
    return out



# ------------------------------------------------------------------ replay harness (bounded)
REPO = os.environ.get('MIMV_REPO', '/repo')


class Harness:
    """builds /repo with the harness (in the background) and runs it: bounded search for failing inputs"""

    def __init__(self, work, mode='plain'):
        self.out = os.path.join(work, 'h_' + mode)
        self.mode = mode
        self.p = subprocess.Popen(['bash', os.path.join(HERE, 'harness', 'buildpy.sh' if mode == 'py' else 'build.sh'), self.out] +
                                  ([mode] if mode == 'asan' else []),
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.err = None
        self.ready = False
        self.trust = None

    def wait(self):
        if self.ready or self.err:
            return self.ready
        try:
            o, _ = self.p.communicate(timeout=400)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.err = 'the build of the harness did not end'
            return False
        if self.p.returncode != 0:
            self.err = 'the harness does not compile against this tree: ' + (o or '')[-600:]
            return False
        self.ready = True
        return True

    def run(self, prop, seed, seconds, procs):
        """-> (inputs, [failure lines])"""
        if not self.wait():
            return 0, []
        ps = []
        for k in range(procs):
            what = [os.path.join(self.out, 'harness'), prop]
            if self.mode == 'py':
                what = ['/opt/mim-venv/bin/python', '-B', os.path.join(HERE, 'harness', 'logger_replay.py'),
                        os.path.join(self.out, 'py')]
            ps.append(subprocess.Popen(['timeout', str(seconds + 150)] + what +
                                       [str(seed * 1000000 + k * 100000), '90000', str(seconds)],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'))
        n, fails = 0, []
        outs = [p.communicate()[0] for p in ps]
        for o in outs:
            for ln in o.split('\n'):
                if ln.startswith('DONE'):
                    for w in ln.split():
                        if w.startswith('inputs='):
                            n += int(w[7:])
                elif ln.startswith(('FAIL ', 'CRASH ', 'HANG ')) or 'ERROR: AddressSanitizer' in ln or \
                        'runtime error:' in ln:
                    fails.append(ln[:600])
                elif ln.startswith('ASSERTION'):
                    fails.append(ln[:600])
        return n, fails


def known_findings():
    out = []
    try:
        for ln in open(os.path.join(HERE, 'known_findings.txt')):
            ln = ln.strip()
            if ln.startswith('known: property='):
                prop = ln.split('property=')[1].split()[0]
                pat = ln.split('match="')[1].split('"')[0]
                out.append((prop, pat, ln))
    except OSError:
        pass
    return out


TRUSTED = [
    'clang 18 AST (JSON) of /repo sources and the translation of C++ statements in mimv/front.py, mimv/symex.py',
    'mimv/lib.py: contracts of Eigen, std::vector, boost::circular_buffer and crocoddyl (problem, models, datas, state) operations',
    'mimv/terms.py, mimv/loops.py: normal forms of matrix expressions, loop summarisation and invariant generation',
    'z3 4.8.12+ (python z3-solver)',
    'C20: mimv/pyv.py (symbolic execution of the Python logger over CPython\'s ast) and Boost.Python',
]
ASSUME = [
    'double arithmetic is exact real arithmetic, except for NaN flags where a unit tracks them; overflow and rounding are not modelled',
    'crocoddyl ShootingProblem::calc/calcDiff evaluate every node at the given point; action and state models are deterministic functions of their arguments and write only to their data',
    'objects do not alias: the member vectors of a solver share no storage with each other or with the problem data',
    'integer counters (size_t, int) do not overflow; unsigned subtraction is checked (category wrap)',
    'per-node dimensions nu(t) >= 0, ng(t) >= 0, horizon T >= 1, ndx >= 1, fixed at construction; bounds satisfy lb <= ub',
]


def main(argv):
    import argparse
    import shutil
    import signal
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = a.tier == 'thorough'
    work = os.path.join(HERE, 'work', '%s-%d' % (a.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return run_check(a, t0, seed, thorough, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check(a, t0, seed, thorough, work):
    H = None
    dev = a.prop == 'ALL' or a.only or a.no_harness
    if not dev:
        H = Harness(work, 'py' if a.prop == 'C20' else 'plain')
        HA = Harness(work, 'asan') if (a.prop == 'C18' and thorough) else None
    from . import front
    front_err = None
    res = []
    try:
        prog = front.build()
        units = [u for u in load_units(prog) if (a.prop == 'ALL' or a.prop in u.props) and (not a.only or a.only in u.name)]
        res = run_units(prog, units, 600 if thorough else 420, verbose=a.v)
    except Exception as e:
        import traceback
        front_err = '%s: %s' % (type(e).__name__, str(e)[:400])
        if a.v:
            traceback.print_exc()
    obs = []
    undecided = []
    for r in res:
        if r['err']:
            undecided.append((r['unit'], 'the contract could not be decided: ' + r['err']))
        for o in r['obs']:
            if a.prop in ('ALL', o['prop']):
                obs.append((r['unit'], o))
                if o['status'] not in ('proved', 'refuted'):
                    undecided.append((r['unit'], '%s: %s (%s)' % (o['name'], o['status'], o['detail'][:200])))
    refuted = [(u, o) for u, o in obs if o['status'] == 'refuted']
    for u, o in refuted:
        print('OBLIGATION FAILED  %s  [%s] %s  at %s\n    %s' % (u, o['kind'], o['name'], o['where'], o['detail'][:1500]))
    for u, w in undecided:
        print('UNDECIDED  %s  %s' % (u, w))
    if front_err:
        print('UNDECIDED  the sources could not be translated: %s' % front_err)
    n_in, fails = 0, []
    asan_n = 0
    if not dev:
        secs, procs = (240, 8) if thorough else (15, 6)
        n_in, fails = H.run(a.prop, seed, secs, procs)
        if HA is not None:
            asan_n, f2 = HA.run(a.prop, seed + 50, 120, 8)
            fails += f2
        if refuted and not fails:
            n2, f2 = H.run(a.prop, seed + 100, 60, 8)
            n_in += n2
            fails += f2
        if a.prop != 'C20':
            tn, tf = H.run('TRUST', seed, 30 if thorough else 2, 1)
            H.trust = (tn, tf)
            for x in tf[:3]:
                print('UNDECIDED  an assumed contract does not hold of the installed library: ' + x[:300])
        if H.err:
            print('UNDECIDED  ' + H.err.replace('\n', ' '))
    kf = [(p, pat, ln) for p, pat, ln in known_findings() if p == a.prop]
    shown = set()

    def known(text):
        for p, pat, ln in kf:
            if pat in text:
                if ln not in shown:
                    shown.add(ln)
                    print('KNOWN-FINDING: property=%s %s' % (p, ln.split('" ', 1)[-1]))
                return True
        return False
    fails = [f for f in fails if not known(f)]
    refuted = [(u, o) for u, o in refuted if not known('%s | %s | %s' % (u, o['name'], o['detail']))]
    nviol = 0
    proved = sum(1 for _, o in obs if o['status'] == 'proved')
    print('%s: %d units, %d obligations, %d discharged, %d refuted, %d undecided; bounded replay: %d inputs, %d failures; %.0f s' %
          (a.prop, len(res), len(obs), proved, len(refuted), len(undecided), n_in + asan_n, len(fails), time.time() - t0))
    if dev:
        return 0
    rc = 0
    if fails or refuted:
        rc = 1
        nviol = len(refuted) or len(fails)
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', 'replay', a.prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n\nfailed obligations:\n' % a.prop)
            for u, o in refuted:
                f.write('  %s\n    [%s] %s at %s\n    %s\n' % (u, o['kind'], o['name'], o['where'], o['detail']))
            f.write('\nfailing inputs on the real code (re-run: bash /verif/harness/build.sh DIR; DIR/harness %s SEED 1 60):\n' % a.prop)
            for x in fails[:50]:
                f.write('  ' + x + '\n')
        for x in fails[:5]:
            print('  ' + x[:400])
        print('VIOLATION property=%s replay=%s%s' % (a.prop, rp, '' if fails else ' no-failing-input-found'))
    write_evidence(a.prop, 'thorough' if thorough else 'quick', seed, res, obs, proved, undecided, front_err, n_in, asan_n,
                   fails, nviol, time.time() - t0, H)
    if rc == 0 and front_err and H.err:
        return 2
    return rc


def write_evidence(prop, tier, seed, res, obs, proved, undecided, front_err, n_in, asan_n, fails, nviol, wall, H):
    import json
    funcs = sorted(set(f for r in res for f in r['funcs']))
    nf = sum(1 for _, o in obs if o['status'] == 'proved' and not o.get('z3'))
    inv = [x for r in res for x in r['invariants']]
    bounded = sorted(set(u for u, _ in undecided))
    level = 'proof' if obs and not undecided and not front_err else 'other'
    notes = sorted(set(n for r in res for n in r['notes']))
    cov = dict(
        obligations=len(obs), discharged=proved,
        checker_cmd='python3-vt mimv/check.py %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED,
        functions_under_contract=funcs,
        units=[dict(unit=r['unit'], obligations=sum(1 for o in r['obs'] if o['prop'] == prop),
                    proved=sum(1 for o in r['obs'] if o['prop'] == prop and o['status'] == 'proved'),
                    wall_s=r['wall'], solver_queries=r['queries'], solver_s=r['solver_s'],
                    undecided=r['err'] or None) for r in res],
        solver='z3 (python API) for guards, integer and real arithmetic; normal forms of the matrix algebra for the rest',
        solver_queries=sum(r['queries'] for r in res), solver_s=round(sum(r['solver_s'] for r in res), 2),
        loop_invariants_inferred=len(inv), invariants=[str(x)[:300] for x in inv[:200]],
        undecided=[dict(unit=u, why=w[:300]) for u, w in undecided],
        bounded_stand_in=dict(label='bounded, not proof: randomised replay of the real code', inputs=n_in,
                              sanitised_inputs=asan_n, failures=len(fails), units=bounded,
                              error=H.err if H else None),
        assumed_contracts_sampled=dict(label='bounded: the contracts assumed of crocoddyl, Eigen, boost and ProxQP (mimv/lib.py) '
                                             'against the installed libraries (harness/trust.hpp)',
                                       inputs=H.trust[0], failures=H.trust[1][:5]) if H and H.trust else None,
        samples=[dict(unit=u, obligation=o['name'], where=o['where'], status=o['status']) for u, o in obs[:8]],
        explanation='contract-based deductive verification: every obligation generated from the current sources is discharged '
                    'or reported; units listed under undecided are only covered by the bounded replay',
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + notes, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

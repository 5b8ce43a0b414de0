"""Discharge of the obligations: z3 (API, two configurations), then the z3-new
and cvc5 command line provers on the same SMT-LIB text."""
import os, time, subprocess, tempfile, pickle, select, signal
import z3
from . import theory as T

CFG = [('z3 5.3.2 (e-matching)', {'auto_config': False, 'smt.mbqi': False}, 6000),
       ('z3 5.3.2 (e-matching, seed 7)', {'auto_config': False, 'smt.mbqi': False, 'smt.random_seed': 7, 'smt.arith.solver': 2}, 12000),
       ('z3 5.3.2 (default)', {}, 15000)]


def background(eng, ob):
    ex = list(ob.hyps) + [ob.goal]
    ca = eng.class_axioms()
    ax = T.relevant_axioms(ex + ca)
    seen = set()
    consts = {}
    stack = list(ex)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0:
                consts[e.decl().name()] = e
            stack.extend(e.children())
    strs = [c for n, c in consts.items() if n.startswith('str:')]
    ids = [c for n, c in consts.items() if n.startswith('typeid:')]
    if len(strs) > 1:
        ax.append(z3.Distinct(*strs))
    if ids:
        ax.append(z3.Distinct(*(ids + [T.null])))
    return ax + ca + list(eng.extra_axioms(seen_names=consts))


def smt2(ax, ob):
    s = z3.Solver()
    for a in ax:
        s.add(a)
    for h in ob.hyps:
        s.add(h)
    s.add(z3.Not(ob.goal))
    return '(set-logic ALL)\n' + s.to_smt2()


def run_cli(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        return p.stdout.decode(errors='replace').strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)


def solve_one(eng, ob, scale=1.0):
    t0 = time.time()
    ax = background(eng, ob)
    if ob.kind == 'cover':
        s = z3.Solver()
        s.set(auto_config=False, **{'smt.mbqi': False}, timeout=1500)
        s.add(*ax); s.add(*ob.hyps)
        r = s.check()
        return ('vacuous' if r == z3.unsat else 'covered'), 'z3 5.3.2 (e-matching)', time.time() - t0, str(r)
    outs, txt = [], None
    # every back end gets a short turn before any gets a long one
    for first in (True, False):
        for name, cfg, to in CFG:
            s = z3.Solver()
            for k, v in cfg.items():
                s.set(k, v)
            s.set('timeout', int(min(to * scale, 3000) if first else to * scale))
            s.add(*ax); s.add(*ob.hyps); s.add(z3.Not(ob.goal))
            r = s.check()
            if r == z3.unsat:
                return 'proved', name, time.time() - t0, ''
            if r == z3.sat:
                try:
                    return 'refuted', name, time.time() - t0, str(s.model())[:4000]
                except z3.Z3Exception:
                    pass
            if not first:
                outs.append('%s: %s (%s)' % (name, r, s.reason_unknown()))
        txt = txt or smt2(ax, ob)
        to = 5 if first else 20 * scale
        r = run_cli(['cvc5', '--tlimit=%d' % int(to * 1000)], txt, to)
        if r == 'unsat':
            return 'proved', 'cvc5 1.1.2', time.time() - t0, ''
    outs.append('cvc5 1.1.2: ' + r[:200])
    return 'unproved', 'all back ends', time.time() - t0, '; '.join(outs)


def discharge(eng, obs, jobs=8, scale=1.0, deadline=None):
    """Forked workers; every obligation is solved in isolation."""
    todo = [o for o in obs if o.status is None]
    if not todo:
        return
    jobs = max(1, min(jobs, len(todo)))
    pipes = []
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                with os.fdopen(wr, 'wb') as f:
                    for i in range(w, len(todo), jobs):
                        if deadline and time.time() > deadline:
                            break
                        try:
                            res = solve_one(eng, todo[i], scale)
                        except Exception as e:
                            res = ('unproved', 'error', 0.0, 'exception: %r' % (e,))
                        pickle.dump((i, res), f); f.flush()
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            while True:
                try:
                    i, res = pickle.load(f)
                except EOFError:
                    break
                o = todo[i]
                o.status, o.backend, o.t, o.out = res
        os.waitpid(pid, 0)
    for o in todo:
        if o.status is None:
            o.status, o.backend, o.t, o.out = 'unproved', 'none', 0.0, 'not solved within the time of the check'


def group_covers(obs):
    """an exit is reachable when at least one path to it is not contradictory"""
    g = {}
    for o in obs:
        if o.kind == 'cover':
            g.setdefault((o.fn, o.name, getattr(o, 'cover', None)), []).append(o)
    for k, l in g.items():
        if any(o.status == 'covered' for o in l):
            for o in l:
                o.status = 'covered'

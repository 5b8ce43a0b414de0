#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: verifies the contracts of the property
on /repo's current sources and runs its executable contracts."""
import sys, os, time, json, importlib, traceback, shutil, re, resource
sys.path.insert(0, '/verif')
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
VERIF = '/verif'


def load_unit(name):
    return importlib.import_module('specs.' + name).unit


def tags(name):
    m = re.match(r'\[([^\]]*)\]', name)
    return m.group(1).split(',') if m else None


def clause_tags(name):
    m = re.search(r'\[((?:C\d\d,?)+)\]', name)
    return m.group(1).split(',') if m else None


def verify(prop, cfg, deadline, log):
    """-> (obligations, functions, unsupported)"""
    from cdv.frontend import Loader
    from cdv.engine import Unsupported
    from cdv.stl import Stl
    from cdv import solve
    obs, fns, unsup, trusted = [], [], [], []
    solver_t = 0.0
    for uname, flist in cfg['units']:
        u = load_unit(uname)
        try:
            L = Loader(u.cpps, u.filters, u.extra)
        except Exception as x:
            unsup.append(('unit ' + uname, 'the sources could not be read by the verifier front end: %s' % (str(x)[:300],)))
            continue
        from cdv.stl import make_engine, unit_lemmas
        e = make_engine(L.ix, u)
        for c in u.contracts:
            if flist is not None and not any(c.fn.endswith('::' + f) or c.fn == f for f in flist):
                continue
            if c.trusted:
                trusted.append(c.fn + (' (%s)' % c.note if c.note else ''))
                continue
            n = len(e.obs)
            try:
                cov = e.verify(c)
                e.obs += cov
                fns.append('%s (%s)' % (c.fn, uname))
            except Unsupported as x:
                del e.obs[n:]
                unsup.append((c.fn, str(x)[:300]))
            except Exception as x:
                del e.obs[n:]
                unsup.append((c.fn, 'verifier error: %r' % (x,)))
                log.append(traceback.format_exc())
        if flist is None or 'lemma' in flist:
            e.obs += unit_lemmas(e, u)
        e.obs = [o for o in e.obs if clause_tags(o.name) is None or prop in clause_tags(o.name)]
        solve.discharge(e, e.obs, scale=0.4)
        solve.group_covers(e.obs)
        bad = [o for o in e.obs if o.status not in ('proved', 'covered')]
        obs.append((e, e.obs))
        L.cleanup()
    return obs, fns, unsup, trusted


def retry(obs, deadline):
    from cdv import solve
    for e, l in obs:
        bad = [o for o in l if o.status == 'unproved']
        if bad and len(bad) <= 40 and time.time() < deadline:
            for o in bad:
                o.first, o.status = o.out, None
            solve.discharge(e, bad, scale=2.0, jobs=6, deadline=deadline)


def harness_main():
    prop, tier, seed, scratch, out = sys.argv[2:7]
    from specs.props import P
    from cdv import native
    cfg = P[prop]
    res = {}
    try:
        t = time.time()
        sans = cfg['san'].split('+')
        for san in sans:
            t = time.time()
            exe = native.build(cfg['harness'], san)
            res['build_s'] = res.get('build_s', 0) + time.time() - t
            r = native.run(exe, prop, int(seed), tier, cfg['time'][1 if tier == 'thorough' else 0] / len(sans), scratch, 6 if tier == 'thorough' else 3)
            res = native.merge([res, r]) if 'evals' in res else dict(res, **r)
    except Exception as x:
        res['error'] = str(x)
    json.dump(res, open(out, 'w'))
    return 0


def main():
    if sys.argv[1] == '--harness':
        return harness_main()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from specs.props import P
    cfg = P[prop]
    log = []
    from cdv import native
    scratch = '%s/build/run-%s-%d' % (VERIF, prop, os.getpid())
    hres = {}

    hout = scratch + '.json'
    child = None
    if cfg['harness']:
        import subprocess
        os.makedirs(os.path.dirname(hout), exist_ok=True)
        child = subprocess.Popen([sys.executable, VERIF + '/check.py', '--harness', prop, tier, str(seed), scratch, hout])

    def join():
        if child is None:
            return
        child.wait()
        try:
            hres.update(json.load(open(hout)))
            os.unlink(hout)
        except Exception as x:
            hres['error'] = 'the harness driver failed: %r' % (x,)
    obs, fns, unsup, trusted = [], [], [], []
    if cfg['units']:
        # generation and first pass run next to the executable contracts
        obs, fns, unsup, trusted = verify(prop, cfg, t0 + 600, log)
        join()
        if not hres.get('fails'):
            retry(obs, t0 + 640)
    else:
        join()
    shutil.rmtree(scratch, ignore_errors=True)
    flat = [o for e, l in obs for o in l]
    proofs = [o for o in flat if o.kind != 'cover']
    covers = [o for o in flat if o.kind == 'cover']
    bad = [o for o in proofs if o.status != 'proved'] + [o for o in covers if o.status == 'vacuous']
    known = [l.strip() for l in open(VERIF + '/known_findings.txt')] if os.path.exists(VERIF + '/known_findings.txt') else []
    known = [l for l in known if l.startswith('finding: property=%s ' % prop)]
    violations = 0
    rdir = VERIF + '/replay'
    os.makedirs(rdir, exist_ok=True)
    lines = []
    fails, kf = [], []
    for f in hres.get('fails', []):
        k = [l for l in known if ('key=' + f['scenario'] + ' ') in l + ' ']
        (kf if k else fails).append((f, k))
    for f, k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[0].split(' ', 2)[2]))
    if fails:
        f = fails[0][0]
        rp = '%s/%s-%s.txt' % (rdir, prop, f['scenario'])
        with open(rp, 'w') as o:
            o.write('property %s is violated by the code in /repo\n\n' % prop)
            for g, _ in fails:
                o.write('executable contract %s, case %s\n  %s\n%s\n' % (g['scenario'], g['case'], g['msg'], g.get('stderr', '')))
                o.write('replay: cd /verif && python3-vt tools/replay.py %s %s %s\n\n' % (prop, g['scenario'], g['case']))
            if bad:
                o.write('\nfailed proof obligations:\n')
                for b in bad[:60]:
                    o.write('  %s: %s (%s) %s\n' % (b.fn, b.name, b.kind, b.status))
        print('%s: %s' % (f['scenario'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        violations = len(fails)
    elif hres.get('error'):
        rp = '%s/%s-build.txt' % (rdir, prop)
        open(rp, 'w').write('the executable contracts could not be built against /repo:\n' + hres['error'])
        print('the executable contracts could not be built against the current sources; see ' + rp)
    if not fails and bad:
        rp = '%s/%s-proof.txt' % (rdir, prop)
        with open(rp, 'w') as o:
            o.write('property %s: the verifier no longer accepts the code in /repo\n\n' % prop)
            for b in bad[:80]:
                o.write('FAILED OBLIGATION %s: %s (%s) -> %s\n    %s\n' % (b.fn, b.name, b.kind, b.status, (b.out or '')[:1500]))
        for b in bad[:5]:
            print('failed obligation: %s: %s (%s) %s' % (b.fn, b.name, b.kind, b.status))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        violations = 1
    for fn, why in unsup:
        print('undecided by the verifier (bounded stand-in only): %s: %s' % (fn, why))
    backends = {}
    for o in proofs:
        if o.status == 'proved':
            backends[o.backend] = backends.get(o.backend, 0) + 1
    wall = time.time() - t0
    cov = {
        'obligations': len(proofs), 'discharged': sum(o.status == 'proved' for o in proofs),
        'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
        'trusted_base': TRUSTED + ['assumed contract (not verified in this unit): ' + t for t in trusted],
        'functions_under_contract': fns, 'discharged_by': backends, 'solver_time_s': round(sum(o.t or 0 for o in flat), 1),
        'vacuity_covers': len(covers), 'vacuous': sum(o.status == 'vacuous' for o in covers),
        'undecided_functions': ['%s: %s' % x for x in unsup],
        'bounded_functions': cfg['bounded'],
    }
    if cfg['harness']:
        cov.update({'evaluations': hres.get('evals', 0), 'distinct_nontrivial': hres.get('nontrivial', 0),
                    'rule': 'bounded: executable contracts of /verif/harness/%s.cpp on seeded random cases; a case is non-trivial when the scenario marks it so (it exercised an accepted operation), distinct by its recorded trace' % cfg['harness'],
                    'samples': hres.get('samples', []), 'scenarios': hres.get('scenarios', {}), 'harness_build_s': round(hres.get('build_s', 0), 1), 'harness_run_s': round(hres.get('wall', 0), 1)})
        if hres.get('error'):
            cov['harness_error'] = hres['error'][:1000]
    level = cfg['level']
    if level == 'other':
        cov['explanation'] = cfg['note']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 1),
          'assumptions': ASSUME + ([cfg['note']] if cfg['note'] else []), 'violations': violations}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged over %d functions, %d undecided functions; %d executable cases (%d non-trivial); %.0f s' % (
        prop, tier, cov['discharged'], cov['obligations'], len(fns), len(unsup), hres.get('evals', 0), hres.get('nontrivial', 0), wall))
    if log and os.environ.get('CDV_DEBUG'):
        print('\n'.join(log))
    if not violations and hres.get('error') and not proofs:
        # nothing could be decided at all
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, '%s/%s-build.txt' % (rdir, prop)))
        return 1
    return 1 if violations else 0


TRUSTED = ['verification-condition generator /verif/cdv (symbolic execution of the clang AST of the real sources)', 'clang 18 front end', 'z3 5.3.2 / cvc5 1.1.2',
           'models of the C++ standard library containers and algorithms (cdv/stl.py), theory axioms of sequences, maps, sets (cdv/theory.py)']
ASSUME = ['single-threaded execution of the function under contract', 'memory allocation succeeds', 'doubles are an uninterpreted sort with the ordering axioms the contract states',
          'the sources are compiled with NDEBUG, as the shipped build type does']

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

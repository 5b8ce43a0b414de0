"""Builds the executable contracts (harness/*.cpp) against /repo's current
sources and runs them.  Objects are cached under /verif/build by the content of
everything they depend on."""
import os, subprocess, hashlib, json, re, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = '/verif'
BUILD = VERIF + '/build'
INC = [REPO + '/gegelatilib/include', REPO + '/lib/JsonCpp', VERIF + '/harness']
BASE = ['-std=c++17', '-O1', '-g0', '-w', '-pthread', '-DCODE_GENERATION', '-DGEGELATI_VERSION="cdv"', '-D_GLIBCXX_ASSERTIONS']
SAN = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'], 'plain': [], 'tsan': ['-fsanitize=thread']}


def tree_hash():
    h = hashlib.sha256()
    for d in ('gegelatilib/include', 'lib/JsonCpp'):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h


class BuildError(Exception):
    pass


def compile_all(srcs, san, jobs=8):
    hdr = tree_hash()
    for p in sorted(glob.glob(VERIF + '/harness/*.h')):
        hdr.update(open(p, 'rb').read())
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + SAN[san]

    def one(src):
        h = hdr.copy(); h.update(' '.join(flags).encode()); h.update(src.encode()); h.update(open(src, 'rb').read())
        o = '%s/%s.o' % (BUILD, h.hexdigest()[:24])
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            p = subprocess.run(['g++'] + flags + ['-I' + i for i in INC] + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError('%s: %s' % (src, p.stdout.decode(errors='replace')[-3000:]))
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, srcs))


def lib_sources():
    out = []
    for root, ds, fs in os.walk(REPO + '/gegelatilib/src'):
        ds.sort()
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.cpp')]
    return out + [REPO + '/lib/JsonCpp/jsoncpp.cpp']


def groups(srcs, n):
    # a few translation units that include several sources each: same code, headers are parsed once per group
    srcs = sorted(srcs, key=lambda p: -os.path.getsize(p))
    gs = [[] for _ in range(n)]
    for s in srcs:
        min(gs, key=lambda g: sum(os.path.getsize(p) + 9000 for p in g)).append(s)
    out = []
    d = BUILD + '/unity'
    os.makedirs(d, exist_ok=True)
    for g in gs:
        g.sort()
        text = ''.join('// %s\n#include "%s"\n' % (hashlib.sha256(open(p, 'rb').read()).hexdigest(), p) for p in g)
        f = '%s/u%s.cpp' % (d, hashlib.sha256(text.encode()).hexdigest()[:20])
        if not os.path.exists(f):
            tmp = f + '.%d' % os.getpid()
            open(tmp, 'w').write(text)
            os.rename(tmp, f)
        out.append(f)
    return out


def build(name, san='asan'):
    lib = lib_sources()
    first = [VERIF + '/harness/%s.cpp' % name, REPO + '/lib/JsonCpp/jsoncpp.cpp']
    try:
        objs = compile_all(first + groups([s for s in lib if s not in first], 7), san)
    except BuildError:
        # sources that cannot share a translation unit
        objs = compile_all(first[:1] + lib, san)
    h = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
    exe = '%s/%s-%s-%s' % (BUILD, name, san, h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        p = subprocess.run(['g++'] + SAN[san] + objs + ['-o', tmp, '-pthread', '-lstdc++fs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode(errors='replace')[-3000:])
        os.rename(tmp, exe)
    return exe


def run(exe, prop, seed, tier, budget, scratch, shards=1):
    """several processes with different seeds, results merged"""
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(lambda i: run1(exe, prop, seed + 7919 * i, tier, budget, '%s/%d' % (scratch, i)), range(shards)))
    return merge(rs)


def merge(rs):
    res = rs[0]
    for r in rs[1:]:
        for k in ('evals', 'nontrivial'):
            res[k] += r[k]
        res['fails'] += r['fails']
        for sc, d in r['scenarios'].items():
            x = res['scenarios'].setdefault(sc, {'evaluations': 0, 'distinct_nontrivial': 0})
            for k in d:
                x[k] += d[k]
    seen, fl = set(), []
    for f in res['fails']:        # one report per scenario
        if f['scenario'] not in seen:
            seen.add(f['scenario']); fl.append(f)
    res['fails'] = fl
    return res


def run1(exe, prop, seed, tier, budget, scratch):
    """-> dict(evals, nontrivial, samples, fails=[{scenario, case, msg}], wall)"""
    os.makedirs(scratch, exist_ok=True)
    prog = os.path.join(scratch, 'progress')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1:exitcode=77', TSAN_OPTIONS='exitcode=77:halt_on_error=1')
    t = time.time()
    try:
        p = subprocess.run([exe, '--prop', prop, '--seed', str(seed), '--tier', tier, '--time', str(budget), '--progress', prog],
                           cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 160)
        out, err, rc = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b'').decode(errors='replace'), 'the harness did not end in time', -1
    res = {'evals': 0, 'nontrivial': 0, 'samples': [], 'fails': [], 'known': [], 'wall': time.time() - t, 'scenarios': {}}
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            _, sc, case, msg = l.split(' ', 3)
            res['fails'].append({'scenario': sc, 'case': case, 'msg': msg})
        elif l.startswith('STAT '):
            _, sc, n, nt = l.split(' ')
            res['scenarios'][sc] = {'evaluations': int(n), 'distinct_nontrivial': int(nt)}
            res['evals'] += int(n); res['nontrivial'] += int(nt)
        elif l.startswith('SAMPLE '):
            res['samples'].append(l[7:])
    if rc not in (0, 1) or (rc == 1 and not res['fails']):
        try:
            sc, case = open(prog).read().split('\0')[0].split()[:2]
        except Exception:
            sc, case = '?', '?'
        m = re.findall(r'(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|terminate called.*|what\(\):.*|.*Assertion.*|.*did not end in time.*)', err)
        loc = re.findall(r'#\d+ .*? in (.*?gegelatilib\S*)', err)
        res['fails'].append({'scenario': sc, 'case': case, 'msg': 'the real code crashed (exit %d): %s %s' % (rc, '; '.join(m[:3]), ' < '.join(loc[:4])), 'stderr': err[-6000:]})
    return res

#!/usr/bin/env python3
"""Driver:  check.py <PROPERTY> [quick|thorough]     decide one property
            check.py --setup                          build engine + runtime
Exit 0: holds on everything explored; 1: VIOLATION line; 2/3: the check itself
could not decide (engine limitation, time limit, harness does not compile)."""
import sys, os, json, subprocess, hashlib, time, shutil, re, fcntl, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
B = os.environ.get('VF_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, V)
HARN = os.path.join(V, 'harness')
ENGINE = os.path.join(B, 'vsym')
IRFLAGS = ('-std=gnu++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -g1 -fno-threadsafe-statics '
           '-fno-vectorize -fno-slp-vectorize -U_FORTIFY_SOURCE -D__NO_INLINE__=1 -Wno-everything').split()
PRE = '-include cstdint -include cstdio -include cstdlib -include type_traits -include utility -include iterator'.split()
NCPU = os.cpu_count() or 4

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def h(*files):
    m = hashlib.sha256()
    for f in files:
        m.update(open(f, 'rb').read())
    return m.hexdigest()[:16]

class Err(Exception):
    pass

class Uninstantiable(Err):
    """an operation of the library which the property names is rejected by the compiler inside the library itself"""

def locked(name):
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def setup():
    with locked('setup'):
        src = [os.path.join(V, 'engine', x) for x in ('engine.cpp', 'solver.h', 'expr.h')]
        stamp = os.path.join(B, 'engine.' + h(*src))
        if not (os.path.exists(ENGINE) and os.path.exists(stamp)):
            r = sh(['g++', '-std=c++17', '-O2', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
                    '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', src[0], '-o', ENGINE + '.tmp', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-w'])
            if r.returncode:
                raise Err('engine build failed\n' + r.stdout)
            os.replace(ENGINE + '.tmp', ENGINE)
            open(stamp, 'w').close()
        for rt in ('runtime',):
            s = os.path.join(HARN, rt + '.cpp')
            if not os.path.exists(s):
                continue
            stamp = os.path.join(B, rt + '.' + h(s, os.path.join(HARN, 'vf.h')))
            if os.path.exists(stamp) and os.path.exists(os.path.join(B, rt + '.bc')):
                continue
            r = sh(['clang++'] + IRFLAGS + ['-fno-builtin', '-I', HARN, s, '-o', os.path.join(B, rt + '.bc.tmp')])
            if r.returncode:
                raise Err('runtime build failed\n' + r.stdout)
            os.replace(os.path.join(B, rt + '.bc.tmp'), os.path.join(B, rt + '.bc'))
            open(stamp, 'w').close()

def gen_config(wd):
    """bcl-config.h from the repository's template (BCL_LEGACY off, C socket on), as cmake does."""
    d = os.path.join(wd, 'gen', 'bcl')
    os.makedirs(d, exist_ok=True)
    try:
        t = open(os.path.join(REPO, 'include/bcl/bcl-config.h.in')).read()
        t = re.sub(r'^#cmakedefine\s+BCL_LEGACY.*$', '/* #undef BCL_LEGACY */', t, flags=re.M)
        t = re.sub(r'^#cmakedefine\s+', '#define ', t, flags=re.M)
        t = re.sub(r'@\w*(MAJOR|MINOR|PATCH)\w*@', '3', t)
        t = re.sub(r'@\w+@', 'bcl', t)
    except OSError:
        t = '#define BCL_C_SOCKET\n'
    open(os.path.join(d, 'bcl-config.h'), 'w').write(t)

def incs(wd, extra=()):
    return ['-I', HARN] + ['-I' + os.path.join(HARN, x) for x in extra] + ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(wd, 'gen')] + PRE

def build_ir(p, wd):
    outs = []
    for i, f in enumerate([p['file']] + p.get('extra', [])):
        s = f if f.startswith('/') else (f.replace('repo:', REPO + '/') if f.startswith('repo:') else os.path.join(HARN, f))
        o = os.path.join(wd, 'h%d.bc' % i)
        r = sh(['clang++'] + IRFLAGS + incs(wd, p.get('inc', [])) + ['-DVF_SRC="%s"' % REPO] + [x.replace('@REPO@', REPO) for x in p.get('cflags', [])] + [s, '-o', o])
        if r.returncode:
            where = [m.group(1) for m in re.finditer(r'^(/[^:\n]+):\d+:\d+: (?:fatal )?error: ', r.stdout, re.M)]
            if where and not p.get('threads') and all(os.path.realpath(w).startswith(os.path.realpath(REPO) + '/include/') for w in where):
                raise Uninstantiable(r.stdout[-4000:])
            raise Err('harness does not compile against the current tree:\n' + r.stdout[-4000:])
        outs.append(o)
    outs.append(os.path.join(B, 'runtime.bc'))
    l = os.path.join(wd, 'l.bc')
    r = sh(['llvm-link'] + outs + ['-o', l])
    if r.returncode:
        raise Err('link failed:\n' + r.stdout[-3000:])
    api = ','.join('vf_entry_' + e['name'] for e in p['entries'])
    o = os.path.join(wd, 'o.bc')
    r = sh(['opt', '-passes=internalize,globaldce,cgscc(inline),function(sroa,early-cse),globaldce', '-internalize-public-api-list=' + api, l, '-o', o])
    if r.returncode:
        raise Err('opt failed:\n' + r.stdout[-3000:])
    return o

natlock = {}
natglob = threading.Lock()
def build_native(p, wd, kind):
    """kind: asan | plain; one program holds all entries of a harness"""
    with natglob:
        lk = natlock.setdefault((wd, kind), threading.Lock())
    with lk:
        return build_native_(p, wd, kind)

def build_native_(p, wd, kind):
    out = os.path.join(wd, 'n_%s' % kind)
    if os.path.exists(out):
        return out
    if os.path.exists(out + '.failed'):
        raise Err(open(out + '.failed').read())
    fl = ['-std=gnu++17', '-g', '-w', '-D__NO_INLINE__=1', '-DVF_NATIVE=1', '-U_FORTIFY_SOURCE']
    if p.get('threads'):
        fl.append('-DVF_THREADS')
    if kind == 'asan':
        fl += ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,nonnull-attribute,returns-nonnull-attribute', '-fno-omit-frame-pointer']
        if not p.get('overflow'):
            fl.append('-fno-sanitize=signed-integer-overflow')
    else:
        fl += ['-O1', '-ftrivial-auto-var-init=pattern']
    src = []
    for f in [p['file']] + p.get('extra', []) + p.get('native_extra', []):
        src.append(f.replace('repo:', REPO + '/') if f.startswith('repo:') else os.path.join(HARN, f))
    r = sh(['clang++'] + fl + incs(wd, p.get('inc', [])) + ['-DVF_SRC="%s"' % REPO] + [x.replace('@REPO@', REPO) for x in p.get('cflags', [])] + p.get('native_cflags', []) + src + [os.path.join(HARN, 'vf_native.cpp'), '-o', out + '.tmp', '-pthread', '-rdynamic', '-ldl'])
    if r.returncode:
        open(out + '.failed', 'w').write('native replay build failed:\n' + r.stdout[-3000:])
        raise Err('native replay build failed:\n' + r.stdout[-3000:])
    os.replace(out + '.tmp', out)
    return out

def write_inputs(path, entry, inputs, params, preempt):
    with open(path, 'w') as f:
        f.write('ENTRY vf_entry_%s\n' % entry)
        for k, v in params.items():
            f.write('P %s %d\n' % (k, v))
        f.write('PREEMPT %d\n' % preempt)
        for n, hx in inputs:
            f.write('I %s %d %s\n' % (n, len(hx) // 2, hx or '-'))

def run_native(exe, inp, timeout=20, valgrind=False):
    cmd = (['valgrind', '-q', '--error-exitcode=66', '--undef-value-errors=yes'] if valgrind else []) + [exe, inp]
    env = dict(os.environ)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env, cwd=os.path.dirname(exe))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', '', ''

def classify(rc, out, err):
    """does the native run show a violation?  returns description or None"""
    if 'VF-DIVERGED' in out:
        return None
    if rc == 42:
        return 'assertion failed natively: ' + out.strip().splitlines()[-1]
    if rc == 66:
        m = re.search(r'(ERROR: AddressSanitizer: .*|runtime error: .*|==\d+== .*)', err)
        return 'sanitizer: ' + (m.group(1) if m else err[:200])
    if rc == 'timeout':
        return 'does not terminate (20 s)'
    if isinstance(rc, int) and rc < 0:
        return 'terminated by signal %d: %s' % (-rc, err.strip().splitlines()[-1][:200] if err.strip() else '')
    if rc not in (0,):
        return 'native exit status %s' % rc
    return None

def engine_run(p, e, params, bc, wd, maxtime, seed, idx):
    out = os.path.join(wd, 'r%d.json' % idx)
    cmd = [ENGINE, bc, '--entry', 'vf_entry_' + e['name'], '--out', out, '--max-time', str(maxtime), '--seed', str(seed), '--src-root', REPO.rstrip('/') + '/',
           '--max-steps', str(e.get('max_steps', p.get('max_steps', 2000000))), '--preempt', str(e.get('preempt', p.get('preempt', 2))),
           '--samples', str(e.get('samples', 3)), '--max-findings', str(e.get('max_findings', 4)), '--mem', '5', '--max-depth', str(e.get('max_depth', 400)),
           '--z3-timeout', str(e.get('z3_timeout', 60000)), '--max-concretize', str(e.get('max_concretize', 300))]
    if e.get('overflow', p.get('overflow')):
        cmd.append('--overflow')
    for k, v in params.items():
        cmd += ['--param', '%s=%d' % (k, v)]
    t = time.time()
    try:
        r = sh(cmd, timeout=maxtime + 120)
    except subprocess.TimeoutExpired:
        return {'error': 'engine timed out', 'entry': e['name'], 'wall': time.time() - t}
    if r.returncode or not os.path.exists(out):
        return {'error': 'engine exit %s: %s' % (r.returncode, r.stdout[-1500:]), 'entry': e['name'], 'wall': time.time() - t}
    j = json.load(open(out), strict=False)
    j['entry'] = e['name']
    j['params'] = params
    j['preempt'] = e.get('preempt', p.get('preempt', 2))
    j['wall'] = time.time() - t
    return j

def known_findings():
    """known/findings.txt: lines  'known: property=<id> harness=<entry> kind=<kind> match=<substring> -- <text>'
    and 'fixed: property=<id> <commit> <what failed>' (suppresses nothing)."""
    r = []
    f = os.path.join(V, 'known', 'findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) harness=(\S+) kind=(\S+) match=(.*?) -- (.*)', l.strip())
            if m:
                r.append(dict(prop=m.group(1), harness=m.group(2), kind=m.group(3), match=m.group(4), text=m.group(5)))
    return r

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        setup()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = os.environ.get('VF_ONLY')
    from props import PROPS
    p = PROPS[pid]
    t0 = time.time()
    budget = float(os.environ.get('VF_BUDGET', p.get('budget', {}).get(tier, 560 if tier == 'quick' else 780)))
    setup()
    os.makedirs(os.path.join(B, 'work'), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=pid + '_', dir=os.path.join(B, 'work'))
    gen_config(wd)
    try:
        return decide(pid, p, tier, seed, only, t0, budget, wd)
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(wd, ignore_errors=True)

def decide(pid, p, tier, seed, only, t0, budget, wd):
    groups = p.get('groups') or [p]
    jobs = []
    problems, partial = [], []  # no verdict / explored in part only
    for gi, g in enumerate(groups):
        g = dict({k: v for k, v in p.items() if k not in ('groups', 'entries', 'file')}, **g)
        gwd = os.path.join(wd, 'g%d' % gi)
        os.makedirs(gwd, exist_ok=True)
        gen_config(gwd)
        jobs.append((g, gwd))
    def bld(x):
        g, gwd = x
        try:
            return build_ir(g, gwd)
        except Err as e:
            return e
    with ThreadPoolExecutor(NCPU) as ex:
        bcs = list(ex.map(bld, jobs))
    runs = []
    for (g, gwd), bc in zip(jobs, bcs):
        if isinstance(bc, Uninstantiable):
            rp = os.path.join(V, 'evidence', 'replay_%s_compile.txt' % pid)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write('An operation of this property is rejected by the compiler (clang++ -std=gnu++17, harness %s):\n%s' % (g['file'], bc))
            print('\n'.join([l for l in str(bc).splitlines() if 'error:' in l][:3]))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, V)))
            return 1
        if isinstance(bc, Err):
            print('CHECK-ERROR', bc)
            return 3
        for e in g['entries']:
            if only and e['name'] not in only.split(','):
                continue
            if tier == 'quick' and e.get('thorough_only'):
                continue
            ps = e.get(tier) or e.get('quick') or [{}]
            if isinstance(ps, dict):
                ps = [ps]
            for q in ps:
                runs.append((g, gwd, bc, e, dict(g.get('params', {}), **q)))
    # native builds (for validating sampled paths) go on in the background
    natpool = ThreadPoolExecutor(3)
    nats = {}
    for g, gwd, bc, e, q in runs:
        k = (gwd, e['name'])
        if not e.get('no_native') and k not in nats:
            nats[k] = natpool.submit(lambda g=g, e=e, gwd=gwd: build_native(g, gwd, 'asan'))
    def one(ix):
        i, (g, gwd, bc, e, q) = ix
        left = budget - (time.time() - t0)
        if left < 5:
            return {'error': 'time budget exhausted before start', 'entry': e['name'], 'wall': 0}
        return engine_run(g, e, q, bc, gwd, left, seed, i)
    order = sorted(range(len(runs)), key=lambda i: -runs[i][3].get('weight', 1))
    with ThreadPoolExecutor(NCPU) as ex:
        tmp = list(ex.map(lambda i: one((i, runs[i])), order))
    res = [None] * len(runs)
    for i, r in zip(order, tmp):
        res[i] = r
    # ---- judge
    violations, known_hit, unconfirmed, kf = [], [], [], known_findings()
    validated = 0
    cov = dict(paths=0, assumed_away=0, error_paths=0, steps=0, forks=0, asserts=0, assert_queries=0, symbolic_branches=0, z3_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0, cache_hits=0, byte_domain_decisions=0, sched_points=0)
    z3t, z3max = 0.0, 0.0
    fns, notes, reached, samples, per = set(), set(), {}, [], []
    for (g, gwd, bc, e, q), r in zip(runs, res):
        nm = e['name']
        if 'error' in r:
            (partial if re.match('engine timed out|time budget', r['error']) else problems).append('%s %s: %s' % (nm, q, r['error']))
            continue
        for k in cov:
            cov[k] += r[k]
        z3t += r['z3_time']
        z3max = max(z3max, r['z3_max_query'])
        fns |= set(r['functions'])
        notes |= set(r['notes'])
        per.append(dict(entry=nm, params=q, paths=r['paths'], assumed_away=r['assumed_away'], queries=r['z3_queries'], assertions=r['asserts'], steps=r['steps'], wall_s=round(r['wall'], 2), reached=r['reach'], pending=r['pending'], stopped=r['stopped']))
        if r['stopped'] and not (r['stopped'] == 'finding limit'):
            (partial if r['paths'] else problems).append('%s %s: bound not exhausted (%s, %d pending)' % (nm, q, r['stopped'], r['pending']))
        for x in r['incomplete']:
            (partial if r['paths'] else problems).append('%s: %s' % (nm, x))
        if not r['findings']:
            for lab in e.get('reach', []):
                if not r['reach'].get(lab) and e.get('reach_if', lambda q: True)(q) and lab not in e.get('reach_opt', {}).get(tier, []):
                    (partial if r['paths'] and (r['incomplete'] or r['stopped']) else problems).append('%s %s: vacuous: label %s is never reached' % (nm, q, lab))
        for f in r['findings']:
            kk = [x for x in kf if x['prop'] == pid and x['harness'] == nm and x['kind'] == f['kind'] and x['match'] in f['msg'] + ' ' + f['loc'] + ' ' + f['stack']]
            conf = None
            rp = os.path.join(V, 'evidence', 'replay_%s_%s_%d.txt' % (pid, nm, len(violations) + len(known_hit) + len(unconfirmed)))
            write_inputs(rp, nm, f['inputs'], q, r['preempt'])
            try:
                if f['kind'] == 'uninit':
                    exe = build_native(g, gwd, 'plain')
                    conf = classify(*run_native(exe, rp, 60, valgrind=True))
                    if not conf:
                        exe = build_native(g, gwd, 'asan')
                        conf = classify(*run_native(exe, rp))
                else:
                    exe = nats[(gwd, nm)].result() if (gwd, nm) in nats else build_native(g, gwd, 'asan')
                    conf = classify(*run_native(exe, rp))
                    if not conf:
                        exe = build_native(g, gwd, 'plain')
                        conf = classify(*run_native(exe, rp)) or classify(*run_native(exe, rp, 60, valgrind=True))
                    if not conf and e.get('model_only_kinds') and f['kind'] in e['model_only_kinds']:
                        conf = 'decided by the encoding alone (%s is not observable by a sanitizer)' % f['kind']
            except Err as ex_:
                conf = None
                problems.append(str(ex_))
            with open(rp, 'a') as fh:
                fh.write('# property %s entry %s\n# %s: %s\n# at %s\n# native: %s\n# stack:\n%s' % (pid, nm, f['kind'], f['msg'], f['loc'], conf, ''.join('#   ' + l + '\n' for l in f['stack'].splitlines())))
            rec = dict(entry=nm, params=q, kind=f['kind'], msg=f['msg'], loc=f['loc'], native=conf, replay=os.path.relpath(rp, V), count=f['count'])
            if kk:
                known_hit.append((kk[0], rec))
            elif conf:
                violations.append(rec)
            else:
                unconfirmed.append(rec)
    # ---- validate sampled paths natively
    bad = []
    def val(ix):
        (g, gwd, bc, e, q), r = ix
        n = 0
        o = []
        if 'error' in r or e.get('no_native'):
            return 0, [], []
        try:
            exe = nats[(gwd, e['name'])].result()
        except Err as ex_:
            return 0, [str(ex_)], []
        for k, s in enumerate(r['samples']):
            ip = os.path.join(gwd, 's_%s_%d_%d.txt' % (e['name'], abs(hash(str(q))) % 100000, k))
            write_inputs(ip, e['name'], s['inputs'], q, r['preempt'])
            rc, out, err = run_native(exe, ip, 60)
            c = classify(rc, out, err)
            obs = [int(x.split()[1]) for x in out.splitlines() if x.startswith('VF-OBS')]
            if 'VF-DIVERGED' in out or c or len(obs) != len(s['obs']) or any(b is not None and a != b for a, b in zip(obs, s['obs'])):
                o.append('%s %s: native run disagrees with the encoding (%s; obs %s vs %s) inputs %s' % (e['name'], q, c or (out.strip().splitlines() or [''])[-1], obs[:12], s['obs'][:12], s['inputs'][:12]))
            else:
                n += 1
        return n, o, [dict(entry=e['name'], params=q, inputs=r['samples'][0]['inputs'][:40], observed=r['samples'][0]['obs'][:20])] if r['samples'] else []
    with ThreadPoolExecutor(NCPU) as ex:
        for n, o, smp in ex.map(val, list(zip(runs, res))):
            validated += n
            bad += o
            samples += smp
    natpool.shutdown()
    if not violations:
        problems += bad
    for kfx, rec in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, kfx['text']))
    for x in unconfirmed:
        problems.append('counterexample not reproduced natively: %s' % json.dumps(x))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get('level', 'model_checking'), wall_s=round(wall, 2), violations=len(violations),
              assumptions=p.get('assumptions', []) + sorted(notes),
              coverage=dict(states=cov['paths'] + cov['assumed_away'] + cov['error_paths'], transitions=cov['steps'], traces_validated_against_impl=validated, samples=samples[:12],
                            functions_encoded=sorted(fns), functions_encoded_count=len(fns), bounds=p.get('bounds', {}).get(tier) if isinstance(p.get('bounds'), dict) else p.get('bounds', ''), outside=p.get('outside', ''),
                            complete_paths=cov['paths'], queries_discharged=cov['z3_queries'], queries_sat=cov['z3_sat'], queries_unsat=cov['z3_unsat'], queries_unknown=cov['z3_unknown'], query_cache_hits=cov['cache_hits'], byte_domain_decisions=cov['byte_domain_decisions'],
                            assertions_evaluated=cov['asserts'], assertion_queries=cov['assert_queries'], symbolic_branches=cov['symbolic_branches'], scheduler_points=cov['sched_points'], solver_time_s=round(z3t, 3), solver_max_query_s=round(z3max, 3),
                            runs=per, problems=problems[:30], explored_in_part=partial[:30], counterexamples=violations, known_findings=[k['text'] for k, _ in known_hit]))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d paths (%d assumed away), %d instructions, %d z3 queries (%.1f s), %d assertions, %d functions of the code, %d paths validated natively, %.1f s' % (pid, tier, cov['paths'], cov['assumed_away'], cov['steps'], cov['z3_queries'], z3t, cov['asserts'], len(fns), validated, wall))
    if not per:
        problems += partial
    for x in problems[:12]:
        print('NOTE', x)
    for x in partial[:12]:
        print('INCOMPLETE', x)
    for v in violations:
        print('  %s in %s at %s: %s [%s]' % (v['kind'], v['entry'], v['loc'], v['msg'], v['native']))
    if violations:
        print('VIOLATION property=%s replay=%s' % (pid, violations[0]['replay']))
        return 1
    return 2 if problems else 0

if __name__ == '__main__':
    try:
        rc = main()
    except Err as e:
        print('CHECK-ERROR', e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

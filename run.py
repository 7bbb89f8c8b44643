#!/usr/bin/env python3
"""Driver of all checks:  run.py <property> quick|thorough     run one check against /repo's working tree
                          run.py replay <file>                 run one recorded violation again
Builds the harness from /repo's current sources (objects cached by content in /verif/.build), runs it,
writes evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, hashlib, subprocess, glob, time, shutil, concurrent.futures as cf, signal, resource

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HYCU_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import checks as C

FORCED = ['-include', 'string', '-include', 'flint/ulong_extras.h', '-include', 'flint/fmpz.h', '-include', 'flint/nmod_poly.h',
          '-include', 'flint/nmod_poly_factor.h', '-include', 'flint/fq_nmod_poly.h', '-include', 'flint/fq_nmod_poly_factor.h',
          '-include', 'boost/serialization/vector.hpp']
LIBS = ['-lboost_filesystem', '-lboost_system', '-lboost_program_options', '-lboost_serialization', '-lflint', '-lgmp', '-lyaml-cpp', '-pthread', '-ldl']

class Err(Exception): pass

def tree_hash():
    """content hashes of /repo's sources and of the harness files"""
    out = []
    for bases in ([os.path.join(REPO, 'src')], [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'harness')]):
        h = hashlib.sha256()
        for base in bases:
            for root, ds, fs in sorted(os.walk(base)):
                ds.sort()
                if '__pycache__' in root: continue
                for f in sorted(fs):
                    if f.endswith(('.cc', '.hh', '.h', '.hpp', '.cl', '.c', '.txt')):
                        p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
        out.append(h.hexdigest()[:24])
    return out

def repo_sources(mpi=False, opencl=False):
    out = []
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        ds.sort(); rel = os.path.relpath(root, os.path.join(REPO, 'src')).split(os.sep)
        if rel[0] == 'executables' or rel[0] == 'opencl' and not opencl: continue
        for f in sorted(fs):
            if not f.endswith('.cc'): continue
            if f.startswith('mpi') and not mpi: continue
            out.append(os.path.join(root, f))
    return out

def run_cmd(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode: raise Err('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stdout[-6000:]))
    return r.stdout

def build(step, th):
    """returns the path of the executable (and builds extra artefacts)"""
    flags_repo = ['-std=c++17', '-g1'] + step.get('cflags', ['-O1']) + step.get('repo_flags', [])
    flags_h = ['-std=c++17', '-g1'] + step.get('cflags', ['-O1']) + step.get('harness_flags', [])
    inc = step.get('inc', []) + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'harness')]
    inc = [x.replace('@VERIF', VERIF) for x in inc]
    cxx = step.get('cxx', 'g++')
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], {'repo': [], 'main': [], 'harness': []}
    def obj(src, flags, kind, rename=None):
        key = hashlib.sha256(json.dumps([th if kind == 'harness' else th[0], src, cxx, flags, inc, FORCED, rename]).encode()).hexdigest()[:28]
        o = os.path.join(BUILD, key + '.o'); objs[kind].append(o)
        if os.path.exists(o): return
        def job():
            tmp = o + '.%d.tmp.o' % os.getpid()
            run_cmd([cxx] + flags + FORCED + inc + ['-w', '-c', src, '-o', tmp], 'compile ' + src)
            if rename: run_cmd(['objcopy', '--redefine-sym', 'main=' + rename, tmp], 'objcopy')
            os.replace(tmp, o)
        jobs.append(job)
    if step.get('repo', True):
        for s in repo_sources(step.get('mpi', False), step.get('opencl', False)): obj(s, flags_repo, 'repo')
    for m in step.get('mains', []): obj(os.path.join(REPO, 'src/executables', m + '.cc'), flags_repo, 'main', 'hycu_%s_main' % m)
    for h in step['harness']: obj(os.path.join(VERIF, h), flags_h, 'harness')
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
    link = step.get('ldflags', [])
    libs = LIBS + step.get('libs', [])
    if step.get('solib'):   # the code under test goes into a shared object of its own
        k = hashlib.sha256(json.dumps([objs['repo'], objs['main'], link, step['solib']]).encode()).hexdigest()[:28]
        so = os.path.join(BUILD, k + '.hycu.so')
        if not os.path.exists(so):
            run_cmd([cxx, '-shared'] + step['solib'] + objs['repo'] + objs['main'] + ['-o', so + '.tmp'] + LIBS, 'link')
            # every copy of the shared object stands for a process with variables of its own
            if ' u ' in run_cmd(['nm', '-D', '--defined-only', so + '.tmp'], 'nm'): raise Err('the code under test has variables that copies of it would share')
            os.replace(so + '.tmp', so)
        hobjs = objs['harness']; libs = ([so, '-Wl,-rpath,' + os.path.dirname(so)] if step.get('link_so', True) else []) + libs
    else: so = None; hobjs = objs['harness'] + objs['main'] + objs['repo']
    if so: link = link + ['-rdynamic']
    k = hashlib.sha256(json.dumps([hobjs, link, libs, so]).encode()).hexdigest()[:28]
    exe = os.path.join(BUILD, k)
    if not os.path.exists(exe):
        run_cmd([cxx] + [f for f in flags_h if f.startswith('-f')] + hobjs + ['-o', exe + '.tmp'] + link + libs, 'link'); os.replace(exe + '.tmp', exe)
    return exe, so

def env_for(step, so):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    e['HYCU_VERIF'] = VERIF; e['HYCU_REPO'] = REPO
    if so: e['HYCU_SO'] = so
    e.update(step.get('env', {}))
    return e

class Proc:
    def __init__(self, exe, args, env, out, limit, stuck=None):
        self.out, self.limit, self.t0 = out, limit, time.time()
        self.stuck, self.seen, self.since = stuck, None, self.t0
        self.log = open(out + '.log', 'wb')
        self.p = subprocess.Popen([exe] + args, stdout=self.log, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        self.timed_out = False
    def wait(self):
        rc = None
        while rc is None:
            left = max(1, self.limit - (time.time() - self.t0))
            try: rc = self.p.wait(min(left, 5) if self.stuck else left)
            except subprocess.TimeoutExpired:
                c = current_case(self.out)
                if c != self.seen: self.seen, self.since = c, time.time()
                if time.time() - self.t0 >= self.limit or self.stuck and time.time() - self.since > self.stuck: self.timed_out = True; break
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        if rc is None: self.p.wait()
        self.log.close()
        return rc
    def tail(self, n=3000): return open(self.out + '.log', 'rb').read()[-n:].decode(errors='replace')

def current_case(out):
    try: return open(out + '.case', 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError: return ''

def load(out):
    try: return json.load(open(out + '.json'))
    except (OSError, ValueError): return None

def run_step(prop, tier, step, work, th, deadline):
    exe, so = build(step, th)
    env = env_for(step, so); mode = step.get('mode', '')
    n = step.get('shards', NCPU)
    limit = min(step.get('limit', {}).get(tier, 6 * 3600), max(30, deadline - time.time() - (290 if tier == 'quick' else 0)))   # time is left to run a case that does not end once more
    procs = []
    for s in range(n):
        out = os.path.join(work, '%s-%s-%d' % (os.path.basename(step['harness'][0]).replace('.cc', ''), mode, s))
        procs.append((s, Proc(exe, [mode, tier, str(s), str(n), out], env, out, limit, 300 if tier == 'quick' else None)))   # cases take much less
    res, viol = [], []
    for s, p in procs:
        if viol and tier == 'quick': p.limit = min(p.limit, time.time() - p.t0 + 60)   # found already: do not wait for long
        rc = p.wait(); j = load(p.out)
        if rc == 0 and j is not None: res.append(j); viol += j.get('violations', []); continue
        case = current_case(p.out)
        why = 'does not terminate' if p.timed_out else 'stops with status %s' % rc
        first_tail = p.tail()
        if viol and p.timed_out: continue
        if viol and (not case or p.timed_out and step.get('no_rerun')): continue
        if not case or p.timed_out and step.get('no_rerun'): raise Err('%s shard %d %s (no case)\n%s' % (exe, s, why, first_tail))
        # replay the case alone before reporting
        out = p.out + '-again'
        q = Proc(exe, [mode, tier, '0', '1', out, '--case', case], env, out, min(step.get('case_limit', 300), max(30, deadline - time.time()))); rc2 = q.wait()
        j = load(out)
        if rc2 == 0 and j is not None:
            if j.get('violations'): viol += j['violations']; continue
            # it needs what the shard did before: run the whole shard again
            out = p.out + '-shard'; first = case
            q = Proc(exe, [mode, tier, str(s), str(n), out], env, out, max(30, min(limit, deadline - time.time()))); rc2 = q.wait(); j = load(out)
            if rc2 not in (0, 3) and (not q.timed_out or p.timed_out) and current_case(out) == first:
                viol.append({'case': case, 'key': case, 'shard': [s, n], 'msg': 'the code under test %s in case %s, after the cases before it' % (why, case), 'log': first_tail}); continue
            if rc2 == 0 and j is not None and j.get('violations'): viol += j['violations']; continue
            if viol: continue
            raise Err('%s shard %d %s at case %s, which passes when run alone\n%s' % (exe, s, why, case, first_tail))
        if rc2 == 3 and viol: continue
        if rc2 == 3: raise Err('harness error in case %s\n%s' % (case, q.tail()))
        why = 'does not terminate' if q.timed_out else 'stops with status %s' % rc2
        viol.append({'case': case, 'key': case, 'msg': 'the code under test %s in case %s' % (why, case), 'log': q.tail()})
    return res, viol, exe

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, bool): a[k] = a.get(k, True) and v
        elif isinstance(v, (int, float)):
            a[k] = max(a[k], v) if k.startswith('max_') and k in a else a.get(k, 0) + v
        elif isinstance(v, list): a.setdefault(k, []); a[k] = (a[k] + v)
        elif isinstance(v, dict): merge(a.setdefault(k, {}), v)
        else: a[k] = v

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                f = dict(x.split('=', 1) for x in l[8:].split(' ', 3)[1:3]); out.append((f['property'], f['key'], l))
    return out

def main():
    if sys.argv[1:] == ['setup']: return setup()
    if len(sys.argv) < 3: print(__doc__); return 2
    if sys.argv[1] == 'replay': return replay(sys.argv[2])
    if sys.argv[1] == 'list': print('\n'.join(C.CHECKS)); return 0
    prop, tier = sys.argv[1], sys.argv[2]
    chk = C.CHECKS[prop]; t0 = time.time(); th = tree_hash()
    deadline = t0 + (800 if tier == 'quick' else 12 * 3600)
    work = os.path.join(BUILD, 'work', '%s-%s-%d' % (prop, tier, os.getpid())); os.makedirs(work, exist_ok=True)
    cov, viol = {}, []
    try:
        for i, step in enumerate(chk['steps']):
            if step.get('only') and step['only'] != tier: continue
            res, v, exe = run_step(prop, tier, step, work, th, deadline)
            for x in v: x['step'] = i
            viol += v
            for r in res: merge(cov, r['coverage'])
            if tier == 'quick' and any((prop, x.get('key')) not in [(p, k) for p, k, _ in known_findings()] for x in viol): break
    except Err as e:
        sys.stdout.write('ERROR %s\n' % e); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not cov.get('evaluations') and cov.get('executions'): cov['evaluations'] = cov['executions']
    samples = cov.get('samples', []); cov['samples'] = samples[:12]
    if 'rule' in chk: cov['rule'] = chk['rule']
    known = known_findings(); new, listed = [], []
    for v in viol:
        for (p, key, line) in known:
            if p == prop and key == v.get('key'): listed.append((v, line)); break
        else: new.append(v)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': chk['level'], 'coverage': cov,
          'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for v, line in {l: (v, l) for v, l in listed}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, v['msg'].split('\n')[0]))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for v in new:
            if v.get('key') in seen: continue
            seen.add(v.get('key'))
            if len(seen) > 5: break
            h = hashlib.sha256(json.dumps([prop, v.get('case')]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, h))
            with open(path, 'w') as f: json.dump({'property': prop, 'tier': tier, 'step': v['step'], 'case': v.get('case'), 'msg': v['msg'], 'shard': v.get('shard'), 'log': v.get('log', '')}, f, indent=1)
            print(v['msg'][:3000]); 
            if v.get('log'): print(v['log'][-1500:])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s: held on everything explored (%.1f s) %s' % (prop, tier, time.time() - t0, {k: v for k, v in cov.items() if isinstance(v, (int, float))}))
    return 0

def setup():
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for t in (['g++', '--version'], ['objcopy', '--version']): run_cmd(t, t[0])
    print('%d checks registered' % len(C.CHECKS)); return 0

def replay(path):
    r = json.load(open(path)); step = C.CHECKS[r['property']]['steps'][r['step']]
    exe, so = build(step, tree_hash()); out = os.path.join(BUILD, 'replay-%d' % os.getpid())
    sh = [str(x) for x in r.get('shard') or []]
    p = subprocess.run([exe, step.get('mode', ''), r['tier']] + (sh + [out] if sh else ['0', '1', out, '--case', r['case']]), env=env_for(step, so))
    j = load(out); v = (j or {}).get('violations', [])
    for x in v: print(x['msg'])
    bad = p.returncode != 0 or v
    print('reproduced' if bad else 'not reproduced')
    return 1 if bad else 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Err as e: print('ERROR', e); sys.exit(2)

#!/usr/bin/env python3
"""Solver-based checks of LazyFS.  usage: check.py PROPERTY [quick|thorough]   |   check.py --setup

Every run compiles /repo's current sources to LLVM bitcode, links them with the guest environment and the property's
harness, executes the result symbolically (engine/symex, Z3) and replays every counterexample and a sample of path
witnesses on a native build of the same sources."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.environ.get('VP_BUILD', os.path.join(V, 'build'))
CLANG, LINK, OBJCOPY, NM = 'clang++-18', 'llvm-link-18', 'objcopy', 'nm'
if not shutil.which(CLANG): CLANG = 'clang++'
INC = ['-I' + V + '/guest/shadow', '-I' + V + '/guest', '-I' + V + '/harness', '-I' + REPO + '/lazyfs/include', '-I' + REPO + '/libs/libpcache/include']
COMMON = ['-std=c++17', '-O0', '-Wno-everything'] + INC
BCF = COMMON + ['-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-emit-llvm', '-c', '-include', V + '/guest/pre.h']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-3000:]))
    return r.stdout

def fhash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def engine():
    src = [f for f in glob.glob(V + '/engine/*') if os.path.isfile(f)]
    out = os.path.join(B, 'engine-' + fhash(src))
    exe = out + '/symex'
    if not os.path.exists(exe):
        tmp = out + '.tmp%d' % os.getpid()
        sh(['make', '-s', '-C', V + '/engine', 'OUT=' + tmp])
        if not os.path.exists(exe):
            os.makedirs(out, exist_ok=True)
            os.rename(tmp + '/symex', exe)
        shutil.rmtree(tmp, ignore_errors=True)
    return exe

def repo_sources():
    s = []
    for d in ('/lazyfs/src', '/libs/libpcache/src'):
        for r, _, fs in os.walk(REPO + d):
            s += [os.path.join(r, f) for f in fs if f.endswith(('.cpp', '.cc', '.cxx', '.c'))]
    return sorted(s)

def mainflag(src):
    return ['-Dmain=lazyfs_main'] if os.path.basename(src).startswith('main.') else []

def vcap(harness):
    m = re.match(r'// VCAP (\d+)', open(V + '/harness/%s.cpp' % harness).read())
    return int(m[1]) if m else 0

def objname(src): return re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(src, '/'))

class Build:
    """Bitcode and native builds in a scratch directory of this run."""
    def __init__(self, work):
        self.w = work
        self.pool = cf.ThreadPoolExecutor(8)
        self.repo_bc = [self.pool.submit(self.bc, s) for s in repo_sources()]
        self.guest_bc = {}
        self.har = {}
        self.nat = {}
    def bc(self, src, cap=0):
        o = self.w + '/' + objname(src) + ('.%d' % cap if cap else '') + '.bc'
        sh([CLANG] + BCF + mainflag(src) + (['-DVP_VCAP=%d' % cap] if cap else []) + [src, '-o', o]); return o
    def guest(self, cap):
        if cap not in self.guest_bc: self.guest_bc[cap] = [self.pool.submit(self.bc, V + '/guest/%s.cpp' % g, cap) for g in ('rt', 'vfs', 'boot', 'envtoml')]
        return self.guest_bc[cap]
    def module(self, harness):
        if harness not in self.har:
            cap = vcap(harness); self.guest(cap)
            h = self.pool.submit(self.bc, V + '/harness/%s.cpp' % harness, cap)
            out = self.w + '/' + harness + '.linked.bc'
            sh([LINK, '-o', out, h.result()] + [f.result() for f in self.repo_bc + self.guest(cap)])
            self.har[harness] = out
        return self.har[harness]
    NATF = {'asan': ['-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'], 'plain': ['-g']}
    def native_objs(self, flavour, cap=0):
        k = ('objs', flavour, cap)
        if k not in self.nat:
            def one(src):
                o = self.w + '/' + objname(src) + '.' + flavour + ('.%d' % cap if cap else '') + '.o'
                sh([CLANG] + COMMON + self.NATF[flavour] + mainflag(src) + (['-DVP_VCAP=%d' % cap] if cap else []) + ['-c', src, '-o', o]); return o
            self.nat[k] = (self.native_objs(flavour)[0] if cap else [self.pool.submit(one, s) for s in repo_sources()],
                           {g: self.pool.submit(one, V + '/guest/%s.cpp' % g) for g in ('vfs', 'envreal', 'boot', 'envtoml', 'symnative', 'thrnative')})
        return self.nat[k]
    def native(self, harness, flavour='asan', fs='model'):
        k = (harness, flavour, fs)
        if k not in self.nat:
            cap = vcap(harness)
            ro, go = self.native_objs(flavour, cap)
            h = self.w + '/' + harness + '.' + flavour + '.h.o'
            if not os.path.exists(h):
                sh([CLANG] + COMMON + self.NATF[flavour] + (['-DVP_VCAP=%d' % cap] if cap else []) + ['-c', V + '/harness/%s.cpp' % harness, '-o', h])
            gs = [go['vfs' if fs == 'model' else 'envreal']] + [go[g] for g in ('boot', 'envtoml', 'symnative', 'thrnative')]
            gs = [g.result() for g in gs]
            ren = set()
            for g in gs:
                for l in sh([NM, '--defined-only', g]).splitlines():
                    n = l.split()[-1]
                    if n.startswith('vfs_'): ren.add((n[4:], n))
                    if n.startswith('grt_'): ren.add((n[4:], n))
            rf = self.w + '/ren.%s.%s' % (flavour, fs)
            open(rf, 'w').write(''.join('%s %s\n' % p for p in sorted(ren)))
            objs = []
            for f in ro:
                o = f.result(); n = o[:-2] + '.' + fs + '.o'
                if not os.path.exists(n): sh([OBJCOPY, '--redefine-syms=' + rf, o, n])
                objs.append(n)
            exe = self.w + '/%s.%s.%s.exe' % (harness, flavour, fs)
            sh([CLANG] + self.NATF[flavour] + ['-rdynamic', '-o', exe, h] + objs + gs + ['-lpthread', '-ldl'])
            self.nat[k] = exe
        return self.nat[k]

def replay(exe, entry, args, inputs, work, valgrind=False, timeout=30):
    d = tempfile.mkdtemp(prefix='rp', dir=work)
    try:
        inf, outf = d + '/in', d + '/out'
        open(inf, 'w').write(''.join('%s %d\n' % (n, v) for n, v in inputs))
        os.mkdir(d + '/r')
        env = dict(os.environ, VP_DIR=d + '/r', ASAN_OPTIONS='detect_leaks=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1')
        cmd = [exe, entry, inf, outf] + [str(a) for a in args]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=67', '--undef-value-errors=yes'] + cmd
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors='replace', text=True)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 'hang', ''
        txt = open(outf).read() if os.path.exists(outf) else ''
        last = [l for l in txt.splitlines() if l]
        fin = last[-1] if last else ''
        obs = [(l.split()[1], int(l.split()[2])) for l in last if l.startswith('OBS ')]
        if rc == 'hang': st = ('fail', 'hang')
        elif rc == 66: st = ('fail', 'sanitizer: ' + (re.search(r'ERROR: AddressSanitizer: ([^\n]*)', err) or [0, '?'])[1][:120])
        elif rc == 67: st = ('fail', 'memcheck: ' + err.splitlines()[0][:120] if err else 'memcheck')
        elif isinstance(rc, int) and rc < 0: st = ('fail', 'killed by ' + signal.Signals(-rc).name + ' ' + err.strip()[-160:])
        elif fin.startswith(('ASSERT-FAIL', 'DEADLOCK')): st = ('fail', fin)
        elif fin.startswith('DIVERGED'): st = ('diverged', fin)
        elif rc == 0: st = ('ok', fin)
        else: st = ('diverged', 'rc=%s %s %s' % (rc, fin, err[-200:]))
        return st, obs
    finally:
        shutil.rmtree(d, ignore_errors=True)

def known():
    ks = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) run=(\S+) label=(\S+) (.*)', l)
            if m: ks.append(m.groups())
    return ks

def main():
    if sys.argv[1:] == ['--setup']:
        os.makedirs(B, exist_ok=True); print(engine()); return 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.path.insert(0, V)
    import props
    prop = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    exe = engine()
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=B)
    try:
        rc = run(pid, tier, prop, exe, work, t0)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)
    return rc

def run(pid, tier, prop, exe, work, t0):
    bld = Build(work)
    only = os.environ.get('VP_RUN')
    runs = [r for r in prop['runs'] if (tier == 'thorough' or not r.get('thorough_only')) and not (tier == 'thorough' and r.get('quick_only'))]
    if only: runs = [r for r in runs if r['entry'] == only]
    kf = known()
    viol, known_hit, notes, samples = [], [], [], []
    tot = dict(paths=0, forks=0, queries=0, insns=0, solver_s=0.0, asserts=0, asserts_symbolic=0, unsat=0, sat=0, symbolic_bytes=0, errors=0, incomplete=0)
    validated = {'model': 0, 'real': 0}; mismatched = 0; ended = 0
    funcs, native, lines, perrun = set(), set(), {}, []
    for m in sorted({r['harness'] for r in runs}): bld.module(m)
    bld.native_objs('asan')
    budget = prop.get('budget', {'quick': 300, 'thorough': 3000})[tier]
    for r in runs:
        args = list(r.get('args', [])); 
        if tier == 'thorough' and 'targs' in r: args = list(r['targs'])
        out = '%s/out-%s-%d' % (work, r['entry'], len(perrun)); os.makedirs(out)
        left = max(30, budget - (time.time() - t0))
        tmo = min(left, r.get('timeout', {}).get(tier, 1e9))
        cmd = [exe, bld.module(r['harness']), '--entry', r['entry'], '--out', out, '--jobs', os.environ.get('VP_JOBS', '8'), '--timeout', str(int(tmo)), '--witness', '12', '--max-insns', str(r.get('insns', 40000000))]
        for a in args: cmd += ['--arg', str(a)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        if not os.path.exists(out + '/result.json'):   # ended from outside (memory): once more, narrower
            shutil.rmtree(out); os.makedirs(out)
            p = subprocess.run([('3' if a == '--jobs' else x) for a, x in zip([''] + cmd, cmd)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        if not os.path.exists(out + '/result.json'): raise RuntimeError('engine failed: ' + p.stderr[-2000:])
        res = json.load(open(out + '/result.json'))
        for k in ('paths', 'forks', 'queries', 'insns', 'solver_s', 'asserts', 'asserts_symbolic', 'unsat', 'sat', 'errors', 'incomplete'): tot[k] += res[k]
        tot['symbolic_bytes'] += res['symbytes']
        funcs.update(f for f in res['functions'] if not f.startswith(('__gnu', '_GLOBAL', '__cxx'))); native.update(res['native'])
        for f, (h, t) in res['lines'].items():
            a = lines.setdefault(f.replace(REPO + '/', ''), [0, t]); a[0] = max(a[0], h)
        if res['errors']:
            notes.append('%s: engine errors: %s' % (r['entry'], open(out + '/errors.txt').read()[:400] if os.path.exists(out + '/errors.txt') else res['errors']))
        if res['incomplete']: notes.append('%s: %d paths not explored to the end within the time limit' % (r['entry'], res['incomplete']))
        ended += sum(res['reach'].get(l, 0) for l in r.get('reach', []))
        missing = [l for l in r.get('reach', []) if not res['reach'].get(l)]
        perrun.append(dict(entry=r['entry'], harness=r['harness'], args=args, bounds=r.get('bounds', ''), paths=res['paths'], queries=res['queries'], solver_s=round(res['solver_s'], 2), wall_s=round(res['wall_s'], 2), asserts=res['asserts'], reach=res['reach'], labels=res['violation_labels'], errors=res['errors'], incomplete=res['incomplete']))
        if os.environ.get('VP_VERBOSE'): print(json.dumps(perrun[-1])); sys.stdout.flush()
        # counterexamples
        cex = []
        if os.path.exists(out + '/violations.jsonl'):
            for l in open(out + '/violations.jsonl'):
                try: cex.append(json.loads(l))
                except ValueError: pass
        bylab = {}
        for c in cex: bylab.setdefault(c['label'], []).append(c)
        for lab, cs in bylab.items():
            k = [x for x in kf if x[0] == pid and x[1] == r['entry'] and (lab == x[2] or (x[2].endswith('*') and lab.startswith(x[2][:-1])))]
            conf = None
            for c in cs:
                if conf: break
                tries = []
                if c['kind'] == 'uninit': tries = [('plain', 'model', True)]
                else:
                    tries = [('asan', 'model', False)]
                    if not r.get('model_only'): tries.append(('asan', 'real', False))
                for fl, fs, vg in tries:
                    st, _ = replay(bld.native(r['harness'], fl, fs), r['entry'], args, c['inputs'], work, vg)
                    if os.environ.get('VP_VERBOSE'): print('  cex', lab, fl, fs, st)
                    if st[0] == 'fail': conf = (c, fl, fs, st); break
            if not conf:
                notes.append('%s: counterexample for "%s" did not reproduce natively; not reported' % (r['entry'], lab)); mismatched += 1
                continue
            if k: known_hit.append((r['entry'], lab, k[0][3])); continue
            c, fl, fs, st = conf
            viol.append(dict(entry=r['entry'], harness=r['harness'], args=args, label=lab, where=c['where'], inputs=c['inputs'], replay=dict(build=fl, fs=fs, outcome=st[1])))
        if missing and not viol: notes.append('%s: labels not reached: %s' % (r['entry'], missing)); tot['errors'] += 1
        # path witnesses against the native build
        wits = []
        if os.path.exists(out + '/witness.jsonl'):
            for l in open(out + '/witness.jsonl'):
                try: wits.append(json.loads(l))
                except ValueError: pass
        nw = r.get('witness', {'quick': 6, 'thorough': 16}[tier])
        step = max(1, len(wits) // nw)
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for i, w in enumerate(wits[::step][:nw]):
                for fs in (['model'] if r.get('model_only') else ['model', 'real']):
                    jobs.append((w, fs, ex.submit(replay, bld.native(r['harness'], 'asan', fs), r['entry'], args, w['inputs'], work)))
            for w, fs, j in jobs:
                st, obs = j.result()
                if st[0] == 'ok' and [list(o) for o in obs] == [[n, v] for n, v in w['obs']]: validated[fs] += 1
                elif st[0] == 'fail' and (st[1] != 'hang' or replay(bld.native(r['harness'], 'asan', fs), r['entry'], args, w['inputs'], work, timeout=90)[0][0] == 'fail'):
                    # the engine judged this path clean; a native failure on the same inputs is a violation in its own right
                    if not viol: viol.append(dict(entry=r['entry'], harness=r['harness'], args=args, label='native:' + st[1], where='', inputs=w['inputs'], replay=dict(build='asan', fs=fs, outcome=st[1])))
                else:
                    mismatched += 1; notes.append('%s: witness replay on %s fs: %s %s' % (r['entry'], fs, st, [o for o, x in zip(obs, w['obs']) if list(o) != list(x)][:3]))
        if wits and len(samples) < 4:
            samples.append(dict(run=r['entry'], inputs=wits[0]['inputs'][:40], observed=wits[0]['obs'][:12]))
        if viol and tier == 'quick': break
    lvl = prop.get('level', 'model_checking')
    cov = dict(states=tot['paths'], transitions=tot['forks'] + tot['paths'], traces_validated_against_impl=validated['model'] + validated['real'], samples=samples or [dict(note='no complete path')],
               validated_on_model_fs=validated['model'], validated_on_kernel_fs=validated['real'], witness_mismatches=mismatched,
               technique='symbolic execution of the LLVM bitcode of the real sources with Z3 deciding every branch and assertion',
               solver=dict(queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], solver_s=round(tot['solver_s'], 2), assertions_checked=tot['asserts'], assertions_symbolic=tot['asserts_symbolic'], symbolic_bytes=tot['symbolic_bytes']),
               instructions_executed=tot['insns'], functions_encoded=sorted(funcs), executed_natively=sorted(native), source_blocks_covered=lines, runs=perrun, notes=notes,
               exploration_complete=(tot['errors'] == 0 and tot['incomplete'] == 0))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=lvl, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=prop.get('assumptions', []), violations=len(viol))
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for n in notes: print('NOTE', n)
    for e, l, d in known_hit: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, d, l))
    print('%s %s: %d paths, %d queries, %.1f s solver, %d witness replays, %.1f s' % (pid, tier, tot['paths'], tot['queries'], tot['solver_s'], validated['model'] + validated['real'], time.time() - t0))
    if viol:
        os.makedirs(V + '/evidence/replays', exist_ok=True)
        for i, v in enumerate(viol[:5]):
            path = '%s/evidence/replays/%s-%d.json' % (V, pid, i)
            json.dump(v, open(path, 'w'), indent=1)
            print('  %s: %s -> %s; inputs %s' % (v['entry'], v['label'], v['replay']['outcome'], json.dumps(v['inputs'])[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if tot['errors'] and not ended: print('nothing was explored to the end'); return 2
    return 0

if __name__ == '__main__': sys.exit(main())

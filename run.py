#!/usr/bin/env python3
"""Contract checker for gtl.   run.py <property> [--tier quick|thorough] [--strict] [--only REGEX]

Every run: compiles the harness TUs against /repo/include (hooks on), extracts
the IR mechanically to C (engine/ll2c), and lets CBMC discharge every
obligation.  See DESIGN.md."""
import collections, sys, os, re, json, time, subprocess, hashlib, threading, shutil, signal, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GTL_REPO', '/repo')
sys.path.insert(0, V)
INC = REPO + '/include'

def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    """run, return (rc, out, timed_out)"""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            b = int(mem_gb * (1 << 30)); resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return -9, out.decode('utf8', 'replace'), True

_ll2c_lock = threading.Lock()
def ll2c_path():
    with _ll2c_lock:
        src = V + '/engine/ll2c.cpp'
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        d = V + '/build'; os.makedirs(d, exist_ok=True)
        exe = f'{d}/ll2c-{h}'
        if not os.path.exists(exe):
            tmp = f'{exe}.{os.getpid()}'
            rc, out, _ = sh([V + '/engine/build.sh', tmp])
            if rc: raise SystemExit('cannot build ll2c:\n' + out)
            os.replace(tmp, exe)
        return exe

class J(dict):
    __getattr__ = dict.get

CLANG = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-fno-access-control', '-w', '-DVF_CBMC',
         '-I' + V + '/engine', '-I' + INC, '-emit-llvm', '-c']
NATIVE = ['g++', '-std=c++20', '-O1', '-g', '-fno-access-control', '-w', '-I' + V + '/engine', '-I' + INC]
NATIVE_SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']

class Runner:
    def __init__(self, prop, tier, seed, strict=False, only=None, keep=False):
        self.prop, self.tier, self.seed, self.strict, self.only = prop, tier, seed, strict, only
        self.dir = f'{V}/build/{prop}.{os.getpid()}'
        shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
        self.rep = f'{V}/evidence/replay'; os.makedirs(self.rep, exist_ok=True)
        self.bc = {}; self.bclock = {}; self.lk = threading.Lock()
        self.violations = []; self.results = []; self.keep = keep
    def compile_bc(self, job):
        key = hashlib.sha256(repr((job.file, job.cxx)).encode()).hexdigest()[:12]
        with self.lk: l = self.bclock.setdefault(key, threading.Lock())
        with l:
            if key not in self.bc:
                o = f'{self.dir}/{key}.bc'
                rc, out, to = sh(CLANG + (job.cxx or []) + [f'{V}/{job.file}', '-o', o], timeout=300)
                self.bc[key] = (o if rc == 0 else None, out)
            return self.bc[key]
    # ---- deductive job -------------------------------------------------
    def run_cbmc(self, job):
        r = J(job=job, kind='cbmc', name=job.name or job.entry, status='undecided', obligations=0, discharged=0, covers=0, covered=0, reason='', solver_s=0.0, funcs=[], stubs=[], cuts=[], externs=[])
        bc, out = self.compile_bc(job)
        if not bc:
            m = re.search(r'^.*error:.*$', out, re.M)
            r['reason'] = 'harness does not compile against the current tree: ' + (m.group(0) if m else out[-600:]); return r
        c = f'{self.dir}/{job.name or job.entry}.c'
        cmd = [ll2c_path(), bc, c, '--entry', job.entry]
        for a, b in (job.stubs or {}).items(): cmd += ['--stub', f'{a}=>{b}']
        for a, b in (job.recs or {}).items(): cmd += ['--rec', f'{a}=>{b}']
        if job.eh: cmd += ['--eh']
        if job.bytewise: cmd += ['--bytewise']
        if job.pipeline: cmd += ['--pipeline', job.pipeline]
        rc, out, to = sh(cmd, timeout=120)
        if rc: r['reason'] = 'extraction failed: ' + out[-800:]; return r
        for ln in open(c + '.report'):
            k, _, v = ln.rstrip('\n').partition(' ')
            if k in ('func', 'stub', 'cut', 'extern'): r[k + 's'].append(v)
        hits = collections.Counter()
        for s in r.stubs: hits[s.split()[0]] += int(s.split()[1])
        for s, n in hits.items():
            if not n: r['shape'] = 'contract ' + s + ' has no call site'
        need = set(job.cuts or [])
        have = {x.split()[0] for x in r.cuts}
        if need - have: r['shape'] = 'loop annotation(s) missing: ' + ','.join(need - have)
        def mkbase(unwind):
            base = ['cbmc', c, '-I' + V + '/engine', '--function', job.entry, '--no-standard-checks', '--object-bits', str(job.object_bits or 10),
                    '--no-malloc-may-fail', '--slice-formula', '--unwinding-assertions', '--unwind', str(unwind)]
            for u in (job.unwindset or []): base += ['--unwindset', u]
            if job.ptr is not False: base += ['--pointer-check', '--bounds-check']
            return base + (job.cbmc or [])
        ladder = [job.unwind or 2] + ([72] if (job.unwind or 2) < 72 and not job.noladder else [])
        t0 = time.time()
        for k, uw in enumerate(ladder):      # a rewritten loop may need more iterations than the usual one
            base = mkbase(uw); r['cmd'] = ' '.join(base)
            for f in ('obligations', 'discharged', 'covers', 'covered'): r[f] = 0
            rc, out, to = sh(base + ['--json-ui'], timeout=job.timeout or 300, mem_gb=job.mem or 12)
            r['solver_s'] = round(time.time() - t0, 2)
            if to: r['reason'] = f'solver time limit ({job.timeout or 300} s)'; return r
            try: js = json.loads(out)
            except Exception: r['reason'] = 'cbmc: ' + out[-600:]; return r
            props = None
            for x in js:
                if isinstance(x, dict) and 'result' in x: props = x['result']
            if props is None:
                r['reason'] = 'cbmc: ' + ' '.join(x.get('messageText', '') for x in js if isinstance(x, dict) and x.get('messageType') == 'ERROR')[-600:] + out[-300:]; return r
            fails = []; unw = []
            for p in props:
                d = p.get('description', ''); ok = p.get('status') == 'SUCCESS'
                if d.startswith('cover:'):
                    if d[6:] in (job.nocov or ()): continue
                    r['covers'] += 1; r['covered'] += (not ok)
                    continue
                r['obligations'] += 1
                if ok: r['discharged'] += 1
                elif 'unwind' in d or '.unwind.' in p.get('property', ''): unw.append(p)
                elif 'recursion' in p.get('property', ''): unw.append(p)
                else: fails.append(p)
            if fails or not unw: break
        r['fails'] = fails
        if fails:
            r['status'] = 'fail'
            r['unw'] = len(unw)
            fails.sort(key=lambda p: (p.get('description', '').startswith('ub:') or 'dereference' in p.get('description', '')))
            self.counterexample(job, r, base, fails, c)
        elif unw: r['reason'] = 'unwinding bound not sufficient: ' + unw[0]['property']
        elif r.covers == 0 or r.covered < r.covers: r['reason'] = f'vacuous: {r.covered}/{r.covers} cover points reachable'
        elif r.obligations == 0: r['reason'] = 'no obligations'
        else: r['status'] = 'ok'
        return r
    def counterexample(self, job, r, base, fails, cfile):
        r['confirmed'] = False; r['replay_out'] = ''
        tl = []
        for p in fails[:3]:
            rc, out, to = sh(base + ['--json-ui', '--trace', '--property', p['property']], timeout=job.timeout or 300, mem_gb=job.mem or 12)
            vals = None
            try:
                for x in json.loads(out):
                    if isinstance(x, dict) and 'result' in x:
                        for q in x['result']:
                            if q.get('status') == 'FAILURE' and 'trace' in q:
                                vals = []
                                for st in q['trace']:
                                    if st.get('stepType') == 'assignment' and st.get('lhs') == 'vf_nd_value' and not st.get('hidden', False) and 'data' in st.get('value', {}):
                                        b = st['value'].get('binary'); 
                                        vals.append((st['value']['data'], b))
            except Exception as e: pass
            if vals is None: tl.append((p, None, 'no trace')); continue
            # cbmc emits one assignment for the declaration (uninitialised) and one for the value; keep those from nondet
            seq = []
            for d, b in vals:
                try: seq.append(int(b, 2) if b else int(re.sub(r'[ul]+$', '', d)))
                except Exception: seq.append(0)
            vf = f'{self.dir}/{job.name or job.entry}.vals'
            open(vf, 'w').write('\n'.join(map(str, seq)) + '\n')
            outcome = ''
            if job.replay is not False:
                exe = f'{self.dir}/{job.name or job.entry}.replay'
                rc, o2, to = sh(NATIVE + NATIVE_SAN + [f'-DVF_ENTRY={job.entry}'] + [x for x in (job.cxx or []) if x.startswith('-D') or x.startswith('-m')] + [f'{V}/{job.file}', f'{V}/engine/native_rt.cpp', '-o', exe, '-pthread'], timeout=300)
                if rc == 0:
                    rc, o3, to = sh([exe], timeout=20, env=dict(os.environ, VF_VALUES=vf))
                    outcome = o3[-1500:] + (' [hang]' if to else '')
                    if to or (rc != 0 and rc != 77 ): r['confirmed'] = True
                else: outcome = 'replay build failed ' + o2[-500:]
            tl.append((p, seq, outcome))
            if r['confirmed']: break
        r['trace'] = tl
    # ---- native bounded stand-in ----------------------------------------
    def run_native(self, job):
        r = J(job=job, kind='native', name=job.name or os.path.basename(job.file), status='undecided', cases=0, reason='')
        exe = f'{self.dir}/{r.name}.exe'
        cxx = job.compiler or NATIVE
        san = NATIVE_SAN if job.san is not False else []
        rc, out, to = sh(cxx + san + (job.cxx or []) + [f'{V}/{job.file}', '-o', exe, '-pthread'] + (job.ld or []), timeout=400)
        if rc:
            m = re.search(r'^.*error:.*$', out, re.M)
            r['reason'] = 'stand-in does not compile against the current tree: ' + (m.group(0) if m else out[-600:]); return r
        env = dict(os.environ, VF_TIER=self.tier, VF_SEED=str(self.seed), ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=9', UBSAN_OPTIONS='print_stacktrace=1')
        scratch = f'{self.dir}/{r.name}.scratch'; os.makedirs(scratch, exist_ok=True); env['VF_SCRATCH'] = scratch
        t0 = time.time()
        rc, out, to = sh([exe] + (job.args or []), timeout=job.timeout or 400, env=env, cwd=scratch)
        r['wall'] = round(time.time() - t0, 1)
        m = re.findall(r'^CASES (\S+) (\d+)$', out, re.M)
        r['cases'] = sum(int(n) for _, n in m); r['groups'] = m
        if to: r['reason'] = 'time limit'; r['out'] = out[-2000:]; return r
        if rc == 0 and r['cases'] > 0 and not re.search(r'^FAIL ', out, re.M): r['status'] = 'ok'
        elif rc == 0: r['reason'] = 'no cases'
        elif 'FATAL: ThreadSanitizer' in out or 'FATAL: AddressSanitizer' in out[:200]: r['reason'] = 'environment: ' + out[-300:]
        elif rc == 78: r['reason'] = 'environment: ' + out[-300:]
        else: r['status'] = 'fail'; r['confirmed'] = True; r['out'] = out[-6000:]; r['rc'] = rc
        return r
    def run_script(self, job):
        r = J(job=job, kind='script', name=job.name, status='undecided', obligations=0, discharged=0, reason='', solver_s=0.0)
        t0 = time.time()
        rc, out, to = sh([x.replace('@V', V) for x in job.cmd], timeout=job.timeout or 300, cwd=self.dir)
        r['solver_s'] = round(time.time() - t0, 2); r['cmd'] = ' '.join(job.cmd); r['out'] = out[-3000:]
        m = re.search(r'^OBLIGATIONS (\d+)$', out, re.M)
        if rc == 0 and m: r['status'] = 'ok'; r['obligations'] = r['discharged'] = int(m.group(1))
        else: r['reason'] = f'rc={rc} timeout={to} ' + out[-400:]
        return r
    # ----------------------------------------------------------------------
    def go(self, spec):
        jobs = [J(j) for j in spec['jobs'] if self.tier in j.get('tiers', ('quick', 'thorough'))]
        if self.only: jobs = [j for j in jobs if re.search(self.only, j.entry or j.name or j.file)]
        t0 = time.time()
        ll2c_path()
        jobs.sort(key=lambda j: -(j.get('cost') or 5))
        def one(j):
            try:
                return {'cbmc': self.run_cbmc, 'native': self.run_native, 'script': self.run_script}[j.get('kind', 'cbmc')](j)
            except Exception as e:
                import traceback
                return J(job=j, kind=j.get('kind', 'cbmc'), name=j.entry or j.name, status='undecided', reason='internal: ' + traceback.format_exc()[-800:], obligations=0, discharged=0, covers=0, covered=0, solver_s=0, cases=0, funcs=[], externs=[], stubs=[], cuts=[])
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VF_JOBS', '8'))) as ex:
            self.results = list(ex.map(one, jobs))
        rcode = self.report(spec, time.time() - t0)
        if not self.keep: shutil.rmtree(self.dir, ignore_errors=True)
        return rcode
    def report(self, spec, wall):
        known = load_known()
        viol = []
        undecided = []
        any_native_ok = any(r.kind == 'native' and r.status == 'ok' for r in self.results)
        confirmed = [r for r in self.results if r.status == 'fail' and r.get('confirmed')]
        for r in self.results:
            tag = f'{r.kind}:{r.name}'
            if r.status == 'ok':
                print(f'  ok        {tag} ' + (f'{r.discharged} obligations, {r.solver_s}s' if r.kind != 'native' else f'{r.cases} cases, {r.wall}s') + (' [bounded]' if r.job.level == 'bounded' or r.kind == 'native' else ''))
            elif r.status == 'undecided':
                same = any(u.reason == r.reason for u in undecided)
                print(f'  UNDECIDED {tag}: ' + ('same reason' if same else r.reason)); undecided.append(r)
            else:
                ids = [p['description'] for p in r.get('fails', [])] if r.kind == 'cbmc' else re.findall(r'^FAIL .*$', r.get('out', ''), re.M)
                kf = [k for k in known if k['property'] == self.prop and k['job'] == r.name and ids and all(any(k2['match'] in i for k2 in known if k2['property'] == self.prop and k2['job'] == r.name) for i in ids)]
                if kf:
                    for k in kf: print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
                    continue
                if r.kind == 'cbmc' and not r.confirmed:
                    if r.get('shape') or (r.get('unw') and r.job.level != 'bounded'):
                        r['reason'] = f'obligation not discharged but the annotated shape is gone ({r.get("shape") or "unwinding"}): ' + '; '.join(ids[:3])
                        print(f'  UNDECIDED {tag}: {r.reason}'); undecided.append(r); continue
                viol.append((r, ids))
                print(f'  FAIL      {tag}: ' + '; '.join(ids[:6]))
        lines = []
        for r, ids in viol:
            p = f'{self.rep}/{self.prop}-{r.name}.txt'
            with open(p, 'w') as f:
                f.write(f'property {self.prop}\njob {r.kind}:{r.name}\nfile {r.job.file}\nfailed obligations:\n' + ''.join(f'  {i}\n' for i in ids))
                if r.kind == 'cbmc':
                    f.write(f'verifier command: {r.cmd}\n')
                    for (q, seq, o) in r.get('trace', []):
                        f.write(f'\nobligation {q["property"]}: {q["description"]}\n  location {q.get("sourceLocation")}\n  counterexample inputs (in order of vf_* calls): {seq}\n  native replay (ASan/UBSan build of the same harness): {o}\n')
                    if r.confirmed: f.write(f'\nreproduce: g++ -std=c++20 -O1 -g -fno-access-control {" ".join(NATIVE_SAN)} -I{V}/engine -I{INC} -DVF_ENTRY={r.job.entry} {V}/{r.job.file} {V}/engine/native_rt.cpp -o r && VF_VALUES=<file with the inputs> ./r\n')
                    else: f.write('\nno failing input reproduced natively: the obligation above was discharged on the unchanged tree and is refuted by the verifier now.\n')
                else:
                    f.write('output:\n' + r.get('out', '') + f'\nreproduce: {" ".join(NATIVE + NATIVE_SAN)} {V}/{r.job.file} -o r && ./r\n')
            lines.append((r.get('confirmed'), f'VIOLATION property={self.prop} replay={p}' + ('' if r.get('confirmed') else ' no-failing-input-found')))
        self.evidence(spec, wall, len(lines))
        if any(c for c, _ in lines): lines = [l for l in lines if l[0]]   # a confirmed one settles it
        for _, l in lines: print(l)
        if self.strict and undecided and not lines: return 3
        if not lines and self.results and len(undecided) == len(self.results):
            print('no obligation could be generated or decided on this tree'); return 2
        return 1 if lines else 0
    def evidence(self, spec, wall, nv):
        pj = [r for r in self.results if r.kind in ('cbmc', 'script')]
        proof = [r for r in pj if r.job.level != 'bounded']; bnd = [r for r in pj if r.job.level == 'bounded']; nat = [r for r in self.results if r.kind == 'native']
        full = lambda rs: dict(obligations=sum(r.obligations for r in rs), discharged=sum(r.discharged for r in rs))
        funcs = sorted({f for r in pj for f in r.get('funcs', []) if 'gtl::' in f})
        ext = sorted({e for r in pj for e in r.get('externs', []) if not e.startswith('vf_')})
        cov = dict(full(proof), checker_cmd='python3 run.py %s (clang++ -> engine/ll2c -> cbmc 6.11 per function; per-job commands under jobs)' % self.prop,
                   trusted_base=['clang 18 front end and -O1 IR passes', 'engine/ll2c (IR to C, this repository)', 'cbmc 6.11 (SAT back end MiniSat unless a job says --z3/--cvc5)', 'engine/models.c environment models'] + ['external symbol modelled or unconstrained: ' + e for e in ext],
                   bounded=dict(full(bnd), note='unwind/size-capped obligations, not counted as proved'),
                   bounded_native=[dict(job=r.name, cases=r.cases, bound=r.job.bound, status=r.status, groups=r.get('groups', [])) for r in nat],
                   functions_under_contract=funcs,
                   functions_under_contract_n=len(funcs),
                   cover_points=sum(r.get('covers') or 0 for r in pj), cover_points_reached=sum(r.get('covered') or 0 for r in pj),
                   solver_seconds=round(sum(r.solver_s or 0 for r in pj), 1),
                   undecided=[dict(job=r.name, reason=r.reason[:300]) for r in self.results if r.status == 'undecided'],
                   jobs=[dict(job=r.name, kind=r.kind, label=r.job.level or ('bounded' if r.kind == 'native' else 'proof'), status=r.status, contract=r.job.what, bound=r.job.bound, obligations=r.get('obligations'), discharged=r.get('discharged'), cases=r.get('cases'), covers=f"{r.get('covered')}/{r.get('covers')}", solver_s=r.get('solver_s'), replaced_by_contract=r.get('stubs'), loop_invariants=r.get('cuts'), cmd=r.get('cmd')) for r in self.results])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=spec.get('level', 'proof'), coverage=cov, assumptions=spec.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 1), violations=nv)
        lv = spec.get('level', 'proof')
        if lv != 'proof':
            cov['evaluations'] = sum(r.cases or 0 for r in nat); cov['distinct_nontrivial'] = cov['evaluations']; cov['rule'] = spec.get('rule', 'enumerated operation sequences; every one is distinct by construction and performs at least one operation'); cov['samples'] = [r.job.bound for r in nat][:3]; cov['explanation'] = spec.get('note', '')
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{self.prop}.json', 'w'), indent=1)

COMMON_ASSUMPTIONS = ['exceptions are not modelled in the extracted code (unwind edges are dropped)', 'operator new succeeds; allocation returns fresh memory', 'atomics are sequentially consistent and single-threaded in the extracted code', 'C++ headers are instantiated at the element types named in each harness']

def load_known():
    p = V + '/known_findings.json'
    return json.load(open(p)).get('open', []) if os.path.exists(p) else []

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--strict', action='store_true'); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.prop == 'setup': ll2c_path(); print('ok'); return 0
    import checks
    return Runner(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), a.strict, a.only, a.keep).go(checks.CHECKS[a.prop])
if __name__ == '__main__': sys.exit(main())

#!/usr/bin/env python3
"""Runs the solver-based checks of one property (or several) against /repo's working tree.

  check.py B01                 quick tier            check.py B01 --thorough
  check.py --replay FILE       run one recorded counterexample natively
  check.py --setup             build the engine

Exit 0: every query of every entry came back 'holds' (or the exploration budget ended first, which is printed as
UNDECIDED and recorded). Exit 1: a counterexample that reproduces on the natively built code. Exit 2: the check itself
could not do its work."""
import sys, os, json, subprocess, time, tempfile, shutil, signal, hashlib, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
SYMEX = os.path.join(BUILD, 'symex')
LLVM = '/usr/lib/llvm-18/bin/'
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CFLAGS = ['-std=c++17', '-DNDEBUG', '-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-w', '-emit-llvm', '-c']
PASSES = 'function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg)'
REAL = ['-std=c++17', '-O3', '-DNDEBUG', '-w']           # the flags of the project's Release build
VARIANTS = {'release': ['g++'] + REAL,
            'asan': ['g++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-fsanitize=address', '-fno-omit-frame-pointer'],
            'clang': ['clang++', '-std=c++17', '-O2', '-DNDEBUG', '-w'],
            'work': ['g++', '-std=c++17', '-O1', '-DNDEBUG', '-w', '-fno-inline-functions', '-fsanitize-coverage=trace-pc', '-DCOUNT_WORK'],
            'frozen': ['g++', '-std=c++17', '-O1', '-DNDEBUG', '-w', '-DFREEZE'],
            'faults': ['g++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-DFAULTS', '-fsanitize=address', '-fno-omit-frame-pointer', '-Wl,--wrap=posix_memalign', '-Wl,--wrap=aligned_alloc', '-Wl,--wrap=free'],
            'pattern': ['g++', '-std=c++17', '-O1', '-DNDEBUG', '-w', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS']}
ISA = {'base': set(), 'popcnt': {'popcnt'}, 'bmi': {'popcnt', 'bmi1', 'abm'}, 'haswell': {'popcnt', 'bmi1', 'bmi2', 'abm', 'avx2'}}

def log(*a): print(*a, flush=True)
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def setup():
    os.makedirs(BUILD, exist_ok=True)
    r = sh(['make', '-s', '-C', os.path.join(HERE, 'engine'), 'B=' + BUILD])
    if r.returncode or not os.path.exists(SYMEX): log(r.stdout[-4000:]); return False
    return True

class Failed(Exception): pass

def cpu_has(cfg):
    if not ISA.get(cfg): return True
    try:
        flags = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
        return ISA[cfg] <= flags
    except Exception: return False

class Mod:
    """one harness file in one configuration: bitcode, native builds"""
    def __init__(self, src, cfg, tier, work):
        self.src, self.cfg, self.tier, self.work = src, cfg, tier, work
        self.tag = f'{src}.{cfg}'; self.flags = CONFIGS[cfg] + (['-DTHOROUGH'] if tier == 'thorough' else [])
        self.bc = os.path.join(work, self.tag + '.bc'); self.native = {}
    def inc(self): return ['-I' + REPO + '/include', '-I' + HERE + '/harness']
    def compile(self):
        a = self.bc + '.a'; rt = os.path.join(self.work, 'rt.bc')
        for cmd in (['clang++', *CFLAGS, *self.flags, *self.inc(), f'{HERE}/harness/{self.src}.cpp', '-o', a],
                    [LLVM + 'llvm-link', a, rt, '-o', a + '2'], [LLVM + 'opt', '-passes=' + PASSES, a + '2', '-o', self.bc]):
            r = sh(cmd)
            if r.returncode: raise Failed(f'{self.tag}: {cmd[0]} failed:\n' + r.stdout[-3000:])
        r = sh([SYMEX, self.bc, '--list'])
        self.entries = [e for e in r.stdout.split() if e.startswith('h_')]
    def build_native(self, variant):
        if variant in self.native: return self.native[variant]
        out = os.path.join(self.work, f'{self.tag}.{variant}')
        r = sh([*VARIANTS[variant], '-DSYM_NATIVE', *self.flags, *self.inc(), f'{HERE}/harness/{self.src}.cpp', f'{HERE}/harness/native.cpp', '-rdynamic', '-ldl', '-o', out])
        self.native[variant] = out if r.returncode == 0 else None
        if r.returncode: log(f'NOTE native {variant} build of {self.tag} failed: ' + r.stdout[-1500:])
        return self.native[variant]

def run_native(exe, entry, inputs, timeout, env=None):
    e = dict(os.environ); e.update({'ASAN_OPTIONS': 'exitcode=66:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1', 'MALLOC_PERTURB_': '0'}); e.update(env or {})
    def lim():
        import resource
        if 'asan' not in exe and 'faults' not in exe: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([exe, entry] + inputs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=e, preexec_fn=lim)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired: return 'timeout', '', ''

def reproduce(mod, entry, v):
    """native run of a counterexample; returns a description when the real code fails on it"""
    plans = [('release', None), ('asan', None), ('release', {'MALLOC_PERTURB_': '165'}), ('release', {'MALLOC_PERTURB_': '255'}), ('pattern', None), ('clang', None), ('work', None), ('frozen', None), ('faults', None)]
    if v['kind'] == 'memory': plans.insert(0, plans.pop(1))
    tried = []
    for variant, env in plans:
        exe = mod.build_native(variant)
        if not exe: tried.append(variant + ':no build'); continue
        rc, out, err = run_native(exe, entry, v['inputs'], 20 if variant == 'asan' else 10, env)
        if rc == 'timeout': return f'{variant} build does not terminate within its limit'
        if rc == 1:
            m = re.search(r'ASSERTION FAILED: .*', out); return f'{variant} build: ' + (m.group(0) if m else 'exit 1')
        if rc == 66:
            m = re.search(r'ERROR: AddressSanitizer:? .*', err); fr = re.findall(r'#\d+ .* in (.*)', err)[:4]
            return f'{variant} build: ' + (m.group(0)[:160] if m else 'sanitizer report') + ' | ' + ' < '.join(f[:120] for f in fr)
        if isinstance(rc, int) and rc < 0 and rc != -signal.SIGILL: return f'{variant} build dies with signal {-rc}: ' + (err.strip().splitlines() or [''])[-1][:200]
        tried.append(f'{variant}:{rc}')
    v['tried'] = tried
    return None

def run_entry(job):
    mod, entry, opt, deadline = job
    out = os.path.join(mod.work, f'{mod.tag}.{entry}.json')
    left = deadline - time.time()
    budget = min(opt['time'], left)
    if budget < 5: return {'entry': entry, 'status': 'incomplete', 'why': 'not started: the time budget of the check was used up', 'mod': mod, 'violations': [], 'witnesses': [], 'reach': {}}
    def go(extra):
        if os.path.exists(out): os.remove(out)
        cmd = [SYMEX, mod.bc, entry, '--out', out, '--time', str(int(budget)), '--max-steps', str(opt['steps']), *extra]
        cmd += opt['flags']
        if opt['xcheck']: cmd.append('--xcheck')
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=max(30, budget * 1.25 + 60)); log_ = p.stdout; rc = p.returncode
        except subprocess.TimeoutExpired: log_ = ''; rc = 'killed at its time limit'
        try: d = json.load(open(out))
        except Exception: d = {'status': 'incomplete' if rc in (-9, 'killed at its time limit') else 'error', 'why': f'engine ended with {rc}: {log_[-400:]}', 'violations': [], 'witnesses': [], 'reach': {}}
        for x in d['violations'] + d['witnesses']:
            for k in ('inputs', 'obs'):
                if k in x: x[k] = [str(i) for i in x[k]]
        return d
    t = time.time(); d = go([]); d['entry'] = entry; d['mod'] = mod; d['total_s'] = time.time() - t
    return d

def main():
    ap = sys.argv[1:]
    if ap and ap[0] == '--setup': return 0 if setup() else 2
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in ap: tier = 'thorough'; ap.remove('--thorough')
    if '--quick' in ap: tier = 'quick'; ap.remove('--quick')
    only = None
    if '--only' in ap: k = ap.index('--only'); only = ap[k + 1]; del ap[k:k + 2]
    if not setup(): log('engine does not build'); return 2
    if ap and ap[0] == '--replay': return replay(ap[1])
    rc = 0
    for pid in ap or list(CHECKS): rc = max(rc, check(pid, tier, seed, only))
    return rc

def replay(path):
    r = json.load(open(path)); work = tempfile.mkdtemp(prefix='vr', dir=BUILD)
    try:
        mod = Mod(r['module'], r['config'], r['tier'], work)
        d = reproduce(mod, r['entry'], {'kind': r['kind'], 'inputs': r['inputs']})
        log(('REPRODUCED ' + d) if d else 'not reproduced'); return 1 if d else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def check(pid, tier, seed, only=None):
    t0 = time.time(); c = CHECKS[pid]; quick = tier == 'quick'
    deadline = t0 + (780 if quick else 6000)
    opt = {'time': c.get('time', 300 if quick else 3000) if quick else c.get('time_thorough', 3000), 'steps': c.get('steps', 20000000), 'xcheck': not quick, 'flags': c.get('flags', [])}
    os.makedirs(BUILD, exist_ok=True); work = tempfile.mkdtemp(prefix='run', dir=BUILD)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': 0}
    try:
        r = sh(['clang++', *CFLAGS, '-I' + REPO + '/include', '-I' + HERE + '/harness', f'{HERE}/harness/rt.cpp', '-o', work + '/rt.bc'])
        if r.returncode: log(r.stdout[-3000:]); return 2
        mods = [Mod(src, cfg, tier, work) for src, cfgs in c['modules'] for cfg in cfgs]
        def comp(m):
            try: m.compile(); return None
            except Failed as e: return str(e)
        with ThreadPoolExecutor(JOBS) as ex: errs = list(ex.map(comp, mods))
        good = [m for m, e in zip(mods, errs) if not e]; bad = [(m, e) for m, e in zip(mods, errs) if e]
        ev['not_compiling'] = []
        for m, e in bad:
            # a header that compiles for the plain target but not for another supported instruction set is itself a failure of that configuration
            if m.cfg != 'base' and any(g.src == m.src and g.cfg == 'base' for g in good):
                exe = m.build_native('release')
                if not exe:
                    rd = f'{HERE}/replays'; os.makedirs(rd, exist_ok=True); p = f'{rd}/{pid}-compile-{m.cfg}.txt'
                    open(p, 'w').write(f'g++ {" ".join(VARIANTS["release"][1:] + m.flags)} harness/{m.src}.cpp does not compile\n{e}'); ev['not_compiling'].append(p); log(f'the {m.cfg} configuration does not compile: {e[:600]}'); continue
            log('BUILD-ERROR', e); return 2
        mods = good
        jobs = []
        for m in mods:
            es = [e for e in m.entries if e.startswith(f'h_{pid}_') and (only is None or only in e)]
            if quick: es = [e for e in es if not e.endswith('_T')]
            jobs += [(m, e, opt, deadline) for e in es]
        first = c.get('first', [])
        jobs.sort(key=lambda j: (0 if any(f in j[1] for f in first) else 1))
        if not jobs: log(f'no entries for {pid}'); return 2
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run_entry, j) for j in jobs]
            nat = {m.tag: ex.submit(m.build_native, 'release') for m in mods if any(j[0] is m for j in jobs)}
            res = [f.result() for f in futs]
            for f in nat.values(): f.result()
        return judge(pid, tier, c, res, opt, deadline, ev, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def judge(pid, tier, c, res, opt, deadline, ev, t0, work):
    nc = ev.pop('not_compiling')
    confirmed, notes, undecided, errors, vac = [], [], [], [], []
    def handle(d):
        mod = d['mod']; got = False
        for v in d.get('violations', []):
            if len(confirmed) >= 6: break
            if not cpu_has(mod.cfg): what = 'not replayed: this CPU lacks the instructions of configuration ' + mod.cfg
            else: what = reproduce(mod, d['entry'], v)
            if what: confirmed.append((d, v, what)); got = True
            else: notes.append(f"{d['entry']} [{mod.cfg}]: {v['kind']} {v['msg']} at {v['loc']} inputs {v['inputs'][:40]} does not reproduce natively ({v.get('tried')})")
        return got
    for d in res:
        if d.get('violations') and not handle(d) and time.time() < deadline:
            # the counterexample may rest on an arbitrary result of an oversized shift: decide again with the machine's masking
            mod = d['mod']; out = os.path.join(work, f"{mod.tag}.{d['entry']}.m.json")
            sh([SYMEX, mod.bc, d['entry'], '--out', out, '--time', str(int(min(opt['time'], max(10, deadline - time.time())))), '--ub-mask', '--max-steps', str(opt['steps']), *opt['flags']])
            try:
                d2 = json.load(open(out))
                for x in d2['violations']: x['inputs'] = [str(i) for i in x['inputs']]
                d2['entry'] = d['entry']; d2['mod'] = mod
                d['masked'] = d2['status']
                if d2.get('violations'): handle(d2)
                if d2['status'] in ('incomplete', 'error'): undecided.append(f"{d['entry']} [{mod.cfg}]: {d2['why']}")
            except Exception: undecided.append(f"{d['entry']} [{mod.cfg}]: second pass gave no result")
    # replay witnesses on the real build
    validated = mismatch = skipped = 0; samples = []
    def wit(d):
        mod = d['mod']; o = []
        if not cpu_has(mod.cfg): return [('skip', None, None)] * len(d.get('witnesses', []))
        exe = mod.native.get('release')
        for w in d.get('witnesses', []):
            if not exe: o.append(('skip', w, None)); continue
            rc, out, err = run_native(exe, d['entry'], w['inputs'], 20)
            obs = re.findall(r'^obs (\d+)$', out, re.M); o.append(((rc, obs == w['obs']), w, out[-300:]))
        return o
    with ThreadPoolExecutor(JOBS) as ex: wr = list(ex.map(wit, res))
    for d, ws in zip(res, wr):
        for st, w, out in ws:
            if st == 'skip': skipped += 1; continue
            rc, same = st
            if rc == 0 and same: validated += 1; (samples.append({'entry': d['entry'], 'config': d['mod'].cfg, 'inputs': w['inputs'][:64], 'observed': w['obs'][:32]}) if len(samples) < 12 and w['inputs'] and not any(s['entry'] == d['entry'] for s in samples) else None)
            elif rc in (1, 'timeout') or (isinstance(rc, int) and rc < 0 and rc != -signal.SIGILL):
                confirmed.append((d, {'kind': 'witness', 'msg': 'a solver-generated execution fails natively', 'loc': '', 'inputs': w['inputs']}, f'release build: {rc} {out}'))
            else: mismatch += 1; notes.append(f"{d['entry']} [{d['mod'].cfg}]: native run of a witness ended {rc}, observations equal: {same}, inputs {w['inputs'][:40]}")
    for d in res:
        tag = f"{d['entry']} [{d['mod'].cfg}]"
        if d['status'] == 'error': errors.append(f"{tag}: {d['why']}")
        if d['status'] == 'incomplete': undecided.append(f"{tag}: {d['why']}")
        if d['status'] == 'ok':
            miss = [k[1:] for k in d['reach'] if k[0] == '?' and k[1:] not in d['reach']]
            if miss: vac.append(f'{tag}: never reached {miss}')
    S = lambda k: sum(d.get(k, 0) for d in res)
    fns = sorted({f for d in res for f in d.get('functions', [])})
    bounds = [{'entry': d['entry'], 'config': d['mod'].cfg, 'bound': next((k[1:] for k in d['reach'] if k[0] == '#'), ''), 'verdict': d['status'] + ('' if d['status'] != 'violated' or not d.get('masked') else ' / machine shifts: ' + d['masked']), 'paths': d.get('paths', 0), 'merges': d.get('merges', 0), 'queries': d.get('queries', 0), 'assert_queries': d.get('assert_queries', 0), 'solver_s': round(d.get('solver_s', 0), 2), 'wall_s': round(d.get('total_s', 0), 1)} for d in res]
    summ = {}
    for d in res:
        for k, s in d.get('summaries', {}).items(): summ[f"{k} [{d['mod'].cfg}]"] = s
    ev['coverage'] = {'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated, 'samples': samples,
        'meaning': 'states = symbolic paths completed (a merged path stands for many), transitions = IR instructions interpreted symbolically, traces = solver models replayed on the natively built code with identical observations',
        'entries': len(res), 'entries_decided': sum(d['status'] in ('ok', 'violated') for d in res), 'bounds': bounds, 'functions_encoded': fns, 'source_lines_encoded': max([d.get('source_lines', 0) for d in res] or [0]),
        'forks': S('forks'), 'merges': S('merges'), 'asserts': S('asserts'), 'asserts_true_by_simplification': S('asserts_simplified_true'), 'assert_queries': S('assert_queries'), 'memory_accesses_checked': S('memory_checks'),
        'solver_queries': S('queries'), 'queries_unsat': S('queries_unsat'), 'queries_sat': S('queries_sat'), 'queries_unknown': S('queries_unknown'), 'queries_from_cache': S('queries_cached'), 'kissat_queries': S('kissat_queries'), 'z3_queries': S('z3_queries'), 'z3_crosschecked': S('z3_crosschecked'), 'solver_s': round(S('solver_s'), 2),
        'helper_summaries': summ, 'stubs': sorted({x for d in res for x in d.get('stubs', [])}), 'witness_mismatches': mismatch, 'witnesses_not_replayed': skipped,
        'undecided': undecided + errors, 'vacuous': vac, 'unreproduced': notes, 'violations': [{'entry': d['entry'], 'config': d['mod'].cfg, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'inputs': v['inputs'], 'native': what} for d, v, what in confirmed],
        'assumptions': ['allocation never fails', 'clang 18 front end without optimisation passes plus sroa/early-cse/inline/simplifycfg stands for the source semantics; witnesses are replayed on the g++ -O3 build', 'reads of uninitialised memory and results of oversized shifts are arbitrary values']}
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(HERE + '/evidence', exist_ok=True); json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    log(f"{pid} {tier}: {len(res)} entries, {S('paths')} paths, {S('instructions')} instructions, {S('queries')} queries, solver {S('solver_s'):.1f} s, {validated} traces replayed, {ev['wall_s']:.0f} s")
    for n in notes: log('NOTE', n)
    for n in undecided: log('UNDECIDED', n)
    for n in vac: log('VACUOUS', n)
    for n in errors: log('ENGINE-ERROR', n)
    if confirmed:
        rd = f'{HERE}/replays'; os.makedirs(rd, exist_ok=True); seen = set()
        for d, v, what in confirmed:
            key = (d['entry'], v['msg'])
            if key in seen: continue
            seen.add(key)
            h = hashlib.sha1(json.dumps([d['entry'], d['mod'].cfg, v['inputs']]).encode()).hexdigest()[:10]; p = f'{rd}/{pid}-{h}.json'
            json.dump({'property': pid, 'module': d['mod'].src, 'config': d['mod'].cfg, 'tier': tier, 'entry': d['entry'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'inputs': v['inputs'], 'native': what, 'how': 'python3 /verif/check.py --replay ' + p}, open(p, 'w'), indent=1)
            log(f"  {d['entry']} [{d['mod'].cfg}]: {v['kind']}: {v['msg']} at {v['loc'][:300]}; inputs {' '.join(v['inputs'][:48])}; {what}")
            log(f'VIOLATION property={pid} replay={p}')
    for p in nc: log(f'VIOLATION property={pid} replay={p}')
    if confirmed or nc: return 1
    # what could not be explored is printed and recorded; without a single decided entry there is no answer
    decided = [d for d in res if d['status'] in ('ok', 'violated') and not any(v.startswith(f"{d['entry']} [{d['mod'].cfg}]") for v in vac)]
    return 0 if decided else 2

if __name__ == '__main__': sys.exit(main())

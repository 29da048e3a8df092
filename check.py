#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

Decides one property of /repo's current working tree by static analysis (see DESIGN.md):
  * analyser harnesses: harness/*.cpp are most-general clients of the public interface; they are
    compiled together with /repo's sources to LLVM IR and interpreted abstractly (never executed)
    by engine/ until a fixpoint is reached;
  * witnesses: witness/*.cpp are translation units whose static_asserts / overload resolution the
    compiler decides (type-level encodings), and compile-fail units that must not compile.
exit 0: property held; exit 1 + VIOLATION line: it did not; exit 2: the analysis itself is broken.
"""
import shutil, sys, os, json, subprocess, time, re, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('V_REPO', '/repo')
sys.path.insert(0, HERE)
import props

CLANG = 'clang++-18'; OPT = 'opt-18'
JOBS = int(os.environ.get('V_JOBS', '0')) or os.cpu_count() or 4
BUILD = os.environ.get('V_BUILD') or os.path.join(HERE, 'build')
T0 = time.time()
# every analysis of one check must end before the limit of the slowest setting
DRIVER_TIMEOUT = {'quick': 300, 'thorough': 780}
MAX_STATES = {'quick': 1500000, 'thorough': 4000000}
CFGS = {'debug': [], 'ndebug': ['-DNDEBUG'], 'noexc': ['-DV_NOEXC'], 'memcheck': ['-DECL_MEM_CHECK_ARRAYS']}

def broken(msg):
    print('ANALYSIS-BROKEN: ' + msg, flush=True); sys.exit(2)

def incs():
    r = ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(HERE, 'stubs')]
    for d in sorted(os.listdir(REPO)):
        if d.startswith('ecl_') and os.path.isdir(os.path.join(REPO, d, 'include')): r.append('-I' + os.path.join(REPO, d, 'include'))
    return r + ['-I/usr/include/eigen3', '-I' + REPO]

def sh(cmd, timeout=None):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired: 
        class R: returncode = 124; stdout = 'timeout'
        return R

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(os.listdir(HERE + '/engine')): h.update(open(HERE + '/engine/' + f, 'rb').read())
    tag = os.path.join(BUILD, 'tool.' + h.hexdigest()[:16])
    exe = os.path.join(tag, 'v')
    if not os.path.exists(exe):
        part = tag + '.part%d' % os.getpid()
        r = sh(['make', '-s', '-j%d' % JOBS, '-C', HERE + '/engine', 'OUT=' + part])
        if r.returncode == 0 and os.path.exists(part + '/v'):
            try: os.rename(part, tag)
            except OSError: shutil.rmtree(part, ignore_errors=True)
        if r.returncode or not os.path.exists(exe): broken('cannot build the analyser:\n' + r.stdout[-3000:])
    return exe

class Harness:
    def __init__(self, name, tmp): self.name = name; self.tmp = tmp; self.bc = {}; self.drivers = {}; self.markers = {}
    def src(self):
        p = os.path.join(HERE, 'harness', self.name + '.cpp')
        return p if os.path.exists(p) else os.path.join(HERE, 'selftest', self.name + '.cpp')
    def compile(self, cfg):
        b = os.path.join(self.tmp, self.name + '.' + cfg)
        r = sh([CLANG, '-std=c++14', '-w', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-DV_REPO=' + REPO] + incs() + CFGS[cfg] + ['-emit-llvm', '-c', '-o', b + '.bc', self.src()])
        if r.returncode: return 'harness %s [%s] does not compile against the current tree:\n%s' % (self.name, cfg, '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:1500])
        r = sh([OPT, '-passes=mem2reg', b + '.bc', '-o', b + '.opt.bc'])
        if r.returncode: return 'opt failed on ' + self.name
        self.bc[cfg] = b + '.opt.bc'
        r = sh([self.exe, '-list', self.bc[cfg]])
        d = json.loads(r.stdout) if r.returncode == 0 else None
        if not d: return 'cannot list drivers of ' + self.name + r.stdout[-500:]
        self.drivers[cfg] = d['drivers']; self.markers[cfg] = d['markers']
        return None

BUDGET = {'quick': 800, 'thorough': 850}   # seconds for all drivers of one check together
found = [False]
def run_driver(exe, bc, drv, cfg, tier, out):
    t = min(DRIVER_TIMEOUT[tier], BUDGET[tier] - (time.time() - T0))
    if found[0]: t = min(t, 90)            # a violation is already established: finish soon
    t = max(t, 20)
    r = sh([exe, '-max', str(MAX_STATES[tier]), '-t', str(int(t * 0.8)), '-cfg', cfg, '-only', drv, '-o', out, bc], timeout=t)
    try: return json.load(open(out))[0], None
    except Exception: return None, 'driver %s [%s] gave no answer (exit %s) %s' % (drv, cfg, r.returncode, r.stdout[-500:])

def norm(m): return re.sub(r':\d+', '', m or '').replace(REPO + '/', '')
def load_known(prop):
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if not l.startswith('finding: '): continue
            f = dict(x.split('=', 1) for x in l[len('finding: '):].split(' | ') if '=' in x)
            if f.get('property') == prop: known.append(f)
    return known

def main():
    if sys.argv[1] == '--setup': build_tool(); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    spec = props.PROPS.get(prop)
    if not spec: broken('unknown property ' + prop)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='vchk_')
    try: return decide(prop, spec, tier, seed, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, spec, tier, seed, tmp):
    violations, unfinished, errors = [], [], []
    results = []
    hs = {}
    if spec.get('runs'):
        exe = build_tool(); Harness.exe = exe
        kinds_all = set()
        for r in spec['runs']: kinds_all |= set(r['kinds'])
        names = [r['harness'] for r in spec['runs']] + ['selftest']
        for n in dict.fromkeys(names): hs[n] = Harness(n, tmp)
        cfgs = {n: (['debug'] if n == 'selftest' else next((r.get('cfgs') for r in spec['runs'] if r['harness'] == n and r.get('cfgs')), ['debug', 'ndebug'])) for n in hs}
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(lambda a: hs[a[0]].compile(a[1]), [(n, c) for n in hs for c in cfgs[n]]) if e]
        if errs: broken('\n'.join(errs))
        jobs = []
        for r in spec['runs']:
            h = hs[r['harness']]
            for c in cfgs[r['harness']]:
                for d in h.drivers[c]:
                    if r.get('drivers') and not any(re.fullmatch(p, d) for p in r['drivers']): continue
                    if d.endswith('_deep') and tier == 'quick': continue
                    jobs.append((r, h, c, d))
                if not any(j[0] is r and j[2] == c for j in jobs): broken('no driver of %s matches %s' % (r['harness'], r.get('drivers')))
        st = [d for d in hs['selftest'].drivers['debug'] if d.split('_')[1] in {k.replace('_', '') for k in kinds_all}]
        jobs += [(None, hs['selftest'], 'debug', d) for d in st]
        def go(j):
            r, h, c, d = j
            o = run_driver(exe, h.bc[c], d, c, tier, os.path.join(tmp, '%s.%s.%s.json' % (h.name, c, d)))
            if r is not None and o[0] and any(relevant(r, dict(a)) for a in o[0]['alarms']): found[0] = True
            return o
        def relevant(r, a):     # is this alarm one of the property's? (also strips the property prefix of an assertion)
            m = re.match(r'(OOB|USE_AFTER_RELEASE|DOUBLE_RELEASE|LEAK):\s*(.*)', a['msg'], re.S) if a['kind'] == 'ASSERT' else None
            if m: a['kind'], a['msg'] = m.group(1), m.group(2)   # a rule that a stand-in checks itself
            m = re.match(r'([A-Z]\d\d+(?:\+[A-Z]\d\d+)*):\s*(.*)', a['msg'], re.S)
            if m:
                if prop not in m.group(1).split('+'): return None
                a['msg'] = m.group(2)
            elif a['kind'] not in r['kinds']: return None
            if r.get('msg') and not re.search(r['msg'], a['msg']): return None
            if r.get('notmsg') and re.search(r['notmsg'], a['msg']): return None
            return a
        with ThreadPoolExecutor(JOBS) as ex: outs = list(ex.map(go, jobs))
        stests = []
        alarms = {}
        for (r, h, c, d), (res, err) in zip(jobs, outs):
            if err: unfinished.append(err); continue
            if r is None:   # positive self tests: st_KIND_bad must alarm with KIND, st_KIND_ok must be quiet
                k = d.split('_')[1]; good = d.split('_')[2].startswith('ok')
                got = {a['kind'].replace('_', '') for a in res['alarms']}
                if (k in got) == good: errors.append('self-test %s: analyser reports %s' % (d, sorted(got)))
                stests.append(d); continue
            results.append((h, c, d, res))
            if not res['complete']: unfinished.append('driver %s [%s]: limit reached after %d abstract states, no fixpoint' % (d, c, res['states']))
            for a in res['alarms']:
                if not relevant(r, a): continue
                key = (a['kind'], a['func'], norm(a['msg']))
                alarms.setdefault(key, dict(a, harness=h.name, driver=d, cfgs=set()))['cfgs'].add(c)
        for a in alarms.values():
            a['cfgs'] = sorted(a['cfgs']); violations.append(a)
        # markers: '!x' = an outcome that must be possible (unreachable on every path => violation);
        # 'x' = an outcome the drivers look for; unreachable in every configuration => the code can no longer do what the specification makes possible
        for h in {r['harness']: hs[r['harness']] for r in spec['runs']}.values():
            got_all, want_all = set(), set()
            for c in cfgs[h.name]:
                ran = {d for hh, cc, d, _ in results if hh is h and cc == c}
                got = set().union(*[set(res['reached']) for hh, cc, d, res in results if hh is h and cc == c] or [set()])
                want = set().union(*[set(h.markers[c].get(d, [])) for d in ran] or [set()])
                got_all |= got; want_all |= want
                for m in sorted(want - got):
                    mm = re.match(r'!([A-Z]\d\d+):\s*(.*)', m)
                    if not mm or mm.group(1) != prop or any(not res['complete'] for hh, cc, d, res in results if hh is h and cc == c): continue
                    if any(v['kind'] == 'UNREACHABLE' and v['msg'] == mm.group(2) for v in violations): continue
                    violations.append(dict(kind='UNREACHABLE', msg=mm.group(2), func='(driver)', file='', line=0, stack='', trace='no path of the program reaches this outcome', harness=h.name, driver=','.join(sorted(ran))[:200], cfgs=[c]))
            for m in sorted(want_all - got_all):
                if m.startswith('!') or unfinished or spec.get('anchors') is False: continue
                violations.append(dict(kind='UNREACHABLE', msg='the outcome "%s" of the drivers is no longer possible' % m, func='(driver)', file='', line=0, stack='', trace='no path of the program reaches this outcome in any configuration', harness=h.name, driver=','.join(sorted({d for hh, cc, d, _ in results if hh is h}))[:200], cfgs=cfgs[h.name]))
    wit = None
    if spec.get('witness'):
        import witness
        wit = witness.run(spec['witness'], prop, tier, tmp, incs(), CLANG, REPO, HERE)
        errors += wit['errors']; violations += wit['violations']
    # known findings
    known = load_known(prop); used = set(); new = []
    for v in violations:
        k = next((i for i, f in enumerate(known) if f.get('kind') == v['kind'] and f.get('func') == v['func'] and f.get('msg') == norm(v['msg'])), None)
        if k is None: new.append(v)
        else: used.add(k)
    for i in sorted(used): print('KNOWN-FINDING: property=%s %s in %s: %s' % (prop, known[i]['kind'], known[i]['func'], known[i]['msg']))
    write_evidence(prop, spec, tier, seed, results, wit, new, known, used, errors, unfinished)
    if new:
        rep = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
        for i, v in enumerate(new):
            p = os.path.join(rep, '%s.%d.txt' % (prop, i))
            with open(p, 'w') as f:
                f.write('property %s: %s\nrule: %s\nwhat: %s\nwhere: %s:%s in %s\nharness: %s driver: %s configurations: %s\n\ncall path:\n%s\n\nevents on the path (abstract):\n%s\n' % (prop, spec.get('title', ''), v['kind'], v['msg'], v['file'], v['line'], v['func'], v['harness'], v['driver'], ','.join(v['cfgs']), v['stack'], v['trace']))
            if i < 12: print('VIOLATION property=%s replay=%s\n    %s: %s\n    at %s:%s in %s (driver %s)' % (prop, p, v['kind'], v['msg'], v['file'], v['line'], v['func'], v['driver']))
        for e in errors + unfinished: print('note: ' + e)
        return 1
    if errors: broken('\n'.join(errors))
    # a driver that ran out of time or states has been explored in part only: the answer covers what was explored, and says so
    for u in unfinished: print('INCOMPLETE: ' + u)
    if unfinished and not any(r[3]['complete'] for r in results): broken('no driver could be decided')
    print('%s [%s]: held on everything analysed (%d driver runs, %d abstract states, %.0fs)' % (prop, tier, len(results), sum(r[3]['states'] for r in results), time.time() - T0))
    return 0

def write_evidence(prop, spec, tier, seed, results, wit, new, known, used, errors, unfinished):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    fns, obl, calls, unm, drv = set(), {}, {}, set(), []
    for h, c, d, r in results:
        fns |= set(r['functions']); unm |= set(r['unmodelled'])
        drv.append({'harness': h.name, 'driver': d, 'configuration': c, 'abstract_states': r['states'], 'exits': r['exits'], 'fixpoint': r['complete']})
        for k, o in r['obligations'].items():
            t = obl.setdefault(k, {'program_points': 0, 'failed': 0}); t['program_points'] = max(t['program_points'], 0) + o['sites']; t['failed'] += o['failed']
        for k, n in r['model_calls'].items(): calls[k] = max(calls.get(k, 0), n)
    kinds = sorted(set(k for r in spec.get('runs', []) for k in r['kinds']))
    viol = [{'rule': v['kind'], 'what': v['msg'], 'file': v['file'], 'line': v['line'], 'function': v['func'], 'driver': v['driver']} for v in new]
    cov = {'violations_found': viol, 'explanation': spec['explanation'], 'rules': {k: props.RULES.get(k, '') for k in kinds}, 'driver_runs': drv, 'abstract_states_total': sum(x['abstract_states'] for x in drv),
           'functions_of_repo_analysed': sorted(fns), 'functions_count': len(fns), 'obligations_by_rule': obl, 'modelled_external_calls': calls, 'external_functions_treated_as_arbitrary': sorted(unm)[:80],
           'known_findings_seen': [known[i] for i in sorted(used)], 'analysis_errors': errors, 'not_explored_to_a_fixpoint': unfinished}
    if wit: cov['witnesses'] = {k: v for k, v in wit.items() if k not in ('violations', 'errors')}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'), 'coverage': cov, 'wall_s': round(time.time() - T0, 1),
          'violations': len(new),
          'assumptions': props.ASSUME + spec.get('assumptions', [])}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__': sys.exit(main())

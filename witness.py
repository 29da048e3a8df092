"""Compile-time witnesses: programs that must, or must not, be accepted by the compiler against the current tree.

A witness file (witness/*.cpp) is a list of sections:
  //# prelude                what every following section starts with
  //# facts                  every static_assert in it is an obligation of its own; its message starts with the property's id
  //# accept Xnn: message    the program must compile
  //# reject Xnn: message    the program must not compile with BAD defined to 1, and must compile with BAD defined to 0
  //# sweep Xnn: message | NAME: OPS   the program must compile with nothing dropped, and must not compile with any one OPS macro
                             (DROP_<op>) defined: one obligation per operation
Nothing is linked or run: the compiler's type checker decides."""
import os, re, json
from concurrent.futures import ThreadPoolExecutor
import subprocess

def sections(path):
    pre, out, cur = '', [], None
    for n, l in enumerate(open(path).read().split('\n'), 1):
        m = re.match(r'//# (\w+)\s*(.*)', l)
        if m: cur = dict(kind=m.group(1), title=m.group(2).strip(), line=n, text=''); out.append(cur)
        elif cur is not None: cur['text'] += l + '\n'
    res = []
    for s in out:
        if s['kind'] == 'prelude': pre = s['text']
        else: s['pre'] = pre; res.append(s)
    return res

def prop_of(t):
    m = re.match(r'([A-Z]\d\d):\s*(.*)', t); return (m.group(1), m.group(2)) if m else (None, t)

def run(files, prop, tier, tmp, incs, CLANG, REPO, HERE):
    compilers = [[CLANG, '-std=c++14']] + ([[CLANG, '-std=c++17']] + [['g++', '-std=c++14']] if tier == 'thorough' else [['g++', '-std=c++14']])
    flags = ['-w', '-fsyntax-only', '-ferror-limit=0']
    violations, errors, done, jobs = [], [], [], []
    for f in files:
        for i, s in enumerate(sections(os.path.join(HERE, 'witness', f + '.cpp'))):
            if s['kind'] == 'facts': jobs.append((f, i, s, None, []))
            elif prop_of(s['title'].split('|')[0].strip())[0] != prop: continue
            elif s['kind'] == 'accept': jobs.append((f, i, s, True, []))
            elif s['kind'] == 'reject': jobs += [(f, i, s, True, ['-DBAD=0']), (f, i, s, False, ['-DBAD=1'])]
            elif s['kind'] == 'sweep':
                ops = s['title'].split('|')[1].split(':')[1].split()
                jobs.append((f, i, s, True, []))
                jobs += [(f, i, s, False, ['-DDROP_' + o]) for o in ops]
    def go(j):
        f, i, s, want, defs = j
        p = os.path.join(tmp, 'w_%s_%d.cpp' % (f, i))
        outs = []
        for c in compilers:
            fl = [x for x in flags if not (c[0] == 'g++' and x.startswith('-ferror'))] + (['-fmax-errors=0'] if c[0] == 'g++' else [])
            r = subprocess.run(c + fl + incs + ['-I' + os.path.join(HERE, 'witness'), '-I' + REPO] + defs + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            outs.append((c, r.returncode, r.stdout))
        return outs
    for f, i, s, want, defs in jobs:
        p = os.path.join(tmp, 'w_%s_%d.cpp' % (f, i))
        if not os.path.exists(p): open(p, 'w').write(s['pre'] + '#line %d "%s.cpp"\n' % (s['line'] + 1, f) + s['text'])
    # the preludes must compile by themselves, otherwise "does not compile" proves nothing
    for f in files:
        for k, pre in enumerate(dict.fromkeys(s['pre'] for s in sections(os.path.join(HERE, 'witness', f + '.cpp')))):
            jobs.append((f, 900 + k, dict(kind='prelude', title='prelude', line=0), True, []))
            open(os.path.join(tmp, 'w_%s_%d.cpp' % (f, 900 + k)), 'w').write(pre)
    with ThreadPoolExecutor(8) as ex: results = list(ex.map(go, jobs))
    nfacts = 0
    for (f, i, s, want, defs), outs in zip(jobs, results):
        for c, rc, txt in outs:
            cfg = '%s %s' % (os.path.basename(c[0]), c[1])
            err = [l for l in txt.split('\n') if re.search(r'\berror:', l)]
            first = err[0][:300] if err else ''
            def viol(msg, line, why): violations.append(dict(kind='WITNESS', msg=msg, func='(compile-time witness)', file=f + '.cpp', line=line, stack=why, trace='compiler: %s %s' % (cfg, ' '.join(defs)), harness=f, driver=s['title'] or s['kind'], cfgs=[cfg]))
            if s['kind'] == 'prelude':
                if rc: errors.append('the headers that witness %s uses do not compile (%s): %s' % (f, cfg, first))
                continue
            if s['kind'] == 'facts':
                if 'n' not in s:
                    e = subprocess.run([CLANG, '-std=c++14', '-E', '-P', '-w'] + incs + ['-I' + REPO, os.path.join(tmp, 'w_%s_%d.cpp' % (f, i))], stdout=subprocess.PIPE, text=True).stdout
                    s['n'] = len(re.findall(r'"%s:' % prop, e)); nfacts += s['n']
                other = []
                for l in err:
                    m = re.search(r'(?:static assertion failed|static_assert failed)[^"]*?:?\s*(?:due to requirement.*?)?"?(%s: [^"]*)"?$' % prop, l)
                    ln = re.match(r'[^:]*:(\d+):', l)
                    if m: viol(prop_of(m.group(1).strip())[1], int(ln.group(1)) if ln else 0, l)
                    elif not re.search(r'static(_assert| assertion) failed', l): other.append(l)
                if other and not any(v['harness'] == f for v in violations): errors.append('the facts of witness %s do not compile (%s): %s' % (f, cfg, other[0][:300]))
                continue
            msg = prop_of(s['title'].split('|')[0].strip())[1]
            if want and rc: viol(msg + ' (a conforming program is rejected)', s['line'], first)
            if not want and not rc: viol(msg + ' (a wrong program is accepted: %s)' % ' '.join(d[2:] for d in defs), s['line'], 'no error reported')
            done.append(dict(witness=f, section=s['title'], kind=s['kind'], expected='accepted' if want else 'rejected', definitions=defs, compiler=cfg, outcome='accepted' if rc == 0 else 'rejected', reason=first if rc else ''))
    seen, uniq = {}, []
    for v in violations:
        k = (v['msg'], v['file'])
        if k in seen: seen[k]['cfgs'] += v['cfgs']
        else: seen[k] = v; uniq.append(v)
    return dict(errors=errors, violations=uniq, programs=done, programs_compiled=len(done), facts_checked=nfacts)

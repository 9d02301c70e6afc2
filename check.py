#!/usr/bin/env python3
"""Decides one property of /repo's current source by static analysis.

usage: check.py <property> [--tier quick|thorough] [--repo DIR]

Compiles the harnesses of the property (declarations of user code plus one
function per public operation) against /repo's headers to LLVM IR, lets the
abstract interpreter in /verif/tool analyse every entry in every configuration,
and compiles the type-level witnesses.  Nothing of /repo is executed.

exit 0: the property holds on everything analysed; exit 1: violated (a line
VIOLATION property=<id> replay=<path>); exit 2: no answer.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, GENERIC, ASSUME

CLANG, OPT = 'clang++-18', 'opt-18'
CONFIGS = {
  'variadic': [],
  'preprocessed': ['-DBOOST_NO_CXX11_VARIADIC_TEMPLATES'],
  'variadic-ndebug': ['-DNDEBUG'],
  'preprocessed-ndebug': ['-DNDEBUG', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES'],
}
def tool(path):
    """builds the analyser if setup_cmd has not"""
    exe = os.path.join(HERE, 'build', 's2an')
    srcs = [os.path.join(HERE, 'tool', f) for f in os.listdir(os.path.join(HERE, 'tool'))]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
        out = os.path.join(path, 'tool')
        r = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(HERE, 'tool'), 'OUT=' + out], capture_output=True, text=True)
        if r.returncode: die('the analyser does not build:\n' + r.stderr[-2000:])
        return os.path.join(out, 's2an')
    return exe
def die(msg):
    print('ERROR: ' + msg); sys.exit(2)

def main():
    t0 = time.time()
    args = sys.argv[1:]; pid = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); repo = os.environ.get('REPO', '/repo')
    for i, a in enumerate(args):
        if a == '--tier': tier = args[i + 1]
        if a == '--repo': repo = args[i + 1]
    P = PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1'))
    work = tempfile.mkdtemp(prefix='s2check-')
    try: rc = decide(pid, P, tier, seed, repo, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def inc(repo): return ['-I' + repo + '/include', '-I' + HERE + '/shim', '-I' + HERE + '/harness']
def decide(pid, P, tier, seed, repo, work, t0):
    pool = ThreadPoolExecutor(8); exe = tool(work) if P.get('ir') else None
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['known'] if k['property'] == pid]
    errors, viols, runs, wit = [], [], [], []
    # 1. intermediate representation
    jobs = {}
    for r in P.get('ir', []):
        if r.get('tier', tier) != tier: continue
        cfgs = r.get('configs') or ['variadic', 'preprocessed']
        if tier == 'thorough' and not r.get('configs'): cfgs = list(CONFIGS)
        for c in cfgs:
            jobs.setdefault((r['h'], c, tuple(r.get('defs', []))), []).append(r)
    def compile(k):
        h, c, defs = k; base = os.path.join(work, re.sub(r'\W', '_', '-'.join((h, c) + defs)))
        cmd = [CLANG, '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-fno-discard-value-names', '-w', '-S', '-emit-llvm'] + CONFIGS[c] + list(defs) + inc(repo) + [os.path.join(HERE, 'harness', h + '.cpp'), '-o', base + '.ll']
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: return k, None, p.stderr
        p = subprocess.run([OPT, '-passes=mem2reg', '-S', base + '.ll', '-o', base + '.opt.ll'], capture_output=True, text=True)
        os.remove(base + '.ll')
        return k, (base + '.opt.ll' if not p.returncode else None), p.stderr
    irs = {}
    for k, f, err in pool.map(compile, jobs):
        if f is None:
            m = re.findall(r'^(.*error:.*)$', err, re.M)
            errors.append('harness %s (%s) does not compile: %s' % (k[0], k[1], m[0] if m else err[-300:]))
        else: irs[k] = f
    todo = []
    for k, rs in jobs.items():
        if k not in irs: continue
        for r in rs:
            for e in r['entries']:
                modes = [[]]
                if r.get('alloc') == 'both': modes = [[], ['-alloc']]
                if r.get('alloc') == 'always' or (r.get('alloc') is True and tier == 'thorough'): modes = [['-alloc']] if r.get('alloc') == 'always' else [[], ['-alloc']]
                for m in modes: todo.append((k, r, e, m))
    def analyse(t):
        k, r, e, m = t; out = tempfile.mktemp(dir=work, suffix='.json')
        lim = max(60, (800 if tier == 'quick' else 3000) - int(time.time() - t0)) # a check has 900 s
        p = subprocess.run([exe, '-t', str(lim), '-o', out, '-e', e] + m + r.get('opts', []) + [irs[k]], capture_output=True, text=True)
        try: js = [json.loads(l) for l in open(out)]
        except Exception as x: js = []
        return t, p.returncode, js, p.stderr[-300:]
    obl = {}; met = {}; fns = set(); sites = {}
    for (k, r, e, m), rc, js, err in pool.map(analyse, todo):
        label = '%s/%s%s' % (e, k[1], ' with allocation failures' if m else '')
        if rc or len(js) != 1: errors.append('%s: the analyser gave no answer (exit %d) %s' % (label, rc, err)); continue
        j = js[0]
        if j['exits'] == 0 and not j['findings']: errors.append('%s: no exit of the operation is reached' % label)
        for l in j['lost']: errors.append('%s: not analysed: %s' % (label, l))
        rules = set(P['rules']) | set(r.get('rules', [])) | set(GENERIC)
        for f in j['findings']:
            if f['rule'] in rules or f['rule'].startswith('check:' ): 
                if f['rule'].startswith('check:') and f['rule'][6:] not in P.get('checks', [pid]): continue
                viols.append(dict(f, entry=label))
        for o in j['obligations']:
            met[o['rule']] = met.get(o['rule'], 0) + o['count']
            if o['rule'] in rules or o['rule'].startswith('check:'):
                obl[o['rule']] = obl.get(o['rule'], 0) + o['count']; sites.setdefault(o['rule'], set()).update(o['sites'])
        for need in r.get('need', []):
            if not any(o['rule'] == need and o['count'] > 0 for o in j['obligations']) and not j['findings']: errors.append('%s: no instance of rule %s was met' % (label, need))
        fns.update(j['functions'])
        runs.append(dict(entry=label, abstract_states=j['states'], instructions=j['steps'], case_splits=j['forks'], states_merged=j['dedup'], widenings=j['widen'], exits=j['exits'], seconds=round(j['seconds'], 2)))
    # 2. type-level witnesses
    def witness(w):
        f, c, defs, expect, what = w
        p = subprocess.run([CLANG, '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=0'] + CONFIGS[c] + defs + inc(repo) + [os.path.join(HERE, 'witness', f)], capture_output=True, text=True)
        return w, p.returncode, p.stderr
    ws = []
    for w in P.get('witness', []):
        for c in (w.get('configs') or (['variadic', 'preprocessed'])):
            ws.append((w['file'], c, [], 'accept', w.get('what', '')))
            src = open(os.path.join(HERE, 'witness', w['file'])).read()
            for n in re.findall(r'#if(?:def)? +(?:defined\()?(REJECT_\w+)', src): ws.append((w['file'], c, ['-D' + n], 'reject', n))
    okbase = set()
    for (f, c, defs, expect, what), rc, err in pool.map(witness, ws):
        wit.append(dict(file=f, config=c, case=' '.join(defs) or 'all static assertions', expected=expect, compiled=rc == 0))
        if expect == 'accept':
            if rc == 0: okbase.add((f, c)); continue
            asserts = re.findall(r'^(\S+?:\d+):\d+: error: static assertion failed.*?: ?(.*)$', err, re.M)
            for loc, msg in asserts: viols.append(dict(rule='type', what=msg.strip('" '), where=os.path.relpath(loc, HERE), entry=c, path=[], count=1))
            others = [x for x in re.findall(r'^(.*error:.*)$', err, re.M) if 'static assertion failed' not in x]
            inwit = [x for x in others if '/witness/' in x.split('error:')[0]]
            for x in inwit: viols.append(dict(rule='type', what='a use that must compile does not: ' + x.split('error:')[1].strip(), where=x.split(': error')[0], entry=c, path=[], count=1))
            if not asserts and not inwit:
                # is it the use of the library, or the library itself, that does not compile?
                tmp = os.path.join(work, 'inc-' + re.sub(r'\W', '_', f + c) + '.cpp'); open(tmp, 'w').write('\n'.join(re.findall(r'^#include.*$', open(os.path.join(HERE, 'witness', f)).read(), re.M)) + '\n')
                if others and subprocess.run([CLANG, '-std=c++17', '-fsyntax-only', '-w'] + CONFIGS[c] + inc(repo) + [tmp], capture_output=True).returncode == 0:
                    for x in others[:3]: viols.append(dict(rule='type', what='a use that must compile does not: ' + x.split('error:')[1].strip(), where=x.split(': error')[0].split('/include/')[-1], entry=c, path=[], count=1))
                else: errors.append('witness %s (%s) does not compile: %s' % (f, c, others[:1]))
        elif rc == 0: viols.append(dict(rule='type', what='a use that must be rejected compiles: ' + what, where='witness/' + f, entry=c, path=[], count=1))
    # 3. verdict
    for rule, n in P.get('min', {}).items():
        if met.get(rule, 0) < n and not viols: errors.append('rule %s was met %d times, fewer than the %d expected: an anchor may have vanished' % (rule, met.get(rule, 0), n))
        obl.setdefault(rule, met.get(rule, 0)); sites.setdefault(rule, set())
    new = []; told = set()
    for v in viols:
        k = next((k for k in known if k['rule'] == v['rule'] and k['what'] in v['what'] and k['where'] in v['where'] and k.get('entry', '') in v['entry']), None)
        if k: told.add(k['describe'])
        else: new.append(v)
    for d in sorted(told): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    seen = set(); uniq = []
    for v in new:
        key = (v['rule'], v['what'], v['where'])
        if key not in seen: seen.add(key); uniq.append(v)
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence'); os.makedirs(evd, exist_ok=True)
    cov = dict(explanation=P['explain'], functions_analysed=len(fns), entries=runs, obligations={r: dict(instances=n, sites=sorted(sites[r])) for r, n in sorted(obl.items())})
    cov['states'] = sum(r['abstract_states'] for r in runs)
    if wit: cov['witnesses'] = wit
    cov['functions'] = sorted(fns)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=ASSUME + P.get('assume', []), wall_s=round(time.time() - t0, 2), violations=len(uniq))
    if errors: ev['coverage']['undecided'] = errors
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    if uniq:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\nreplay: cd /verif && ./check.py %s --tier %s\n' % (pid, P['title'], pid, tier))
            for v in uniq:
                f.write('\n[%s] %s\n  at %s\n  operation %s, %d abstract states\n  path:\n' % (v['rule'], v['what'], v['where'], v['entry'], v['count']))
                for x in v['path']: f.write('    ' + x + '\n')
        for v in uniq[:10]: print('[%s] %s at %s (%s)' % (v['rule'], v['what'], v['where'], v['entry']))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if errors:
        for e in errors[:20]: print('ERROR: ' + e)
        return 2
    print('%s: held. %d entries, %d abstract states, %d functions of the library, %d obligations, %d witnesses, %.1f s' % (pid, len(runs), cov['states'], len(fns), sum(obl.values()), len(wit), time.time() - t0)); return 0
if __name__ == '__main__': main()

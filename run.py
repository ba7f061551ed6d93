#!/usr/bin/env python3
"""Builds and runs the bounded exhaustive exploration of one property against /repo's working tree.

usage: run.py <PROPERTY> [--thorough] [--replay FILE] [--only SCENARIO] [--repo DIR]
exit 0: held on everything explored; exit 1: VIOLATION line; anything else: error of the check.
"""
import sys, os, re, json, subprocess, time, glob, fnmatch, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
args = sys.argv[1:]
prop = args[0]
if prop == '--selftest':       # setup: the tools every check needs are there
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        open(t + '/a.cpp', 'w').write('#include <vector>\nint main(){return std::vector<int>{1,2}.size()-2;}')
        sys.exit(subprocess.run(f'g++ -std=c++17 {t}/a.cpp -o {t}/a && {t}/a', shell=True).returncode)
thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough'
def opt(n, d=None):
    return args[args.index(n) + 1] if n in args else d
repo = opt('--repo', os.environ.get('VERIF_REPO', '/repo'))
only = opt('--only')
seed = int(os.environ.get('VERIF_SEED', '1'))
t0 = time.time()
tag = '' if repo == '/repo' else '-' + re.sub(r'\W+', '_', repo)      # development runs against a copy
bdir = os.path.join(V, 'build', prop + tag)
os.makedirs(bdir, exist_ok=True)
srcs = sorted(glob.glob(f'{V}/props/{prop}.cpp') + glob.glob(f'{V}/props/{prop}_*.cpp'))
if not srcs:
    print('no harness for', prop); sys.exit(2)
flags, fflags = [], {}
for s in srcs:
    txt = open(s).read()
    for m in re.finditer(r'^// mc-flags: (.*)$', txt, re.M):        # whole harness
        flags += m.group(1).split()
    fflags[s] = [x for m in re.finditer(r'^// mc-file-flags: (.*)$', txt, re.M) for x in m.group(1).split()]
base = ['-std=c++17', '-w', '-I' + repo, '-I' + repo + '/mml', f'-I{V}/mc', '-pthread', '-D_GLIBCXX_ASSERTIONS'] + (flags or [])
if not any(f.startswith('-O') for f in flags): base.append('-O1')
cc = ['g++']
env = dict(os.environ)
if shutil.which('ccache'):
    cc = ['ccache', 'g++']; env['CCACHE_DIR'] = os.path.join(V, 'build', 'ccache')
def comp(s):
    o = os.path.join(bdir, os.path.basename(s) + '.o')
    r = subprocess.run(cc + base + fflags.get(s, []) + ['-c', s, '-o', o], capture_output=True, text=True, env=env)
    return o, r
with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(comp, srcs + [f'{V}/mc/mc_main.cpp']))
for o, r in res:
    if r.returncode:
        print('BUILD FAILED', o); print(r.stderr[:6000]); sys.exit(2)
exe = os.path.join(bdir, 'harness')
link = [f for f in flags if f.startswith('-fsan') or f.startswith('-l') or f.startswith('-rdynamic')]
r = subprocess.run(['g++', '-pthread'] + [o for o, _ in res] + link + ['-o', exe], capture_output=True, text=True)
if r.returncode:
    print('LINK FAILED'); print(r.stderr[:6000]); sys.exit(2)
tb = time.time() - t0
# scratch files of file-I/O harnesses live here and nowhere else
import atexit
scratch = os.path.join(bdir, 'scratch'); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
atexit.register(shutil.rmtree, scratch, ignore_errors=True); os.environ['MC_SCRATCH'] = scratch
if '--replay' in args:
    f = json.load(open(opt('--replay')))
    if f.get('history_dependent'):
        cmd = [exe, '--out', os.path.join(bdir, 'replay.json'), '--workers', str(min(8, os.cpu_count() or 8))] + (['--thorough'] if f.get('thorough') else [])
        subprocess.run(cmd)
        vs = json.load(open(os.path.join(bdir, 'replay.json')))['violations']
        hit = [v for v in vs if v['scenario'] == f['scenario'] and v['choices'] == f['choices']]
        print('FAILED ' + hit[0]['msg'] if hit else 'held'); sys.exit(1 if hit else 0)
    cmd = [exe, '--replay', f['scenario'] + ':' + ','.join(map(str, f['choices']))] + (['--thorough'] if f.get('thorough') else [])
    sys.exit(subprocess.run(cmd).returncode)
out = os.path.join(bdir, 'result.json')
if os.path.exists(out): os.unlink(out)
cmd = [exe, '--out', out, '--workers', str(min(8, os.cpu_count() or 8))]
if thorough: cmd.append('--thorough')
if only: cmd += ['--only', only]
e2 = dict(os.environ); e2.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=1')
def explore():
    global p
    p = subprocess.run(cmd, env=e2, capture_output=True, text=True, errors='replace')
    if not os.path.exists(out):
        print('ENGINE FAILED rc', p.returncode); print(p.stderr[-3000:]); sys.exit(2)
    return json.load(open(out))
R = explore()
un = [v for v in R['violations'] if not v.get('confirmed', True)]
if un:
    # The failing execution passes when repeated on its own: it depends on what ran before it in the
    # process (state kept between calls).  The whole exploration is deterministic, so repeat all of it;
    # a failure that comes back at exactly the same place is reported, anything else is an engine error.
    R2 = explore()
    again = {(v['scenario'], v['key'], tuple(v['choices'])) for v in R2['violations']}
    for v in un:
        if (v['scenario'], v['key'], tuple(v['choices'])) in again:
            v['confirmed'] = True; v['history_dependent'] = True
            v['msg'] += ' [depends on earlier executions in the same process: repeated identically in a second full exploration]'
# known findings
known = []
kf = f'{V}/known_findings.txt'
if os.path.exists(kf):
    for line in open(kf):
        m = re.match(r'known: property=(\S+) case=(\S+) (.*)$', line.strip())
        if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
rdir = os.path.join(V, 'out', prop + tag); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
new, hit, unconf = [], {}, []
for v in R['violations']:
    case = (v['scenario'] + '|' + v['key']).replace(' ', '_')
    k = next((k for k in known if k[0] == case), None)
    if k: hit[k[0]] = k[1]; continue
    (new if v.get('confirmed', True) else unconf).append((case, v))
wall = time.time() - t0
if not only and not tag:
    scen = R['scenarios']
    cov = {'states': R['states'], 'transitions': R['operations'], 'traces_validated_against_impl': R['executions'],
       'oracle_comparisons': R['checks'], 'nontrivial_executions': R['nontrivial'], 'distinct_outcomes': R['outcomes'],
       'exhaustive': not R['incomplete'] and not R['error'], 'state_set_capped': R['states_capped'],
       'scenarios': scen, 'build_s': round(tb, 1), 'explore_s': round(R['wall'], 1),
       'known_findings_hit': sorted(hit), 'samples': R['samples'][:24] or ['(none)'],
       'rule': 'every choice sequence of every scenario is executed on the real implementation (depth-first, no sampling); '
               'states = distinct canonical states/inputs reached, transitions = implementation operations compared with the oracle'}
    if not cov['nontrivial_executions']: del cov['nontrivial_executions']
    os.makedirs(f'{V}/evidence', exist_ok=True)
    level = 'model_checking'
    try:
        for c in json.load(open(f'{V}/MANIFEST.json'))['checks']:
            if c['property'] == prop: level = c['level']
    except Exception: pass
    if level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = R['executions']; cov['distinct_nontrivial'] = R['states']
    json.dump({'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': level,
               'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(new) + len(unconf),
               'assumptions': ['bounds and alphabets are those of the scenarios listed in coverage (see DESIGN.md)']},
              open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
for k, d in sorted(hit.items()):
    print(f'KNOWN-FINDING: property={prop} {k} {d}')
print(f"{prop}: executions={R['executions']} operations={R['operations']} checks={R['checks']} states={R['states']} outcomes={R['outcomes']} build={tb:.1f}s explore={R['wall']:.1f}s")
if '-v' in args:
    for n, s in R['scenarios'].items(): print('   ', n, s)
for i, (case, v) in enumerate(new[:8]):
    f = os.path.join(rdir, f'replay-{i}.json'); v['property'] = prop; v['thorough'] = thorough
    json.dump(v, open(f, 'w'), indent=1)
    print(f"  case={case}\n     {v['msg'][:400]}\n     trace: {v['trace'][:600]}")
    print(f"VIOLATION property={prop} replay={f}")
if '-v' in args and len(new) > 8:
    by = {}
    for case, v in new: by.setdefault(case, []).append(v['msg'][:260])
    for case, m in sorted(by.items()): print(f"  [{len(m)}] {case}\n     " + "\n     ".join(m[:2]))
if len(new) > 8: print(f"... and {len(new)-8} more violations")
if new: sys.exit(1)
if unconf:
    for case, v in unconf[:5]: print('UNCONFIRMED (did not fail again on replay):', case, v['msg'][:300])
    sys.exit(3)
if R['error']:
    print('ENGINE ERROR', R['error'], p.stderr[-2000:]); sys.exit(3)
sys.exit(0)

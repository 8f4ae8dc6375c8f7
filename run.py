#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property for /repo's current working tree.
1. deductive part: contracts in lib/units_*.py are checked against LLVM IR generated from /repo's sources in this run
2. concrete part : the real code is run against executable specifications (replay of counterexamples, bounded stand-ins)
exit 0: held on everything explored, exit 1: VIOLATION line."""
import sys, os, json, time, subprocess, traceback, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build, registry
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
T0 = time.time()
EV = os.path.join(build.VERIF, 'evidence'); os.makedirs(EV + '/replay', exist_ok=True)
CFG = registry.PROPS[PID]
fails = []          # (kind, dict)
info = dict(api=None, native=None, notes=[])
def note(s): info['notes'].append(s); print('note: ' + s)

def concrete(secs):
    native = api = None
    if CFG.get('native'):
        try: native = build.build_harness()
        except Exception as e: note('native harness not built (%s)' % str(e)[:300].replace('\n', ' | '))
    if CFG.get('api'):
        try: api = build.build_addon()
        except Exception as e: note('addon not built (%s)' % str(e)[:300].replace('\n', ' | '))
    procs = []
    if CFG.get('isa'):
        try: procs += [('native', [e, 'seed=%d' % SEED, 'secs=%g' % secs]) for e in build.build_isa()]
        except Exception as e: note('dispatch harness not built (%s)' % str(e)[:300].replace('\n', ' | '))
    for k in range(CFG.get('procs', 2)):
        if native: procs.append(('native', [native, PID, 'seed=%d' % (SEED * 16 + k), 'secs=%g' % secs] + (['parts=%d' % CFG.get('procs', 2), 'part=%d' % k, 'all=%d' % (TIER == 'thorough')] if PID[0] == 'E' else [])))
        if api: procs.append(('api', ['node', build.VERIF + '/harness/api.js', PID, api, str(SEED * 16 + k), '%g' % secs]))
    ps = [(n, c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE)) for n, c in procs]
    for n, c, p in ps:
        try: out, err = p.communicate(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); note(n + ' search did not finish'); 
            fails.append(('concrete', dict(what='the real code did not terminate on an input of the search', command=c, harness=n))); continue
        line = out.decode(errors='replace').strip().split('\n')[-1] if out else ''
        try: r = json.loads(line)
        except ValueError:
            if p.returncode is not None and p.returncode < 0 or n == 'api' and b'FATAL' in err:
                fails.append(('concrete', dict(what='the process running the real code crashed (exit %s)' % p.returncode, command=c, harness=n, stderr=err.decode(errors='replace')[-1500:])))
            else: note('%s search gave no result (exit %s): %s' % (n, p.returncode, err.decode(errors='replace')[-300:]))
            continue
        if 'fail' in r: fails.append(('concrete', dict(harness=n, command=c, fail=r['fail'])))
        else:
            s = info[n] = info[n] or dict(evals=0, nontrivial=0, sample=r['ok'].get('sample'), isas=r['ok'].get('isas'))
            s['masks'] = [a + b for a, b in zip(s.get('masks', [0, 0]), r['ok'].get('masks', [0, 0]))]; s['evals'] += r['ok']['evals']; s['nontrivial'] += r['ok'].get('nontrivial', r['ok']['evals'])

obls = []
def deductive():
    import importlib, par
    tasks = []
    for mod, arg in CFG.get('units', []):
        try: tasks += importlib.import_module(mod).tasks(arg, TIER)
        except Exception: obls.append(dict(name='%s:%s' % (mod, arg), status='unsupported', backend='-', time=0, detail=traceback.format_exc()[-1500:]))
    if not tasks: return
    build.scratch()
    for name, r in par.par(tasks, {'quick': 450, 'thorough': 900}[TIER]).items():
        if r[0] == 'ok': obls.extend(r[1])
        else: obls.append(dict(name=name, status='unknown' if r[0] == 'timeout' else 'unsupported', backend='-', time=0, detail='time limit' if r[0] == 'timeout' else str(r[1])))
    obls.sort(key=lambda o: o['name'])

secs = CFG.get('secs', {'quick': 25, 'thorough': 240})[TIER]
th = threading.Thread(target=concrete, args=(secs,)); th.start()
deductive(); th.join()
known = []
kf = os.path.join(build.VERIF, 'known_findings.txt')
if os.path.exists(kf):
    for l in open(kf):
        if l.startswith('known: property=%s ' % PID): known.append(l.strip())
for k in known: print('KNOWN-FINDING: property=%s %s' % (PID, k.split(' ', 2)[2]))
refuted = [o for o in obls if o['status'] == 'refuted']
undecided = [o for o in obls if o['status'] in ('unknown', 'unsupported')]
for o in undecided: print('undecided obligation (covered by the bounded search only): %s [%s] %s' % (o['name'], o['status'], str(o.get('detail', ''))[-600:]))
proved = [o for o in obls if o['status'] == 'proved']; bounded = [o for o in obls if o['status'] == 'bounded']
conc = [f for f in fails if f[0] == 'concrete'] + [('replayed', o) for o in refuted if o.get('replayed')]
level = CFG['level']
wall = time.time() - T0
nse = (info['native'] or {}).get('evals', 0) + (info['api'] or {}).get('evals', 0)
backends = {}
for o in proved: backends[o['backend']] = backends.get(o['backend'], 0) + o.get('count', 1)
cov = dict(obligations=sum(o.get('count', 1) for o in obls), discharged=sum(o.get('count', 1) for o in proved),
    obligations_bounded_only=sum(o.get('count', 1) for o in bounded), obligations_undecided=len(undecided),
    functions_under_contract=sorted({f for o in obls for f in o.get('functions', [])}), discharged_by=backends,
    solver_time_s=round(sum(o.get('time', 0) for o in obls), 2), checker_cmd='python3-vt /verif/run.py %s %s' % (PID, TIER),
    trusted_base=CFG.get('trusted', registry.TRUSTED),
    obligation_list=[dict(name=o['name'], status=o['status'], backend=o['backend'], time_s=round(o.get('time', 0), 3), count=o.get('count', 1), **({'detail': str(o['detail'])[:400]} if o.get('detail') else {})) for o in obls],
    evaluations=nse, distinct_nontrivial=(info['native'] or {}).get('nontrivial', 0) + (info['api'] or {}).get('nontrivial', 0),
    rule='concrete search: seeded random generator biased to special bytes, vector/line/chunk boundaries and alignments; replays and bounded stand-ins only, never counted as discharged', search_seconds=secs)
smp = (info['native'] or info['api'] or {}).get('sample')
if smp is None: smp = dict(obligation=(proved or obls or [dict(name='none')])[0]['name'])
cov['samples'] = [smp]
if info['native']: cov['implementations_run'] = info['native']['isas']
if info['native'] and info['native'].get('masks', [0, 0])[1]: cov['escape_masks'] = dict(done=info['native']['masks'][0], of=info['native']['masks'][1], what='bounded: every 16-bit escape mask x 4 groups of the 64-byte window x (first window, window after a line end) x implementation, with line ends at positions of the group')
ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(conc) + len([o for o in refuted if not o.get('replayed')]), notes=info['notes'], assumptions=CFG.get('assumptions', []))
json.dump(ev, open('%s/%s.json' % (EV, PID), 'w'), indent=1)
print('%s: %d obligations, %d discharged, %d bounded, %d undecided, %d refuted; %d concrete evaluations; %.1fs' % (PID, cov['obligations'], cov['discharged'], len(bounded), len(undecided), len(refuted), nse, wall))
if conc or refuted:
    rp = '%s/replay/%s.json' % (EV, PID)
    o = conc[0][1] if conc else None
    failed_names = [x['name'] for x in refuted]
    json.dump(dict(property=PID, seed=SEED, failed_obligations=refuted, concrete=[c[1] for c in conc[:5]]), open(rp, 'w'), indent=1, default=str)
    print('failed obligations: %s' % (', '.join(failed_names) or '(none; concrete search only)'))
    if o: print('failing input: %s' % json.dumps(o, default=str)[:1500])
    print('VIOLATION property=%s replay=%s%s' % (PID, rp, '' if conc else ' no-failing-input-found'))
    sys.exit(1)
sys.exit(0)

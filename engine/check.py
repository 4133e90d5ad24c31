#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decides one property against /repo's working tree."""
import sys, os, json, time, re, subprocess, threading, multiprocessing as mp, traceback, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import build
VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = float(os.environ.get('VF_BUDGET', '420' if TIER == 'quick' else '3000'))
T0 = time.time()

def big_stack(f, *a):
    r = {}
    def g():
        try: r['v'] = f(*a)
        except BaseException as e: r['e'] = e; r['tb'] = traceback.format_exc()
    threading.stack_size(512*1024*1024)
    t = threading.Thread(target=g); t.start(); t.join()
    if 'e' in r: raise RuntimeError(r['tb'])
    return r['v']

def sym_task(ll, entry, opts, q, idx):
    """runs in a child process"""
    try:
        def go():
            import vcgen, smt
            from irparse import Module
            mod = Module().load(ll)
            x = vcgen.Explorer(mod, 'vc_' + entry, opts)
            setup = opts.get('setup')
            if setup:
                import contracts
                getattr(contracts, setup)(x)
            x.run()
            obs = [o.asdict() for o in x.results]
            names = {}
            return dict(entry=entry, paths=x.paths, obs=obs, undecided=x.undecided, covers=x.covers, smt=dict(smt.STATS),
                        den_proved=x.den_proved, den_assumed=x.den_assumed,
                        calls={k: v for k, v in x.M.calls.items()}, ext=x.M.usedext, steps=x.M.steps,
                        contracts=getattr(x, 'contract_uses', {}))
        q.put((idx, big_stack(go)))
    except BaseException as e:
        q.put((idx, dict(entry=entry, error=str(e)[-2500:], paths=[], obs=[], undecided=['engine error: ' + str(e)[-300:]], covers={}, smt={}, den_proved=0, den_assumed=0, calls={}, ext={}, steps=0)))

def parse_native(out):
    fails = []; inputs = {}; done = None; counts = {}
    for l in out.splitlines():
        m = re.match(r'FAIL (.*) entry=(\S+) seed=(\d+) sample=(\d+) code=(\S+) spec=(\S+)', l)
        if m: fails.append(dict(name=m.group(1), entry=m.group(2), seed=int(m.group(3)), sample=int(m.group(4)), code=m.group(5), spec=m.group(6)))
        elif l.startswith('INPUT '):
            if fails: fails[-1]['inputs'] = l[6+len(fails[-1]['name'])+1:]
        elif l.startswith('DONE '): done = dict(x.split('=') for x in l[5:].split())
        elif l.startswith('COUNT '):
            a = l[6:].rsplit(' ', 1); counts[a[0]] = int(a[1])
    return fails, done, counts

def run_native(exe, entry, seed, n, inputs=None, timeout=120, sample=None, cwd=None):
    cmd = [exe, entry, str(seed), str(n)] + ([inputs] if inputs else [])
    env = dict(os.environ)
    if sample is not None: env['VF_SAMPLE'] = str(sample)
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env, cwd=cwd)
        out = p.stdout.decode('utf8', 'replace'); err = p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('utf8', 'replace') ; err = 'timeout'
        f, d, c = parse_native(out)
        return f, d, c, err, 'timeout'
    f, d, c = parse_native(out)
    return f, d, c, err, p.returncode

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    try: return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]
    except OSError: return []

def main(prop):
    from props import PROPS
    cfg = PROPS[prop]
    units = cfg['units']
    tasks = []      # (unit, variant name, entry, opts, ll)
    srcs = {}
    try:
        return decide(prop, cfg, srcs)
    finally:
        for S in srcs.values(): S.close()

def decide(prop, cfg, srcs):
    units = cfg['units']
    builds = []
    errors = []
    blt = {}
    lock = threading.Lock()
    def dobuild(ui, vi, variant, unit):
        vk = json.dumps(variant, sort_keys=True)
        with lock:
            S = srcs.get(vk)
            if S is None: S = srcs[vk] = build.Source(variant)
        r = {}
        try:
            if unit.get('symbolic', True):
                r['ll'] = build.build_ir(S, unit['harness'], unit.get('srcs', []), unit.get('defs', ()), unit.get('noinline'), opt=unit.get('opt', 'default<O1>'))
        except build.BuildError as e: r['ir_error'] = str(e)
        try:
            if unit.get('native', True):
                r['exe'] = build.build_native(S, unit['harness'], unit.get('srcs', []) + unit.get('native_srcs', []), unit.get('defs', ()), unit.get('libs', ()))
        except build.BuildError as e: r['nat_error'] = str(e)
        blt[(ui, vi)] = r
    ths = []
    for ui, u in enumerate(units):
        for vi, v in enumerate(u.get('variants', [{}])):
            t = threading.Thread(target=dobuild, args=(ui, vi, v, u)); t.start(); ths.append(t)
    for t in ths: t.join()
    tbuild = time.time()-T0
    # ---------------- symbolic tasks
    tasks = []
    for ui, u in enumerate(units):
        ents = re.findall(r'^\s*VC\((\w+)\)', open(os.path.join(VERIF, 'harness', u['harness'])).read(), re.M)
        for vi, v in enumerate(u.get('variants', [{}])):
            b = blt[(ui, vi)]
            for k in ('ir_error', 'nat_error'):
                if k in b: errors.append('%s %s: %s' % (u['harness'], v, b[k][-1500:]))
            for e in ents:
                if u.get('entries') and e not in u['entries']: continue
                o = dict(u.get('opts', {})); o.update(u.get('entry_opts', {}).get(e, {}))
                if v and e in u.get('base_only', ()) and vi > 0: continue
                tasks.append(dict(unit=u, ui=ui, vi=vi, variant=v, entry=e, opts=o, ll=b.get('ll'), exe=b.get('exe')))
    if all('ll' not in blt[k] and 'exe' not in blt[k] for k in blt):
        print('ERROR: the code does not build with the harness:\n' + '\n'.join(errors), file=sys.stderr)
        return 2
    q = mp.Queue()
    pend = [i for i, t in enumerate(tasks) if t['ll'] and not t['opts'].get('native_only')]
    symdl = T0 + BUDGET
    running = {}; results = {}
    natres = {}
    def native_all():
        scr = os.path.join(build.tempfile.mkdtemp(prefix='vfn.'))
        for i, t in enumerate(tasks):
            if not t['exe']: continue
            n = t['opts'].get('samples', 400); n = n if TIER == 'quick' else n*10
            natres[i] = run_native(t['exe'], t['entry'], SEED, n, timeout=t['opts'].get('native_timeout', 60 if TIER == 'quick' else 600), cwd=scr)
        build.shutil.rmtree(scr, ignore_errors=True)
    natth = threading.Thread(target=native_all); natth.start()
    while pend or running:
        while pend and len(running) < 7:
            i = pend.pop(0); t = tasks[i]
            o = dict(t['opts']); o['budget'] = min(o.get('budget', 300) * (1 if TIER == 'quick' else 6), max(5, symdl - time.time()))
            if TIER != 'quick': o['z3_timeout'] = o.get('z3_timeout', 10.0)*4
            p = mp.Process(target=sym_task, args=(t['ll'], t['entry'], o, q, i)); p.start()
            running[i] = (p, time.time() + o['budget'] + 90)
        try:
            i, r = q.get(timeout=0.2); results[i] = r
            running.pop(i)[0].join(5)
        except queue.Empty: pass
        for i in list(running):
            p, dl = running[i]
            if not p.is_alive():
                try:
                    j, r = q.get(timeout=1); results[j] = r; running.pop(j)[0].join(1); continue
                except queue.Empty: pass
                results[i] = dict(entry=tasks[i]['entry'], error='worker died', paths=[], obs=[], undecided=['engine process ended (memory?)'], covers={}, smt={}, den_proved=0, den_assumed=0, calls={}, ext={}, steps=0)
                running.pop(i)
            elif time.time() > dl:
                p.terminate(); results[i] = dict(entry=tasks[i]['entry'], error='timeout', paths=[], obs=[], undecided=['engine time limit'], covers={}, smt={}, den_proved=0, den_assumed=0, calls={}, ext={}, steps=0)
                running.pop(i)
    natth.join()
    return conclude(prop, cfg, tasks, results, natres, errors, tbuild)

def conclude(prop, cfg, tasks, results, natres, errors, tbuild):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    violations = []   # dicts
    unproved = []
    counts = dict(total=0, proved=0, unknown=0, refuted=0, by={})
    bcounts = dict(total=0, proved=0, refuted=0)   # obligations of entries over a bounded domain, never counted as proved
    bre = re.compile(cfg.get('bounded_entries') or r'(?!)')
    perfun = {}
    nat_tot = dict(samples=0, accepted=0, obligations=0)
    samples = []
    for i, t in enumerate(tasks):
        tag = t['entry'] + (('[' + ','.join('%s=%s' % kv for kv in sorted(t['variant'].items())) + ']') if t['variant'] else '')
        r = results.get(i)
        refuted = {}
        if r:
            for o in r['obs']:
                if o['status'] == 'skipped': continue
                cc = bcounts if bre.fullmatch(t['entry']) else counts
                cc['total'] += 1
                if o['status'] == 'proved':
                    cc['proved'] += 1; counts['by'][o['by']] = counts['by'].get(o['by'], 0)+1
                else:
                    cc[o['status']] = cc.get(o['status'], 0)+1
                    if o['status'] == 'refuted': refuted.setdefault(o['name'], []).append(o)
                    else: unproved.append('%s: %s (%s)' % (tag, o['name'], o['info']))
            for u in r['undecided']: unproved.append('%s: %s' % (tag, u))
            perfun[tag] = dict(bounded=bool(bre.fullmatch(t['entry'])), paths=len(r['paths']), obligations=len(r['obs']), proved=sum(1 for o in r['obs'] if o['status'] == 'proved'),
                               denominators_proved_nonzero=r['den_proved'], denominators_assumed_nonzero=r['den_assumed'], undecided=r['undecided'][:5])
            if not r.get('error') and not r['undecided'] and (not r['paths'] or not r['obs']):
                unproved.append(tag + ': vacuous (no path reaches an obligation)')
        nat = natres.get(i)
        natfails = {}
        if nat:
            fails, done, cnt, err, rc = nat
            if done:
                nat_tot['samples'] += int(done['samples']); nat_tot['accepted'] += int(done['accepted']); nat_tot['obligations'] += int(done['obligations'])
                if int(done['accepted']) == 0: unproved.append(tag + ': replay accepted no sample')
            elif not fails: unproved.append(tag + ': native replay did not finish (%s)' % str(rc))
            for f in fails: natfails[f['name']] = f
        # violations with a concrete failing input
        for nm, f in natfails.items():
            violations.append(dict(entry=tag, name=nm, concrete=True, f=f, sym=(refuted.get(nm) or [None])[0], exe=t['exe'], how='random input'))
        for nm, obs in refuted.items():
            if nm in natfails: continue
            # replay the model on the real code
            ok = False
            if t['exe']:
                for o in obs[:6]:
                    if not o['model']: continue
                    path = os.path.join(rdir, '%s-%s.in' % (prop, re.sub(r'\W+', '_', tag + '_' + nm)[:80]))
                    with open(path, 'w') as fh:
                        for k, v in o['model'].items(): fh.write('%s %.17g\n' % (k, float(v)))
                    scr = build.tempfile.mkdtemp(prefix='vfn.')
                    fails, done, cnt, err, rc = run_native(t['exe'], t['entry'], SEED, 1, path, 60, cwd=scr)
                    build.shutil.rmtree(scr, ignore_errors=True)
                    if fails:
                        violations.append(dict(entry=tag, name=nm, concrete=True, f=fails[0], sym=o, exe=t['exe'], how='verifier model')); ok = True; break
            if not ok: violations.append(dict(entry=tag, name=nm, concrete=False, f=None, sym=obs[0], exe=t['exe'], how=None))
    # ---------------- known findings
    kf = known_findings(prop)
    real = []; seen_known = set()
    for v in violations:
        k = [x for x in kf if re.fullmatch(x['entry'], v['entry']) and re.fullmatch(x['obligation'], v['name'])]
        if k: seen_known.add(k[0]['what'])
        else: real.append(v)
    for k in kf:
        if k['what'] in seen_known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    conc = [v for v in real if v['concrete']]
    noconc = [v for v in real if not v['concrete']]
    rc = 0
    if real:
        rc = 1
        path = os.path.join(rdir, '%s.txt' % prop)
        with open(path, 'w') as fh:
            for v in conc + noconc:
                fh.write('property %s\nobligation: %s\nharness entry: %s\n' % (prop, v['name'], v['entry']))
                if v['f']:
                    f = v['f']
                    fh.write('replayed on the real code (%s): seed=%s sample=%s code=%s spec=%s\ninputs:\n  %s\n' % (v['how'], f['seed'], f['sample'], f['code'], f['spec'], f.get('inputs', '').replace(';', '\n  ')))
                if v['sym']: fh.write('verifier: %s\n' % json.dumps(v['sym']))
                fh.write('\n')
        for v in (conc + noconc)[:10]:
            print('  failed obligation: %s / %s%s' % (v['entry'], v['name'], '' if v['concrete'] else '  (refuted by the verifier, no failing input on the real code)'))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conc else ' no-failing-input-found'))
    from props import level_of
    level = level_of(cfg)
    assumptions = list(cfg.get('assumptions', [])) + BASE_ASSUMPTIONS
    exts = {}
    for r in results.values():
        for k, v in r.get('ext', {}).items():
            if not k.startswith(('vf_', 'llvm.')): exts[k] = exts.get(k, 0)+v
    smt = {}
    for r in results.values():
        for k, v in r.get('smt', {}).items(): smt[k] = round(smt.get(k, 0)+v, 3)
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level,
        coverage=dict(obligations=counts['total'], discharged=counts['proved'], refuted=counts['refuted'], undecided=len(unproved),
            bounded_obligations=bcounts['total'], bounded_discharged=bcounts['proved'], bounded_refuted=bcounts['refuted'],
            checker_cmd='./check %s' % prop,
            trusted_base=['clang 18 front end and opt O1 (C++ to LLVM IR)', 'engine/interp.py (IR semantics over reals)', 'engine/poly.py (exact normal forms)', 'z3 4.x / cvc5 1.1.2', 'models of external functions: ' + ', '.join(sorted(exts))[:1500]],
            discharged_by=counts['by'], solver=smt, functions_under_contract=cfg.get('functions', []), entries=perfun,
            not_proved=unproved[:40], bounded_parts=cfg.get('bounded', []),
            replay=dict(nat_tot, rule='contracts evaluated on the compiled code (ASan) with pseudo-random and lattice inputs; supplementary, never counted as proof')),
        assumptions=assumptions, wall_s=round(time.time()-T0, 2), violations=len(real))
    if level != 'proof':
        ev['coverage']['explanation'] = 'bounded contract checks: every contract of this property is discharged by the same verifier over the stated bounded domains (bounded_parts), all numeric values symbolic; nothing is counted as proved for all sizes'
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d refuted; bounded domain: %d obligations, %d discharged, %d refuted; %d not decided; replay %d samples; build %.0fs, total %.0fs' % (prop, counts['total'], counts['proved'], counts['refuted'], bcounts['total'], bcounts['proved'], bcounts['refuted'], len(unproved), nat_tot['accepted'], tbuild, time.time()-T0))
    for u in unproved[:12]: print('  not proved: ' + u)
    for e in errors[:4]: print('  build note: ' + e[-600:])
    if rc == 0 and counts['total'] == 0 and bcounts['total'] == 0 and nat_tot['accepted'] == 0:
        print('ERROR: nothing was checked', file=sys.stderr); return 2
    return rc

BASE_ASSUMPTIONS = ['IEEE double arithmetic treated as exact real arithmetic (rounding, overflow and NaN inputs not modelled); source literals stand for the nearest simple rational',
  'fixed-width integers are concrete in every obligation; allocation never fails',
  'output streams are no-ops']
if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']: print('nothing to build: every check compiles from /repo'); sys.exit(0)
    sys.exit(main(sys.argv[1]))

"""Decide one property: python3-vt vc/run.py <ID> [--tier quick|thorough]"""
import sys, os, re, time, json, traceback, importlib, hashlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'specs')]
import z3
import spec
from spec import *


def summarise_model(ob, limit=60):
    m = ob.model
    if m is None: return []
    r = []
    for d in m.decls():
        s = f'{d.name()} = {m[d]}'
        if len(s) > 300: s = s[:300] + '…'
        r.append(s)
    r.sort(key=len)
    return r[:limit]


def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    P = Prop(pid)
    P.tier = tier
    lost = None
    try:
        mod.check(P)
    except Lost as e:
        lost = f'anchor lost: {e}'
    t1 = time.time()
    budget = 20 if tier == 'quick' else 60
    obs = P.obs
    def job(i):
        ob = decide(obs[i], budget)
        return (ob.res, ob.how, ob.time, summarise_model(ob) if ob.res != 'proved' else [])
    res = spec.parallel(list(range(len(obs))), job, timeout=budget * 8)
    # vacuity: each reach() set has a satisfiable path
    def vjob(i):
        name, outs, hyps = P.vac[i]
        best = 'unsat'
        for o in ([outs] if isinstance(outs, C) else outs):
            ex = o.ex if o is outs else o.c.ex
            fs = ([] if o is outs else [B(f) for f, lz in o.pcs() if not lz]) + hyps
            fs = fs + relevant(ex, fs)
            r, _ = solve(fs, 5)
            if r == 'sat':
                if has_nl(fs):
                    r2, _ = solve([exact(f) for f in fs], 8)
                    if r2 == 'unsat': r = 'unsat'
                    elif r2 == 'unknown': r = 'sat (products uninterpreted)'
                if r != 'unsat': return r
            elif r == 'unknown': best = 'unknown'
        return best
    vres = spec.parallel(list(range(len(P.vac))), vjob, timeout=120)
    t2 = time.time()
    bad = []; solver = 0.0; byback = {}
    for ob, r in zip(obs, res):
        if r is None or r[0] in ('EXC', 'KILLED'):
            ob.res, ob.how = 'unknown', 'worker ' + str(r)[:2000]; mo = []
        else:
            ob.res, ob.how, ob.time, mo = r
        solver += ob.time
        if ob.res == 'proved': byback[ob.how] = byback.get(ob.how, 0) + 1
        else: bad.append((ob, mo))
        if verbose: print(f'{ob.res:8} {ob.time:6.2f}s {ob.name}  [{ob.how[:300]}]')
    vacuous = [(v[0], r) for v, r in zip(P.vac, vres) if r is None or r[0] == 'EXC' or r == 'unsat']
    undecided = sorted(set(P.undecided))
    nob = len(obs); npr = nob - len(bad)
    trusted = {}; bounded = {}
    for c in P.cs:
        for n, k in c.ex.used_models.items(): trusted[n] = trusted.get(n, 0) + k
        bounded.update(c.ex.bounded)
    print(f'{pid}: {nob} obligations, {npr} discharged, {len(bad)} not; {len(undecided)} undecided constructs; '
          f'{len(P.vac)} reachability guards, {len(vacuous)} vacuous; symbolic {t1-t0:.1f}s, solving {t2-t1:.1f}s (cpu {solver:.1f}s)')
    known = load_known(pid)
    rdir = os.path.join(os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build')), 'replay'); os.makedirs(rdir, exist_ok=True)
    viol = []
    for ob, mo in bad:
        k = next((k for k in known if k['match'] in ob.name), None)
        if k:
            if not k.get('printed'):
                print(f'KNOWN-FINDING: property={pid} {k["what"]}'); k['printed'] = True
            continue
        viol.append((ob, mo))
    rc = 0
    if viol:
        p = os.path.join(rdir, f'{pid}.txt')
        with open(p, 'w') as f:
            f.write(f'property {pid}: {len(viol)} obligation(s) of the contracts are not discharged on this source\n\n')
            for ob, mo in viol[:40]:
                f.write(f'OBLIGATION {ob.name}\n  verifier: {ob.res} ({ob.how})\n')
                g = str(ob.goal); f.write('  clause: ' + (g if len(g) < 3000 else g[:3000] + ' …') + '\n')
                if mo:
                    f.write('  counterexample (solver model, shortest assignments first):\n' + ''.join(f'    {x}\n' for x in mo))
                f.write('\n')
            for u in undecided: f.write('not executed: ' + u + '\n')
        for ob, mo in viol[:10]: print(f'  failed obligation: {ob.name} [{ob.res}]')
        confirmed = False
        if hasattr(mod, 'replay'):
            try: confirmed = mod.replay(P, viol, p)
            except Exception: traceback.print_exc()
        print(f'VIOLATION property={pid} replay={p}' + ('' if confirmed else ' no-failing-input-found'))
        rc = 1
    elif undecided or lost or vacuous:
        p = os.path.join(rdir, f'{pid}.txt')
        with open(p, 'w') as f:
            f.write(f'property {pid}: the contracts cannot be discharged on this source\n')
            if lost: f.write(lost + '\n')
            for u in undecided: f.write('not executed: ' + u + '\n')
            for v in vacuous: f.write(f'vacuous: no path of {v[0]} is feasible\n')
        if lost: print('  ' + lost)
        for u in undecided[:10]: print('  not executed: ' + u[:400])
        for v in vacuous[:10]: print('  vacuous:', v)
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        rc = 1
    write_evidence(P, mod, pid, tier, obs, bad, byback, solver, trusted, bounded, undecided, vacuous, lost, t0, t1, t2, vres, len(viol) + len(undecided) + len(vacuous) + bool(lost), sorted({k['what'] for k in known if k.get('printed')}))
    sys.stdout.flush()
    P.mir.close()
    os._exit(rc)


def is_repo(n):
    m = re.match(r"[<&(\s]*(?:mut )?([A-Za-z0-9_]+)::", n)
    if m and m.group(1) in REPO_CRATES: return True
    m = re.search(r" as ([A-Za-z0-9_]+)::", n)
    return any((' ' + c + '::') in n or ('<' + c + '::') in n for c in REPO_CRATES)


def repo_crates():
    r = set()
    for base in ('contracts', 'packages'):
        for d, ds, fs in os.walk(os.path.join(os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build')), 'ws', base)):
            if 'Cargo.toml' in fs: r.add(os.path.basename(d).replace('-', '_')); ds[:] = []
    return r
REPO_CRATES = repo_crates()


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [dict(k) for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


BASE = [
    'rustc (nightly front end, type checker, MIR construction) compiles the same program as the release toolchain does',
    'mirsrv (MIR extraction) and the verification-condition generator vc/engine.py',
    'z3 (answers unsat only when unsatisfiable)',
]
ASSUME = [
    'entry points get an arbitrary pre-state: every storage item is either absent or holds any value of its type',
    'serialization is injective and lossless: what is stored under a key is what is read back; JSON round-trips',
    'queries to other contracts and the chain return arbitrary values of their type, the same one for the same query within one call',
    'an error or panic reverts every effect of the call (CosmWasm semantics); panics and aborts end a path',
    'addr_validate accepts a string only by returning it unchanged (Addr is the string it was made from)',
    'strings and binaries are opaque values with equality, length and order; their characters are not modelled',
]


def write_evidence(P, mod, pid, tier, obs, bad, byback, solver, trusted, bounded, undecided, vacuous, lost, t0, t1, t2, vres, nviol, nknown):
    inl = {}
    for c in P.cs:
        for n, k in c.ex.inlined.items(): inl[n] = inl.get(n, 0) + k
    fns = sorted(n for n in inl if is_repo(n))
    cov = {
        'obligations': len(obs), 'discharged': len(obs) - len(bad),
        'checker_cmd': f'bash check.sh {pid} --tier {tier}',
        'trusted_base': BASE + [f'contract assumed, not verified: {n}' for n in sorted(trusted)],
        'functions_under_contract': sorted(P.under),
        'repo_functions_executed_symbolically': fns,
        'by_back_end': byback, 'solver_seconds': round(solver, 2),
        'symbolic_execution_seconds': round(t1 - t0, 2), 'solving_seconds': round(t2 - t1, 2),
        'entry_point_runs': P.nruns,
        'paths': sum(len(r.outs) for c in P.cs for r in c.runs),
        'reachability_guards': len(P.vac), 'reachability_guards_vacuous': [v[0] for v in vacuous],
        'reachability_guards_unknown': [v[0] for v, r in zip(P.vac, vres) if r == 'unknown'],
        'bounded_stand_ins': {k: f'unrolled {v} times, longer executions not covered' for k, v in sorted(bounded.items())},
        'not_executed': undecided, 'anchor_lost': lost,
        'undischarged': [ob.name for ob, _ in bad],
        'samples': [ob.name for ob in obs[:8]],
        'known_findings_matched': nknown,
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'proof', 'coverage': cov, 'assumptions': ASSUME + P.notes, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()

"""python3 -m irvc.check <property> [--tier quick|thorough]  -- decides one property on /repo's current tree."""
import argparse, json, math, multiprocessing as mp, os, random, re, resource, signal, subprocess, sys, threading, time, traceback
from fractions import Fraction as Fr
from . import ex, exec as E, prove, program
from .ex import N

VERIF = program.VERIF
EVID = os.path.join(VERIF, 'evidence')

G = {}     # state inherited by forked workers


def collect_hints(fs):
    out = set()
    seen = set()
    st = list(fs)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('lt', 'le', 'eq'):
            for x in n.a:
                terms = [x]
                k = 0
                while terms and k < 60:
                    k += 1
                    y = terms.pop()
                    if y.op == '+':
                        terms += list(y.a)
                    elif y.op in ('abs', 'floor', 'min', 'max', 'sqrt', '/'):
                        terms += [z for z in y.a if isinstance(z, N)]
                    elif y.op == '*' and y.a[0].op == 'q':
                        terms.append(y.a[1])
                    c = E.node_float(y) if not ex.free_vars([y]) else None
                    if c is not None and math.isfinite(c):
                        out.add(c)
                        out.add(-c)
        for x in n.a:
            if isinstance(x, N):
                st.append(x)
    return sorted(out)[:400]


def set_contract(M, cfg, contract):
    """the assumed contracts in force for this contract"""
    if getattr(M, 'current', None) == contract:
        return
    per = M.__dict__.setdefault('per', {})
    if contract not in per:
        P = G['program']
        cs = [x for rx, x in cfg.get('per', []) if re.search(rx, contract)] + [cfg]
        stubs = []
        for c in cs:
            stubs += [(re.compile(rx), h) for rx, h in c.get('stubs', [])]
            stubs += [(re.compile(rx), E.redirect(P, t)) for rx, t in c.get('redirects', [])]
        per[contract] = (stubs, {})
    M.stubs, M.hcache = per[contract]
    M.current = contract


def run_path(task):
    """executes one path and discharges its obligations"""
    contract, prefix, only = task
    t0 = time.time()
    M = G['machine']
    cfg = G['cfg']
    set_contract(M, cfg, contract)
    pr = G.setdefault('prover', prove.Prover(cfg.get('prover')))
    M.touched = {}
    M.stubbed = {}
    res = dict(contract=contract, prefix=prefix, alts=[], obls=[], end='ok', msg='', touched=[], stubbed=[], notes=[],
               steps=0, covers=[], pending=[], hints=[], models=[], reach=None, only=only)
    P = E.Path(M, prefix, pr, dict(cfg.get('opts', {})))
    fin = 'ok'
    msg = ''
    try:
        with prove.alarm(cfg.get('path_time', 300)):
            P.call(contract, [])
    except E.PathEnd as e:
        fin, msg = e.kind, e.msg
    except E.Unsupported as e:
        fin, msg = 'unsupported', '%s [in %s]' % (e, ' < '.join(M.dm.get(x, x) for x in P.stack[-4:][::-1]))
    except prove.Timeout:
        fin, msg = 'unsupported', 'path time limit'
    except RecursionError:
        fin, msg = 'unsupported', 'recursion limit'
    except Exception as e:
        fin, msg = 'unsupported', 'engine error %r at %s [in %s]' % (e, traceback.format_exc()[-1400:], ' < '.join(M.dm.get(x, x) for x in P.stack[-4:][::-1]))
    res['end'], res['msg'] = fin, msg
    res['dec'] = list(P.dec)
    if only is None:
        res['alts'] = P.alts
    res['steps'] = P.steps
    res['covers'] = P.covers
    res['touched'] = [M.dm.get(x, x) for x in M.touched]
    res['stubbed'] = list(M.stubbed)
    res['notes'] = sorted(P.notes)
    obls = list(P.obls)
    if fin in ('panic', 'oob', 'unreachable'):
        if not P.allow_panic:
            obls.append(('no-panic: ' + msg, 'form', ex.FALSE, len(P.pc)))
    elif fin == 'unsupported':
        # infeasible path?
        r = pr.prove('form', ex.FALSE, P.pc, P.vb, P.opts)
        if r[0] == 'proved':
            res['end'] = 'infeasible'
        else:
            res['obls'].append(('engine: ' + msg, 'unsupported', '', '', 0.0))
            res['hints'] = collect_hints(P.pc)
    hard = []
    for i, (label, kind, payload, npc) in enumerate(obls):
        if only is not None and i != only:
            continue
        opts = P.opts
        if only is None and len(obls) > 1:
            opts = dict(opts)
            opts.update(nf_time=3, smt=1, obl_time=8, bb=0)
        isknown = any(x['contract'] == contract and re.fullmatch(x['obligation'], label) for x in G.setdefault('known', load_known(cfg['id'])))
        if isknown:                      # expected to fail: not worth the solvers' full time
            opts = dict(opts)
            opts.update(nf_time=5, smt=2, obl_time=12, bb=0)
        st, backend, detail, model, dt = pr.prove(kind, payload, P.pc[:npc], P.vb, opts)
        if st != 'proved' and not isknown and only is None and len(obls) > 1:
            res['pending'].append((contract, list(P.dec), i))
            continue
        res['obls'].append((label, st, backend, detail, dt))
        if st != 'proved':
            fs = list(P.pc[:npc])
            if kind == 'form':
                fs.append(payload)
            res['hints'] = collect_hints(fs)
            try:
                s = '; '.join(ex.show(f, 7) for f in P.pc[:npc])[-1500:]
                if kind == 'form':
                    s += ' |- ' + ex.show(payload, 8)[:1500]
                else:
                    s += ' |- ' + ex.show(payload[0], 8)[:900] + '  =?=  ' + ex.show(payload[1], 8)[:900]
            except Exception:
                s = ''
            res['fail_text'] = s
            base = {k: float(v.a[0]) for k, v in P.vars.items() if v.op == 'q'}
            if model:
                m = dict(base)
                m.update(model)
                res['models'].append(m)
            m = sample_witness(P, kind, payload, npc)
            if m:
                m2 = dict(base)
                m2.update(m)
                res['models'].append(m2)
            if base:
                res['models'].append(base)
            try:
                fs = prove.flat(P.pc[:npc])
                txt, vn = pr.encode(fs, P.vb, True)
                a, out, s_ = prove.run_solvers(txt, 5)
                if a == 'sat':
                    m = dict(base)
                    m.update({k: float(v) for k, v in prove.parse_model(out, vn).items()})
                    res['models'].append(m)
            except Exception:
                pass
    # reachability of the precondition (vacuity guard), once per contract
    if only is None and fin == 'ok' and not prefix:
        res['reach'] = reachable(P, pr)
    elif only is None and fin == 'ok' and cfg.get('reach_all'):
        res['reach'] = reachable(P, pr)
    res['feas'] = (pr.stats.get('feas', 0), pr.stats.get('feas_time', 0.0))
    pr.stats = {}
    if len(pr.fcache) > 5000:
        pr.fcache = {}
    res['time'] = time.time() - t0
    res['pid'] = os.getpid()
    return res


def draw(P, vs, hints, rnd):
    env = {}
    for v in vs:
        lo, hi = P.iv().vb.get(v.id, (-math.inf, math.inf))
        l = lo if lo > -1e300 else -1e6
        h = hi if hi < 1e300 else 1e6
        k = rnd.random()
        if k < 0.25 and hints:
            x = rnd.choice(hints) + rnd.choice([0, 0, 0, 1e-9, -1e-9, 1e-3, -1e-3])
        elif k < 0.35:
            x = rnd.choice([0.0, 1.0, -1.0, l, h, (l + h) / 2])
        elif k < 0.5:
            m = max(abs(l), abs(h), 1e-300)
            x = rnd.choice([-1, 1]) * m * 10 ** (-12 * rnd.random())
            if l > 0:
                x += l
        else:
            x = l + (h - l) * rnd.random()
        if v.isint:
            x = float(round(x))
        if not (lo <= x <= hi):
            x = l + (h - l) * rnd.random()
            if v.isint:
                x = float(round(x))
        env[v.a[0]] = x
    return env


def sample_witness(P, kind, payload, npc, secs=4.0):
    """numeric search for an assignment on this very path that breaks the obligation"""
    pc = prove.flat(P.pc[:npc])
    goal = [payload] if kind == 'form' else [payload[0], payload[1]]
    vs = sorted(ex.free_vars(list(pc) + goal), key=lambda v: v.id)
    if not vs or any(n.op == 'uf' for n in nodes(pc + goal)):
        return None
    hints = collect_hints(pc + ([payload] if kind == 'form' else []))
    rnd = random.Random(12345)
    t0 = time.time()
    tol = E.node_float(payload[2]) if kind == 'eq' else 0
    try:
        while time.time() - t0 < secs:
            env = draw(P, vs, hints, rnd)
            cache = {}
            ok = True
            for f in pc:
                if not ex.evalf(f, env, cache):
                    ok = False
                    break
            if not ok:
                continue
            if kind == 'form':
                if not ex.evalf(payload, env, cache):
                    return env
            else:
                a, b = ex.evalf(payload[0], env, cache), ex.evalf(payload[1], env, cache)
                if abs(a - b) > tol * 1.0000001:
                    return env
    except (KeyError, OverflowError, TypeError):
        return None
    return None


def nodes(fs):
    seen = {}
    st = list(fs)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        st += [x for x in n.a if isinstance(x, N)]
    return seen.values()


def reachable(P, pr):
    pc = prove.flat(P.pc)
    if not pc:
        return 'trivial'
    vs = sorted(ex.free_vars(pc), key=lambda v: v.id)
    if not any(n.op == 'uf' for n in nodes(pc)):
        rnd = random.Random(7)
        hints = collect_hints(pc)
        t0 = time.time()
        while time.time() - t0 < 1.0:
            env = draw(P, vs, hints, rnd)
            cache = {}
            try:
                if all(ex.evalf(f, env, cache) for f in pc):
                    return 'witness'
            except (KeyError, TypeError):
                break
    try:
        txt, vn = pr.encode(pc, P.vb, True)
        a, out, s = prove.run_solvers(txt, 5)
        if a == 'sat':
            return 'smt-sat'
        if a == 'unsat':
            return 'unsat'
    except Exception:
        pass
    return 'unknown'


def winit():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(60000)
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass


def worker_main(q_in, q_out):
    """runs in a thread with a large stack"""
    winit()

    def loop():
        while True:
            t = q_in.get()
            if t is None:
                return
            try:
                r = run_path(t)
            except BaseException as e:
                r = dict(contract=t[0], prefix=t[1], alts=[], obls=[('engine: worker error %r' % (e,), 'unsupported', '', traceback.format_exc()[-800:], 0.0)],
                         end='unsupported', msg=repr(e), touched=[], stubbed=[], notes=[], steps=0, covers=[], pending=[],
                         hints=[], models=[], reach=None, only=t[2], feas=(0, 0.0), time=0.0, dec=t[1])
            q_out.put((t, r))
    loop()


def explore(contracts, cfg, deadline, maxpaths):
    ctx = mp.get_context('fork')
    q_in, q_out = ctx.Queue(), ctx.Queue()
    nw = int(os.environ.get('IRVC_WORKERS', '8'))
    ws = [ctx.Process(target=worker_main, args=(q_in, q_out), daemon=True) for _ in range(nw)]
    for w in ws:
        w.start()
    out = {c: dict(paths=0, results=[], truncated=False) for c in contracts}
    pend = 0
    backlog = []
    for c in contracts:
        q_in.put((c, [], None))
        pend += 1
    done_pids = 0
    inflight = pend
    try:
        while pend:
            try:
                t, r = q_out.get(timeout=1.0)
            except Exception:
                dead = [i for i, w in enumerate(ws) if not w.is_alive()]
                for i in dead:
                    # a worker was killed (memory): its task is lost
                    ws[i] = ctx.Process(target=worker_main, args=(q_in, q_out), daemon=True)
                    ws[i].start()
                    pend -= 1
                    for c in contracts:
                        out[c]['lost'] = out[c].get('lost', 0) + 1
                if time.time() > deadline:
                    break
                continue
            pend -= 1
            o = out[r['contract']]
            o['results'].append(r)
            if r['only'] is None:
                o['paths'] += 1
            for a in r['alts']:
                if o['paths'] + 1 > maxpaths:
                    o['truncated'] = True
                    continue
                q_in.put((r['contract'], a, None))
                pend += 1
            for p in r['pending']:
                q_in.put(p)
                pend += 1
            if time.time() > deadline:
                break
    finally:
        for w in ws:
            w.terminate()
        subprocess.run(['pkill', '-P', str(os.getpid()), '-f', 'irvc.*smt2'], capture_output=True) if False else None
    return out, pend


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-search', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    import props
    cfg = props.get(a.prop)
    t0 = time.time()
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    P = program.Program()
    try:
        P.build()
    except program.BuildError as e:
        print('BUILD-ERROR: the contracts do not compile against the current tree')
        print(str(e)[-3000:])
        sys.exit(2)
    dm = P.demangle()
    M = E.Machine(P, dm)
    G['program'] = P
    G['machine'] = M
    G['cfg'] = cfg
    cfg.setdefault('opts', {})
    cfg['opts']['tier'] = 1 if a.tier == 'thorough' else 0
    if a.tier == 'thorough':
        cfg['opts'].setdefault('smt', 60)
        cfg['opts'].setdefault('obl_time', 500)
    if os.environ.get('IRVC_FAST'):      # development only
        cfg['opts'].update(smt=2, bb_time=3, obl_time=40, feas=1)
    contracts = sorted(n for n in P.funcs if re.match(cfg['contracts'], n))
    if a.only:
        contracts = [c for c in contracts if re.search(a.only, c)]
    if not contracts:
        print('ERROR: no contracts for', a.prop)
        sys.exit(2)
    # deep recursion needs a large stack: run the exploration from a thread; workers fork from it
    box = {}

    def go():
        box['r'] = explore(contracts, cfg, t0 + cfg.get('deadline', 700 if a.tier == 'quick' else 3000), cfg.get('maxpaths', 4000))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    out, left = box['r']
    report(a, cfg, P, M, out, left, t0)


def report(a, cfg, P, M, out, left, t0):
    prop = a.prop
    failures = []
    nob = ndis = 0
    by = {}
    solver_time = 0.0
    fns = set()
    stubbed = set()
    notes = set()
    cont = {}
    feas = 0
    feas_t = 0.0
    for c, o in sorted(out.items()):
        k = cont[c] = dict(paths=o['paths'], obligations=0, discharged=0, labels={}, reach='unknown', ends={})
        if o['truncated']:
            failures.append((c, 'engine: path budget exceeded', 'unsupported', '', [], [], ''))
        if o.get('lost'):
            failures.append((c, 'engine: a worker process was lost', 'unsupported', '', [], [], ''))
        seen = set()
        for r in o['results']:
            if r['only'] is None:
                k['ends'][r['end']] = k['ends'].get(r['end'], 0) + 1
            if r['reach'] in ('witness', 'smt-sat', 'trivial'):
                k['reach'] = r['reach']
            elif r['reach'] and k['reach'] == 'unknown':
                k['reach'] = r['reach']
            fns.update(r['touched'])
            stubbed.update(r['stubbed'])
            notes.update(r['notes'])
            feas += r['feas'][0]
            feas_t += r['feas'][1]
            for (label, st, backend, detail, dt) in r['obls']:
                nob += 1
                k['obligations'] += 1
                solver_time += dt
                L = k['labels'].setdefault(label, [0, 0])
                L[0] += 1
                if st == 'proved':
                    ndis += 1
                    k['discharged'] += 1
                    L[1] += 1
                    by[backend] = by.get(backend, 0) + 1
                else:
                    failures.append((c, label, st, backend + ' ' + detail, r['models'], r['hints'], r.get('fail_text', '')))
        if k['obligations'] == 0:
            failures.append((c, 'vacuity: no obligation generated', 'unsupported', str(k['ends']), [], [], ''))
        if k['reach'] == 'unsat' and k['ends'].get('ok', 0) <= 1:
            failures.append((c, 'vacuity: precondition unsatisfiable', 'unsupported', '', [], [], ''))
    if left:
        failures.append((sorted(out)[0], 'engine: time budget exhausted with %d tasks open' % left, 'unsupported', '', [], [], ''))
    known = load_known(prop)
    ev_fns = sorted(f for f in fns if re.search(r'\bsiderust::|\baffn::|\bkeplerian::|\bcheby::|\boptica::|\bprincipia::', f))
    repo_fns = sorted(set(re.sub(r'::<.*', '', f) if not f.startswith('<') else f for f in ev_fns if 'siderust' in f))
    if a.v:
        for c, k in cont.items():
            print(c, {x: y for x, y in k.items() if x != 'labels'})
            for l, (n, d) in k['labels'].items():
                print('    %-70s %d/%d' % (l[:70], d, n))
    viol = []
    known_hit = set()
    n_known = 0
    for f in failures:
        kf = next((x for x in known if x['contract'] == f[0] and re.fullmatch(x['obligation'], f[1])), None)
        if kf:
            known_hit.add(kf['text'])
            n_known += 1
        else:
            viol.append(f)
    status = 'held'
    replay = None
    if viol:
        status = 'violated'
        replay = handle_violation(a, cfg, viol)
    wall = time.time() - t0
    import props
    ev = props.evidence(prop, cfg, a.tier, dict(
        wall=wall, build=P.times, contracts=cont, obligations=nob - n_known, known_obligations=n_known, discharged=ndis, backends=by, solver_time=solver_time,
        feasibility_queries=feas, feasibility_time=feas_t, functions=repo_fns, all_functions=len(fns), stubbed=sorted(stubbed),
        notes=sorted(notes), status=status, known=sorted(known_hit), failures=[(f[0], f[1], f[2], f[3][:200]) for f in viol][:50], replay=replay))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for kx in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, kx))
    print('%s: %d contracts, %d paths, %d/%d obligations discharged %s, %.1f s (build %.1f s), %d repo functions under contract' % (
        prop, len(out), sum(k['paths'] for k in cont.values()), ndis, nob, by, wall, sum(P.times.values()), len(repo_fns)))
    sys.stdout.flush()
    if viol:
        path, found = replay
        for f in viol[:12]:
            print('  undischarged: %s / %s [%s %s]' % (f[0], f[1][:200], f[2], f[3][:160]))
            if a.v and f[6]:
                print('      ', f[6][:3000])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        sys.stdout.flush()
        os._exit(1)
    os._exit(0)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                d = json.loads(l)
                if d['property'] == prop:
                    out.append(d)
    return out


def handle_violation(a, cfg, viol):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.txt' % a.prop)
    txt = ['property %s: obligations that are not discharged on the current tree' % a.prop]
    for f in viol[:40]:
        txt.append('contract=%s obligation=%s status=%s verifier=%s' % (f[0], f[1], f[2], f[3]))
        if f[6]:
            txt.append('    ' + f[6][:3000])
    found = False
    if not a.no_search:
        try:
            exe = program.native()
            found = search(a, cfg, viol, exe, d, txt)
        except program.BuildError as e:
            txt.append('native build failed: ' + str(e)[-1400:])
    with open(path, 'w') as f:
        f.write('\n'.join(txt) + '\n')
    return path, found


def search(a, cfg, viol, exe, d, txt):
    byc = {}
    for f in viol:
        e = byc.setdefault(f[0], dict(models=[], hints=set(), labels=[]))
        e['models'] += f[4]
        e['hints'].update(f[5])
        e['labels'].append(f[1])
    # 1. replay solver models
    for c, e in byc.items():
        for i, m in enumerate(e['models'][:60]):
            inp = os.path.join(d, '%s.%s.inputs' % (a.prop, c))
            with open(inp, 'w') as f:
                for k, v in m.items():
                    f.write('%s=%r\n' % (k, v))
            try:
                r = subprocess.run([exe, 'run', c, inp], capture_output=True, text=True, timeout=20)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1:
                txt.append('REPLAYED on the real code: %s run %s %s' % (exe, c, inp))
                txt.append(r.stdout)
                return True
    # 2. directed random search, contracts in parallel
    secs = cfg.get('search', 40 if a.tier == 'quick' else 200)
    jobs = []
    cs = list(byc)[:8]
    per = max(1, 8 // max(1, len(cs)))
    for c in cs:
        hp = os.path.join(d, '%s.%s.hints' % (a.prop, c))
        with open(hp, 'w') as f:
            f.write('\n'.join(repr(h) for h in sorted(byc[c]['hints'])))
        for s in range(per):
            jobs.append((c, subprocess.Popen([exe, 'search', c, str(1 + s), str(secs), hp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    found = False
    end = time.time() + secs + 30
    while jobs and time.time() < end and not found:
        for c, p in list(jobs):
            if p.poll() is not None:
                jobs.remove((c, p))
                o = p.stdout.read()
                if p.returncode == 1:
                    inp = os.path.join(d, '%s.%s.inputs' % (a.prop, c))
                    with open(inp, 'w') as f:
                        for l in o.split('\n'):
                            if l.startswith('INPUT '):
                                f.write(l[6:] + '\n')
                    txt.append('FOUND by search and replayed on the real code: %s run %s %s' % (exe, c, inp))
                    txt.append(o[-4000:])
                    found = True
                    break
                txt.append('search %s: %s' % (c, o.strip()[-200:]))
        time.sleep(0.1)
    for c, p in jobs:
        p.kill()
    return found


if __name__ == '__main__':
    main()

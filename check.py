#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree.

The deciding step is the deductive verifier in vc/: every obligation that the contracts of the property generate from
/repo's current source must be discharged.  The concrete search in replay/ turns a failed obligation into a failing
input of the real code where it can, and validates the trusted contracts a little on every run."""
import json, multiprocessing as mp, os, re, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.path.insert(0, os.path.join(HERE, 'replay'))
sys.setrecursionlimit(20000)
EVID = os.path.join(HERE, 'evidence')
CPUS = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4


def tasks_of(specs, prop, M):
    import specs_lemma, engine
    out = []
    extra = specs_lemma.direct_allocators(M, specs) if prop == 'C21' else []
    for n, s in specs.items():
        if prop in s.props or n in extra or n in engine.PART_OF.get(prop, {}):
            vs = list(s.variants)
            if len(vs) == 1:
                out.append((n, None))
            else:
                out += [(n, (v,)) for v in vs]
    # long ones first
    out.sort(key=lambda t: -getattr(specs[t[0]], 'weight', 1))
    return out


def run_tasks(M, specs, tasks, budget, total, opts, found=lambda: False):
    import driver
    ctx = mp.get_context('fork')
    pend = list(tasks)
    live = []
    done = []
    t0 = time.time()

    def child(q, n, vs):
        try:
            r = driver.verify(M, specs, n, dict(opts, budget=budget, variants=vs))
        except BaseException as e:
            r = dict(fn=n, variants=vs, error='internal: %r' % e, obs=[], stats={}, wall=0, loops={}, contracts=[], libc=[], assumptions=[], rets=0)
        q.send(r)
        q.close()
        os._exit(0)
    while pend or live:
        while pend and len(live) < CPUS:
            n, vs = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, n, vs))
            p.start()
            b.close()
            live.append((p, a, n, vs, time.time()))
        mp.connection.wait([x[1] for x in live], timeout=1)
        rest = []
        for p, a, n, vs, ts in live:
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(fn=n, variants=vs, error='the verifier died', obs=[], stats={}, wall=time.time() - ts, loops={}, contracts=[], libc=[], assumptions=[], rets=0)
            elif time.time() - ts > budget + 30 or time.time() - t0 > total:
                r = dict(fn=n, variants=vs, error='time budget exhausted', obs=[], stats={}, wall=time.time() - ts, loops={}, contracts=[], libc=[], assumptions=[], rets=0)
            if r is None:
                rest.append((p, a, n, vs, ts))
            else:
                p.kill() if 'budget' in (r['error'] or '') else None
                p.join()
                done.append(r)
        live = rest
        # a failing input is at hand: once an obligation failed too (or enough time was spent), the rest is not needed
        if (live or pend) and found() and (time.time() - t0 > 150 or any(r['error'] or any(o['ok'] < o['n'] and relevant(o, opts.get('prop'), r['fn']) for o in r['obs']) for r in done)):
            for p, a, n, vs, ts in live:
                p.kill()
                p.join()
            for n, vs in [(n, vs) for p, a, n, vs, ts in live] + pend:
                done.append(dict(fn=n, variants=vs, error='not finished when a failing input was found', obs=[], stats={}, wall=0, loops={}, contracts=[], libc=[], assumptions=[], rets=0))
            return done
        if time.time() - t0 > total and pend:
            for n, vs in pend:
                done.append(dict(fn=n, variants=vs, error='time budget exhausted', obs=[], stats={}, wall=0, loops={}, contracts=[], libc=[], assumptions=[], rets=0))
            pend = []
    return done


def relevant(o, prop, fn):
    import engine
    return engine.counts_for(prop, o['props'], fn, o['name'])


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    total = 3000 if thorough else 660
    budget = 1500 if thorough else 620
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    replay = os.path.join(EVID, 'replays', '%s.json' % prop)
    import driver, build
    failed, results, notes = [], [], []
    found, ninputs = None, 0
    # ---- concrete validation, beside the proofs
    box = {}

    def concrete(seconds, seed, what=prop):
        try:
            import search
            f, n = search.search(what, seed, seconds)
            box['found'] = f
            box['n'] = box.get('n', 0) + n
        except build.BuildError as e:
            box['err'] = 'driver does not build: %s' % str(e)[-1500:]
        except Exception as e:
            box['err'] = 'concrete search: %r' % e
            box['trace'] = traceback.format_exc()[-2000:]
    specs = driver.load_specs()
    M = None
    try:
        M = driver.load_module(specs)
    except Exception as e:
        failed.append(dict(fn='(front end)', name='the current sources can be translated', where='', status=str(e)[-2000:], detail=''))
    if M is not None:
        tasks = tasks_of(specs, prop, M)
        # processes are forked before any thread is started
        pr = mp.get_context('fork')
        rp, rc = pr.Pipe(False)

        def conc_child():
            concrete(60 if thorough else 8, seed)
            rc.send(box)
            os._exit(0)
        cp = pr.Process(target=conc_child)
        cp.start()
        rc.close()
        got = []

        def found_now():
            if not got and rp.poll():
                try:
                    got.append(rp.recv())
                except EOFError:
                    got.append({'err': 'concrete search died'})
            return bool(got and got[0].get('found'))
        results = run_tasks(M, specs, tasks, budget, total, dict(prop=prop, maxfail=4), found_now)
        if got:
            box = got[0]
        elif rp.poll(120):
            try:
                box = rp.recv()
            except EOFError:
                box = {'err': 'concrete search died'}
        else:
            cp.kill()
        cp.join()
    else:
        concrete(20, seed)
    found, ninputs = box.get('found'), box.get('n', 0)
    # ---- judge
    nobs = nok = 0
    rets = {}
    stime = 0.0
    assumptions, libc, fns = set(), set(), {}
    for r in results:
        n = r['fn']
        rets[n] = rets.get(n, 0) + r['rets']
        stime += r['stats'].get('time', 0) or 0
        libc |= set(r['libc'])
        assumptions |= set(r['assumptions'])
        d = fns.setdefault(n, dict(obligations=0, discharged=0, wall=0, callee_contracts=set()))
        d['wall'] = round(d['wall'] + r['wall'], 2)
        d['callee_contracts'] |= set(r['contracts'])
        if r['error']:
            failed.append(dict(fn=n, name='the function is verified (%s)' % (r['variants'] or 'all cases',), where='', status=r['error'], detail=''))
            nobs += 1
        for o in r['obs']:
            if not relevant(o, prop, n):
                continue
            nobs += o['n']
            nok += o['ok']
            d['obligations'] += o['n']
            d['discharged'] += o['ok']
            if o['ok'] < o['n']:
                failed.append(o)
    for n, k in rets.items():
        if k == 0 and specs[n].must_return and not any(f['fn'] == n for f in failed):
            failed.append(dict(fn=n, name='some path returns', where='', status='no path returns', detail=''))
            nobs += 1
    for d in fns.values():
        d['callee_contracts'] = sorted(d['callee_contracts'])
    if failed and not found:
        # look harder for a failing input; when a part borrowed from the contract of another function fails, also where that function is tried out
        import engine
        part = engine.PART_OF.get(prop, {})
        others = sorted({specs[f['fn']].props[0] for f in failed if f['fn'] in part} - {prop})
        for k in range(1, 4):
            left = (total + 250) - (time.time() - t0) - 60
            if left < 10:
                break
            box2 = dict(box)
            box.clear()
            if k == 1 and others:
                for w in others[:2]:
                    concrete(min(25, left / 2), seed + 7919, w)
                    if box.get('found'):
                        break
                    box = dict(n=box.get('n', 0))
            else:
                concrete(min(50, left), seed + 7919 * k)
            ninputs += box.get('n', 0)
            if box.get('err'):
                notes.append(box['err'])
                break
            if box.get('found'):
                found = box['found']
                break
    if box.get('err'):
        notes.append(box['err'])
    # ---- report
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    bad = bool(failed or found)
    trusted = ['clang 18 -O0 front end and the LLVM passes always-inline and sroa', 'vc/ (this verifier: symbolic execution, memory model, invariant checking)', 'z3 %s' % zver()]
    trusted += ['libc contract: ' + x for x in sorted(libc)]
    trusted += ['contract assumed, its function is not verified: ' + c for c in sorted({c for d in fns.values() for c in d['callee_contracts'] if c in specs and not specs[c].props})]
    base_assumptions = ['strings and allocations are below 2 GiB / 2^46 bytes', 'memory is accessed with the type it was stored with (effective types)', 'signed machine arithmetic wraps; pointer formation by itself is not checked, accesses are',
                        'LC_CTYPE character classes are those of ASCII for bytes below 128 and empty above', 'the libc contracts listed in trusted_base']
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level='proof',
              coverage=dict(obligations=nobs, discharged=nok, checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier), trusted_base=trusted,
                            functions=fns, backend='z3 %s' % zver(), solver_s=round(stime, 2), contract_validation_inputs=ninputs,
                            failed=[dict(fn=f['fn'], obligation=f['name'], where=f['where'], status=str(f['status'])[:500]) for f in failed][:40]),
              assumptions=base_assumptions + sorted(assumptions) + sorted(getattr(sys.modules['driver'], 'ASSUME', {}).get(prop, [])) + notes,
              wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    if bad:
        json.dump(dict(property=prop, failing_input=found, how='replay/run.py: the driver line "line" below, run on the real code' if found else None,
                       failed_obligations=[{k: (v if not isinstance(v, bytes) else v.hex()) for k, v in f.items()} for f in failed][:60], notes=notes), open(replay, 'w'), indent=1, default=repr)
        for f in failed[:6]:
            print('failed obligation: %s: %s [%s] %s' % (f['fn'], f['name'], f['where'], str(f['status'])[:200]))
        if found:
            print('failing input: %s' % found['note'])
            print('  expected %s' % found['expected'][:300])
            print('  actual   %s' % found['actual'][:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    print('%s: %d obligations of %d functions discharged, %d inputs replayed, %.0f s' % (prop, nok, len(fns), ninputs, time.time() - t0))
    sys.exit(0)


def zver():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        rp = os.path.join(EVID, 'replays', p + '.json')
        json.dump(dict(property=p, internal_error=traceback.format_exc()), open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, rp))
        sys.exit(1)

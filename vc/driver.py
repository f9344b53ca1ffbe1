"""Runs the verifier on a set of functions."""
import sys, os, time, re, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, ir
import engine as E
from contracts import LIBC


def load_specs():
    import specs_filter
    S = dict(specs_filter.SPECS)
    for m in ('specs_table', 'specs_load', 'specs_list', 'specs_seq', 'specs_file', 'specs_parse', 'specs_conf', 'specs_yacc', 'specs_main', 'specs_lemma'):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        S.update(mod.SPECS)
    import specs_lemma
    for n in specs_lemma.DEFAULT_SEQUENCE:
        if 'C07' not in S[n].props:
            S[n].props = tuple(S[n].props) + ('C07',)
    return S


KEEP = {'yyparse', 'yylex', 'yyerror'}


def load_module(specs):
    text = build.front({n for n in specs if n.isidentifier()} | KEEP)
    M = ir.parse(text)
    i = text.find('\ndefine ')
    M.body_text = text[i:]
    M.text = text
    return M


def verify(M, specs, name, opts=None):
    """-> result dict (picklable)"""
    t0 = time.time()
    contracts = dict(LIBC)
    contracts.update(specs)
    eng = E.Engine(M, contracts, opts)
    s = specs[name]
    err = None
    eng.deadline = t0 + (opts or {}).get('budget', 400)
    try:
        s.verify(eng)
    except E.Unsupported as e:
        err = 'not supported by the verifier: %s' % e
        if eng.opts.get('verbose'):
            traceback.print_exc()
    except E.Enough:
        pass                        # failed obligations are recorded; the rest of the function is not examined
    except E.Budget:
        err = 'time budget exhausted'
    except RecursionError:
        err = 'recursion limit'
    except ir.IRError as e:
        err = 'front end: %s' % e
    except Exception as e:
        err = 'internal: %r' % e
        if eng.opts.get('verbose'):
            traceback.print_exc()
    obs = []
    for (f, n, w), o in eng.obs.items():
        obs.append(dict(fn=f, name=n, where=w, props=o.props, n=o.n, ok=o.ok, status=o.status, time=round(o.time, 3), model=o.model, detail=o.detail))
    return dict(fn=name, variants=(opts or {}).get('variants'), rets=getattr(eng, 'rets', 0), error=err, obs=obs, stats=eng.stats, wall=time.time() - t0, loops={'%s %s' % k: v for k, v in eng.loopreport.items()},
                contracts=sorted(eng.used_contracts), libc=sorted(eng.used_libc), assumptions=list(eng.assumptions))


if __name__ == '__main__':
    specs = load_specs()
    t = time.time()
    M = load_module(specs)
    print('front end %.1fs' % (time.time() - t))
    for n in sys.argv[1:]:
        r = verify(M, specs, n, dict(verbose=int(os.environ.get('V', '1'))))
        print(n, r['error'] or 'no error', '%.1fs' % r['wall'], r['stats'])
        for o in r['obs']:
            print('   %-8s %d/%d %5.2fs %s  [%s] %s' % (o['status'], o['ok'], o['n'], o['time'], o['name'], o['where'], o['props'] or ''))
        for k, v in r['loops'].items():
            print('   loop', k, v)

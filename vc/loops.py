"""Loops: bounded ones are unrolled completely; for the others an inductive invariant is inferred
(Houdini over candidate formulas), then the body is verified once, for an arbitrary iteration."""
import copy
from collections import OrderedDict
from term import *
from engine import *
import engine as E

UNROLL = 8
UNROLL_STATES = 48


class View:
    """what a candidate formula may talk about"""
    def __init__(self, eng, st, phi, init, types, entry, it, spec):
        self.eng, self.st, self.phi, self.init, self.types = eng, st, phi, init, types
        self.entry, self.it, self.spec = entry, it, spec

    def ptrs(self):
        return [n for n in self.phi if self.types[n][0] == 'ptr']

    def ints(self):
        return [n for n in self.phi if self.types[n][0] == 'int' and self.types[n][1] != 1]


class Cand:
    def __init__(self, label, fn):
        self.label, self.fn = label, fn

    def at(self, v):
        try:
            return self.fn(v)
        except KeyError:
            return None


class Loop:
    pass


def log_since(st, mark):
    out = []
    w = st.wlog
    while w is not mark:
        if w is None:
            break
        w, d = w
        out.append(d)
    return out[::-1]


def do_loop(eng, st0, fn, header, pred):
    b = fn.blocks[header]
    body = fn.loops[header]
    iv = eng.phi_vals(st0, b, pred)
    key_ = (fn.name, header)
    nested = any(h != header and h in body for h in fn.loops)
    if not nested and key_ not in eng.loopcache.setdefault('nounroll', set()):
        outs = try_unroll(eng, st0, fn, header, body, iv)
        if outs is not None:
            return outs
        eng.loopcache['nounroll'].add(key_)
    return invariant_loop(eng, st0, fn, header, body, iv)


def try_unroll(eng, st0, fn, header, body, iv):
    L = Loop()
    L.header, L.body = header, body
    b = fn.blocks[header]

    def go(limit):
        s = st0.copy()
        s.env.update({n: v for n, (t, v) in iv.items()})
        frontier = [s]
        exits = []
        for n in range(getattr(eng.spec, 'unroll', UNROLL) + 1):
            nxt = []
            for s in frontier:
                for o in eng.run_from(s, fn, header, None, L):
                    if o[0] == 'back':
                        s2 = o[1]
                        eng.phis(s2, b, o[2])
                        nxt.append(s2)
                    else:
                        exits.append(o)
                if limit and len(exits) + len(nxt) > getattr(eng.spec, 'unroll_states', UNROLL_STATES):
                    return None
            if not nxt:
                return exits
            frontier = nxt
        return None
    rec = eng.record
    eng.record = False
    try:
        r = go(True)
    except Unsupported:
        r = None
    finally:
        eng.record = rec
    if r is None:
        return None
    eng.loopreport[(fn.name, eng.M.line(loop_dbg(fn, header)))] = 'fully unrolled'
    if rec:
        return go(False)
    return r


def loop_dbg(fn, header):
    for i in fn.blocks[header].ins[::-1]:
        if i.dbg:
            return i.dbg
    return None


def invariant_loop(eng, st0, fn, header, body, iv):
    L = Loop()
    L.header, L.body = header, body
    b = fn.blocks[header]
    mark_serial = serial()
    types = {n: t for n, (t, v) in iv.items()}
    init = {n: v for n, (t, v) in iv.items()}
    spec = eng.spec
    shapes = {n: [v.o] for n, (t, v) in iv.items() if t[0] == 'ptr'}
    L.writes = []          # descriptors
    L.alloc = False
    L.ghosts = set()
    L.noise = set()        # kinds of events of earlier iterations
    L.strdead = False

    def view(st, phi, it):
        return View(eng, st, phi, init, types, st0, it, spec)

    # candidates
    v0 = view(st0, init, 0)
    cands = generic_cands(eng, v0) + (spec.candidates(v0) if spec is not None else [])
    rec = eng.record
    eng.record = False
    active = []
    done = set()

    def add_cands(cs):
        for c in cs:
            if c.label in done:
                continue
            done.add(c.label)
            f = c.at(v0)
            if f is None:
                continue
            if holds(eng, st0, f):
                active.append(c)
    add_cands(cands)
    rounds = 0
    cached = eng.loopcache.get((fn.name, header))
    if cached:
        # start from what was needed before (only an optimisation: everything is re-checked)
        active = [c for c in active if c.label not in cached['dropped']]
        for n in shapes:
            if n in cached['shapes']:
                if cached['shapes'][n] is None:
                    shapes[n] = None
        L.alloc = cached['alloc']
        L.ghosts = set(cached['ghosts'])
        L.noise = set(cached['noise'])
    dropped = set()
    oneof = {}
    # a round that changes nothing can count as the final pass, when its obligations were recorded
    early = rec and getattr(spec, 'record_rounds', False)
    settled = None
    try:
        while True:
            rounds += 1
            if early and rounds > 1:
                saved = copy_obs(eng), getattr(eng, 'nfail', 0)
                eng.opts['maxfail'], maxfail = 10 ** 6, eng.opts.get('maxfail', 10 ** 6)
                eng.record = True
            settled = None
            if rounds > 14:
                raise Unsupported('invariant inference did not converge')
            changed = False
            outs = []
            cmps = []
            rd = eng.record
            for hs, phi, it in header_states(eng, st0, L, iv, shapes, active, view):
                old = eng.loopcmp
                eng.loopcmp = []
                try:
                    os_ = eng.run_from(hs, fn, header, None, L)
                finally:
                    cmps += eng.loopcmp
                    if old is not None:
                        old += eng.loopcmp
                    eng.loopcmp = old
                outs += [(o, phi, it, hs) for o in os_]
            eng.record = False
            if rd:
                settled, (eng.obs, eng.nfail) = (outs, eng.obs, getattr(eng, 'nfail', 0)), saved
                eng.opts['maxfail'] = maxfail
            newshape = {}
            for o, phi, it, hs in outs:
                if o[0] != 'back':
                    continue
                s = o[1]
                nv = eng.phi_vals(s, b, o[2])
                nphi = {n: v for n, (t, v) in nv.items()}
                # object identity
                for n, alts in shapes.items():
                    if alts is None:
                        continue
                    p = nphi[n]
                    if any(eng.same_obj(s, p.o, a) is True for a in alts):
                        continue
                    if within(p.o, mark_serial) and len(alts) < 3:
                        newshape.setdefault(n, alts).append(p.o) if n in newshape else newshape.__setitem__(n, alts + [p.o])
                    elif eng.holds(s, eq(p.o, 0)) and len(alts) < 3:
                        newshape[n] = newshape.get(n, alts) + [0]
                    else:
                        newshape[n] = None
                        shapes[n] = None
                    changed = True
                # writes
                for d in log_since(s, L.mark):
                    if not covered(eng, s, d, L, st0, mark_serial):
                        changed = True
                if not L.alloc and key(s.next) != key(hs.next):
                    L.alloc = True
                    changed = True
                for e in s.events[len(hs.events):]:
                    ks = set(e[2]) if e[0] == 'loop' else {e[0]}
                    if not ks <= L.noise:
                        L.noise |= ks
                        changed = True
                for g in s.ghost:
                    if s.ghost.get(g) is not hs.ghost.get(g) and g not in L.ghosts and not same_ghost(s.ghost.get(g), hs.ghost.get(g)):
                        L.ghosts.add(g)
                        changed = True
            for n, a in newshape.items():
                u = []
                for x in (a or []):
                    if not any(const_diff(x, y) == 0 for y in u):
                        u.append(x)
                shapes[n] = u if a is not None else None
            if any(a is None for a in newshape.values()):
                L.writes[:] = []          # they were found under an assumption about the pointers that does not hold
            if changed:
                continue
            # candidate formulas
            for o, phi, it, hs in outs:
                if o[0] != 'back':
                    continue
                s = o[1]
                nphi = {n: v for n, (t, v) in eng.phi_vals(s, b, o[2]).items()}
                vv = view(s, nphi, add(it, 1))
                for c in list(active):
                    f = c.at(vv)
                    if f is None or not holds(eng, s, f):
                        active.remove(c)
                        dropped.add(c.label)
                        changed = True
            # comparands seen in the body give bounds
            before = len(done)
            nact = len(active)
            add_cands(bound_cands(eng, view, iv, cmps, mark_serial, outs))
            if len(active) != nact:
                changed = True
            if rounds == 1:
                n1 = len(active)
                add_cands(oneof_cands(eng, iv, outs, b))
                changed = changed or len(active) != n1
            if not changed:
                break
    finally:
        eng.record = rec
    c = eng.loopcache.setdefault((fn.name, header), dict(dropped=set(), shapes={}, alloc=False, ghosts=set(), noise=set()))
    c['dropped'] |= dropped
    c['alloc'] = c['alloc'] or L.alloc
    c['ghosts'] |= L.ghosts
    c['noise'] |= L.noise
    for n in shapes:
        if shapes[n] is None:
            c['shapes'][n] = None
    where = eng.M.line(loop_dbg(fn, header))
    eng.loopreport[(fn.name, where)] = [c.label for c in active]
    if eng.opts.get('verbose') and rec:
        print('  loop %s %s: rounds=%d inv=%s writes=%s' % (header, where, rounds, [c.label for c in active],
                                                           [d[:2] for d in L.writes]))
    final = []
    if rec:
        if settled is not None:
            outs, eng.obs, eng.nfail = settled
            if eng.nfail >= eng.opts.get('maxfail', 10 ** 6):
                raise E.Enough()
        else:
            outs = []
            for hs, phi, it in header_states(eng, st0, L, iv, shapes, active, view):
                outs += [(o, phi, it, hs) for o in eng.run_from(hs, fn, header, None, L)]
        nb = sum(1 for o in outs if o[0][0] == 'back')
        for c in active:
            k = (eng.fname, 'loop invariant: ' + c.label, where)
            ob = eng.obs.get(k)
            if ob is None:
                ob = eng.obs[k] = Ob(k[1], where, None)
            ob.n += nb + 1
            ob.ok += nb + 1
        if spec is None or spec.must_terminate(fn, header):
            termination(eng, outs, L, b, iv, where)
    for o, phi, it, hs in outs:
        if o[0] != 'back':
            final.append(o)
    return final


def copy_obs(eng):
    return OrderedDict((k, copy.copy(o)) for k, o in eng.obs.items())


def same_ghost(a, b):
    try:
        return key(a) == key(b)
    except Exception:
        return a is b


def holds(eng, st, f):
    if isinstance(f, Clause):
        return f.prove(eng, st, '')
    if isb(f):
        return f
    return eng.prove(st, f, '', timeout=4000)


def assume(eng, st, f):
    if isinstance(f, Clause):
        f.assume(eng, st)
    else:
        st.assume(f)


def header_states(eng, st0, L, iv, shapes, active, view):
    """arbitrary-iteration states, one per combination of pointer shapes"""
    combos = [{}]
    for n, alts in shapes.items():
        if alts is None:
            combos = [dict(c, **{n: None}) for c in combos]
        else:
            combos = [dict(c, **{n: a}) for c in combos for a in alts]
    L.mark = None
    for c in combos:
        st = st0.copy()
        if L.alloc:
            N = fresh('next')
            st.assume(le(st0.next, N))
            st.next = N
        for d in L.writes:
            st.havoc(d)
        if L.noise:
            st.events = st.events + (('loop', L.header, frozenset(L.noise)),)
        for g in L.ghosts:
            st.ghost[g] = spec_ghost(eng, st, g)
        st.wlog = (st.wlog, ('mark',))
        L.mark_id = st.wlog
        phi = {}
        for n, (t, v) in iv.items():
            if t[0] == 'ptr':
                a = c[n]
                if a is None:
                    phi[n] = eng.fresh_val(st, t, n)
                elif isinstance(a, int) and a == 0:
                    phi[n] = NULL
                else:
                    phi[n] = Ptr(a, fresh(n))
                    if not isinstance(a, int):
                        st.assume(ne(a, 0)) if len(shapes[n]) > 1 else None
            else:
                phi[n] = eng.fresh_val(st, t, n)
        it = fresh('it')
        st.assume(le(0, it))
        st.env.update(phi)
        st.trace = st.trace + ('loop@' + L.header,)
        v = view(st, phi, it)
        L.mark = st.wlog
        for cd in active:
            f = cd.at(v)
            if f is not None:
                assume(eng, st, f)
        for n, (t, v0) in iv.items():
            # an offset that the invariant pins down is written as such
            if t[0] == 'ptr' and c[n] is None and eng.holds(st, eq(phi[n].f, 0)):
                phi[n] = Ptr(phi[n].o, 0)
                st.env[n] = phi[n]
        if st.feasible():
            yield st, phi, it


def spec_ghost(eng, st, g):
    h = getattr(eng.spec, 'fresh_ghost', None)
    r = h(eng, st, g) if h else None
    return r if r is not None else fresh('ghost_' + g)


def covered(eng, s, d, L, st0, serial_):
    if d[0] == 'mark':
        return True
    cls = d[1]
    for w in L.writes:
        if w[1] != cls:
            continue
        if w[0] == 'all':
            return True
        if w[0] == d[0] == 'cell' and const_diff(w[2], d[2]) == 0 and const_diff(w[3], d[3]) == 0:
            return True
        if w[0] == 'obj' and d[0] in ('cell', 'obj', 'range') and eng.same_obj(s, w[2], d[2]) is True:
            return True
        if w[0] == d[0] == 'pred' and w[2] is d[2]:
            return True
        if w[0] == 'pred' and d[0] == 'cell' and eng.holds(s, w[2](d[2], d[3])):
            return True
        if w[0] == d[0] == 'since' and eng.le_next(w[2], d[2]):
            return True
        if w[0] == 'since' and d[0] in ('cell', 'obj', 'range') and eng.holds(s, le(w[2], d[2])):
            return True
    if d[0] == 'fresh':
        return True
    if d[0] == 'since':
        L.writes.append(d)
        return False
    if d[0] in ('cell', 'obj', 'range'):
        o = d[2]
        if eng.holds(s, le(st0.next, o)):
            return True        # allocated inside the loop
        if within(o, serial_):
            if d[0] == 'cell' and within(d[3], serial_):
                L.writes.append(d)
            else:
                L.writes[:] = [w for w in L.writes if not (w[0] == 'cell' and w[1] == cls and const_diff(w[2], o) == 0)]
                L.writes.append(('obj', cls, o))
            return False
    if d[0] == 'pred':
        L.writes.append(d)
        return False
    if d[0] in ('cell', 'obj', 'range') and getattr(eng, 'pre', None) is not None and eng.holds(s, le(eng.pre.next, d[2])):
        # an object created by this function
        L.writes[:] = [w for w in L.writes if not (w[0] in ('cell', 'obj') and w[1] == cls and eng.holds(s, le(eng.pre.next, w[2])))]
        L.writes.append(('since', cls, eng.pre.next))
        return False
    if d[0] == 'cell' and eng.frame is not None:
        # cells the contract lets the function write
        for w in getattr(eng.frame, 'mods', ()):
            if w[0] == 'pred' and w[1] == cls and eng.holds(s, w[2](d[2], d[3])):
                L.writes.append(w)
                return False
    L.writes.append(('all', cls))
    return False


# ---------------------------------------------------------------- candidates
def generic_cands(eng, v):
    out = []
    names = list(v.phi)
    strs = list(v.entry.strs)

    def C(label, fn):
        out.append(Cand(label, fn))
    for n in v.ptrs():
        C('%s does not move back' % n, lambda w, n=n: le(w.init[n].f, w.phi[n].f) if not nul(w, n) else None)
        C('%s does not move forward' % n, lambda w, n=n: le(w.phi[n].f, w.init[n].f) if not nul(w, n) else None)
        C('%s in bounds' % n, lambda w, n=n: True if nul(w, n) else And(le(0, w.phi[n].f), le(w.phi[n].f, w.st.rdq('size', w.phi[n].o, 0))))
        c = v.entry.const_str(v.init[n])
        if c is not None:
            C('%s inside its constant string' % n, lambda w, n=n, e=v.init[n].f + len(c): None if nul(w, n) else le(w.phi[n].f, e))
        for j, sf in enumerate(strs):
            C('%s inside string %d' % (n, j), lambda w, n=n, sf=sf:
              Imp(And(eq(w.phi[n].o, sf.o)), And(le(sf.f, w.phi[n].f), le(w.phi[n].f, add(sf.f, sf.n)))))
            C('%s strictly inside string %d' % (n, j), lambda w, n=n, sf=sf:
              Imp(And(eq(w.phi[n].o, sf.o)), And(le(sf.f, w.phi[n].f), lt(w.phi[n].f, add(sf.f, sf.n)))))
        C('%s steps with the iteration' % n, lambda w, n=n: None if nul(w, n) else eq(sub(w.phi[n].f, w.init[n].f), w.it))
        for s in (8, 16):
            C('%s steps by %d' % (n, s), lambda w, n=n, s=s: None if nul(w, n) else eq(sub(w.phi[n].f, w.init[n].f), scale(w.it, s)))
    for n in v.ints():
        C('%s >= initial' % n, lambda w, n=n: le(w.init[n], w.phi[n]))
        C('%s <= initial' % n, lambda w, n=n: le(w.phi[n], w.init[n]))
        C('%s >= 0' % n, lambda w, n=n: le(0, w.phi[n]))
        C('%s counts the iteration' % n, lambda w, n=n: eq(sub(w.phi[n], w.init[n]), w.it))
        C('%s counts down' % n, lambda w, n=n: eq(sub(w.init[n], w.phi[n]), w.it))
    if len(names) <= 8:
        q = [n for n in names if v.types[n][0] == 'ptr' or v.types[n][1] != 1]
        for i, a in enumerate(q):
            for c in q[i + 1:]:
                def rel(w, a=a, c=c, s=1):
                    x, y = disp(w, a), disp(w, c)
                    return None if x is None or y is None else eq(x, scale(y, s))
                C('%s and %s move together' % (a, c), rel)
                C('%s and %s move oppositely' % (a, c), lambda w, a=a, c=c, rel=rel: rel(w, a, c, -1))
                kinds = [v.types[a][0], v.types[c][0]]
                if sorted(kinds) == ['int', 'ptr']:
                    i, p = (a, c) if kinds[0] == 'int' else (c, a)
                    for s in (8, 16):
                        C('%s moves by %d with %s' % (p, s, i), lambda w, i=i, p=p, rel=rel, s=s: rel(w, p, i, s))
                C('%s behind %s' % (a, c), lambda w, a=a, c=c: None if disp(w, a) is None or disp(w, c) is None
                  else le(disp(w, a), disp(w, c)))
                C('%s ahead of %s' % (a, c), lambda w, a=a, c=c: None if disp(w, a) is None or disp(w, c) is None
                  else le(disp(w, c), disp(w, a)))
    return out


def nul(w, n):
    p = w.phi[n]
    i = w.init[n]
    return (isinstance(p.o, int) and p.o == 0) or (isinstance(i.o, int) and i.o == 0)


def disp(w, n):
    if w.types[n][0] == 'ptr':
        if nul(w, n):
            return None
        return sub(w.phi[n].f, w.init[n].f)
    return sub(w.phi[n], w.init[n])


def bound_cands(eng, view, iv, cmps, serial_, outs):
    out = []
    hdr = {}
    for o, phi, it, hs in outs:
        for n, x in phi.items():
            t = iv[n][0]
            if t[0] == 'int' and t[1] != 1 and isinstance(x, L):
                hdr[key(x)] = (n, x)
    for a, b in cmps:
        for x, y in ((a, b), (b, a)):
            if not within(y, serial_):
                continue
            for k, (n, hv) in hdr.items():
                d = const_diff(x, hv)
                if d is None or abs(d) > 64:
                    continue
                for c in {0, -d}:
                    lab = '%s <= %s%+d' % (n, str(z(y)).replace('\n', '')[:60], c)
                    out.append(Cand(lab, lambda w, n=n, y=y, c=c: le(w.phi[n], add(y, c))))
                    lab = '%s >= %s%+d' % (n, str(z(y)).replace('\n', '')[:60], c)
                    out.append(Cand(lab, lambda w, n=n, y=y, c=c: le(add(y, c), w.phi[n])))
    return out


def oneof_cands(eng, iv, outs, b):
    """small integers: one of the constants assigned in the loop"""
    vals = {}
    for n, (t, v) in iv.items():
        if t[0] == 'int' and t[1] != 1 and isinstance(v, int):
            vals[n] = {v}
    for o, phi, it, hs in outs:
        if o[0] != 'back':
            continue
        nv = eng.phi_vals(o[1], b, o[2])
        for n in list(vals):
            x = nv[n][1]
            if isinstance(x, int):
                vals[n].add(x)
            elif const_diff(x, phi[n]) != 0:
                del vals[n]
    return [Cand('%s in %s' % (n, sorted(s)), lambda w, n=n, s=s: Or(*[eq(w.phi[n], k) for k in sorted(s)]))
            for n, s in vals.items() if 1 <= len(s) <= 6]


def termination(eng, outs, L, b, iv, where):
    """some measure decreases and stays non-negative on every back edge"""
    backs = [(o, phi, it, hs) for o, phi, it, hs in outs if o[0] == 'back']
    if not backs:
        return
    meas = []
    for n, (t, v) in iv.items():
        if t[0] == 'ptr':
            meas.append(('-' + n, lambda p, st, n=n: scale(p[n].f, -1) if not isnull(p[n]) else None, True))
            meas.append((n, lambda p, st, n=n: p[n].f if not isnull(p[n]) else None, True))
        elif t[1] != 1:
            meas.append(('-' + n, lambda p, st, n=n: scale(p[n], -1), True))
            meas.append((n, lambda p, st, n=n: p[n], True))
    extra = eng.spec.measures(eng) if eng.spec is not None and hasattr(eng.spec, 'measures') else []
    ok = False
    for name, m, rel in meas + [(n, f, False) for n, f in extra]:
        good = True
        for o, phi, it, hs in backs:
            s = o[1]
            nphi = {n: v for n, (t, v) in eng.phi_vals(s, b, o[2]).items()}
            a, c = m(phi, hs), m(nphi, s)
            if a is None or c is None or not eng.holds(s, lt(c, a)):
                good = False
                break
            # bounded below: every value the measure can take while looping is above a fixed bound
            if rel:
                lo = lower_bound(eng, s, hs, m, phi, a, iv)
                if not lo:
                    good = False
                    break
            elif not eng.holds(s, le(0, a)):
                good = False
                break
        if good:
            ok = True
            break
    k = (eng.fname, 'loop terminates', where)
    ob = eng.obs.get(k)
    if ob is None:
        ob = eng.obs[k] = Ob(k[1], where, None)
    ob.n += 1
    if ok:
        ob.ok += 1
    elif ob.status == 'ok':
        ob.status = 'failed'
        ob.detail = 'no decreasing measure found'
        if eng.opts.get('verbose'):
            print('  FAILED termination', where)


def isnull(p):
    return isinstance(p.o, int) and p.o == 0


def lower_bound(eng, s, hs, m, phi, a, iv):
    # offsets stay within the object; integers within their type and a loop-invariant bound
    cands = [0]
    for n, (t, v) in iv.items():
        if t[0] == 'ptr' and not isnull(phi[n]):
            cands.append(scale(s.size(phi[n].o), -1))
        elif t[0] == 'int' and t[1] != 1:
            cands.append(-2 ** 63)
            break
    for c in cands:
        if eng.holds(s, le(sub(c, 1), a)):
            return True
    return False

"""Loops written as loops: `for x in xs { … }` over a sequence of symbolic length.

A call of `Iterator::next` in the header of a natural loop is where the loop is summarised: the body
is run once for an arbitrary element (loops.summarize infers and checks the loop invariant), leaving
the loop early (break, return, ?) at an arbitrary iteration, or going on after the last one."""
import z3
import engine as E
import loops
from engine import *


def succs(term):
    k = term[0]
    if k == 'goto': return [term[1]]
    if k == 'drop': return [term[2]]
    if k == 'switch': return [t for _, t in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == 'assert': return [term[4]]
    if k == 'call': return [term[4]] if term[4] is not None else []
    return []


def uses(x, out, n):
    """locals mentioned (over-approximation): every [int, [...]] is read as a place"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], (list, tuple)) and x[0] < n: out.add(x[0])
        if len(x) == 2 and x[0] == 'i' and isinstance(x[1], int): out.add(x[1])
        for y in x: uses(y, out, n)
    elif isinstance(x, dict):
        for y in x.values(): uses(y, out, n)


def analyse(b):
    """-> {header: (region, dead locals)}"""
    r = b.get('_loops')
    if r is not None: return r
    bbs = b['bbs']; nb = len(bbs); n = len(b['locals'])
    ss = [succs(x[1]) for x in bbs]
    pred = [[] for _ in range(nb)]
    for i, l in enumerate(ss):
        for t in l: pred[t].append(i)
    def reach(i, g):
        seen = set(); st = list(g[i])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += g[x]
        return seen
    # liveness
    gen = []; kill = []
    for stmts, term, line in bbs:
        u, d = set(), set()
        def use(x):
            t = set(); uses(x, t, n); u.update(t - d)
        for s in stmts:
            if s[0] == '=':
                use(s[2]); l, projs = s[1]
                if projs: use(s[1])
                else: d.add(l)
            else: use(s[1:])
        if term[0] == 'call':
            use(term[1]); use(term[2]); l, projs = term[3]
            if projs: use(term[3])
            else: d.add(l)
        elif term[0] == 'drop': pass        # dropping reads nothing the specification sees
        else:
            use(term[1:])
            if term[0] == 'return' and 0 not in d: u.add(0)
        gen.append(u); kill.append(d)
    live = [set(g) for g in gen]; ch = True
    while ch:
        ch = False
        for i in range(nb - 1, -1, -1):
            o = set().union(*[live[t] for t in ss[i]]) if ss[i] else set()
            v = gen[i] | (o - kill[i])
            if v != live[i]: live[i] = v; ch = True
    r = {}
    for i, (stmts, term, line) in enumerate(bbs):
        if term[0] != 'call': continue
        fw = reach(i, ss)
        if i not in fw: continue
        reg = fw & reach(i, pred)
        out = set().union(*[live[t] for t in ss[i]]) | live[i]
        r[i] = (reg | {i}, out)
    b['_loops'] = r
    return r


class Work(list):
    """work list of a region: states that leave it are set aside"""
    def __init__(self, head, region): self.head = head; self.region = region; self.ends = []
    def out(self, nb): return nb == self.head or nb not in self.region


def substv(ex, v, j, i):
    if isinstance(v, Ref): return Ref(v.c, tuple((s[0], z3.substitute(s[1], (j, i)) if isinstance(s[1], z3.ExprRef) else s[1]) + tuple(s[2:]) for s in v.p), v.meta)
    if isinstance(v, IterV): return IterV(v.k, *[substv(ex, x, j, i) for x in v.a])
    if isinstance(v, VecV): return VecV(tuple(substv(ex, x, j, i) for x in v.e), v.ety, v.cap)
    if isinstance(v, Seg): return Seg(z3.substitute(v.n, (j, i)) if isinstance(v.n, z3.ExprRef) else v.n, v.j, substv(ex, v.val, j, i), z3.substitute(v.cond, (j, i)) if isinstance(v.cond, z3.ExprRef) else v.cond)
    if isinstance(v, Adt): return Adt(v.ty, v.v, [substv(ex, x, j, i) for x in v.f])
    if isinstance(v, (tuple, list)): return type(v)(substv(ex, x, j, i) for x in v)
    if isinstance(v, DiscrV): return DiscrV(z3.substitute(v.t, (j, i)), v.ty)
    if v is None or callable(v): return v
    if isinstance(v, str): return v
    return ex.subst(v, j, i)


def ahead(ex, st, it):
    """the segment of symbolic length the iterator is about to enter: (n, j, element, reference?, stages, iterator after it)"""
    import models as M
    stages = []
    def go(it):
        k = it.k
        if k == 'map': r = go(it.a[0]); f = it.a[1]; g = lambda x: IterV('map', x, f); stages.append(('map', f))
        elif k in ('cloned', 'copied'): r = go(it.a[0]); g = lambda x: IterV(k, x); stages.append((k, None))
        elif k == 'enumerate':
            r = go(it.a[0]); stages.append(('enumerate', it.a[1]))
            g = lambda x: IterV('enumerate', x, zi(it.a[1]) + zi(r[0]))
        elif k == 'vec' and len(it.a) == 3 or k == 'vec' and len(it.a) == 4 and it.a[3] == 0:
            v, i, ref = it.a[:3]
            if isinstance(v, VecV):
                if not (isinstance(i, int) and i < len(v.e) and isinstance(v.e[i], Seg) and v.e[i].cond is True): return None
                s = v.e[i]; j = ex.freshc('j', z3.IntSort())
                return s.n, j, ex.subst(s.val, s.j, j), ref, IterV('vec', v, i + 1, ref), v
            if not isinstance(v, Sym) or i != 0 or M.ex_vlen(v) is not None: return None
            j = ex.freshc('j', z3.IntSort())
            return ex.vlen(v.t), j, ex.wrap(ex.elty(v.ty), ex.vat(v.t, j)), ref, IterV('list', ()), v
        elif k == 'range':
            lo, hi = it.a[:2]
            if isint(lo) and isint(hi) or len(it.a) > 2 and it.a[2]: return None
            j = ex.freshc('j', z3.IntSort())
            n = z3.If(zi(lo) < zi(hi), zi(hi) - zi(lo), 0) if not (isint(lo) and lo == 0) else zi(hi)
            if isint(lo) and lo == 0 and (ex.bounds(zi(hi))[0] is None or ex.bounds(zi(hi))[0] < 0): n = z3.If(zi(hi) > 0, zi(hi), 0)
            return n, j, zi(lo) + j if not (isint(lo) and lo == 0) else j, None, IterV('list', ()), None
        elif k == 'chain':
            n0 = len(stages); r = go(it.a[0]); g = lambda x: IterV('chain', x, it.a[1])
            if r is None:
                del stages[n0:]
                if not done(it.a[0]): return None
                return go(it.a[1])
        else: return None
        if r is None: return None
        return r[:4] + (g(r[4]), r[5])
    def done(it):
        if it.k == 'list': return not it.a[0]
        if it.k in ('map', 'cloned', 'copied', 'enumerate'): return done(it.a[0])
        return it.k == 'vec' and isinstance(it.a[0], VecV) and isinstance(it.a[1], int) and it.a[1] >= len(it.a[0].e)
    it0 = M.norm_iter(ex, st, it)
    r = go(it0)
    if r is None: return None
    n, j, el, ref, aft, base = r
    if isint(n): return None
    return n, j, el, ref, stages, aft


def try_loop(ex, st, fr, inst, callee, args, term, bb, visits, work, outs):
    """-> True if the loop whose header ends in this call has been summarised (work/outs extended)"""
    import models as M
    base, b, ltys = fr
    g = analyse(b).get(bb)
    if g is None or not args or not isinstance(args[0], Ref): return False
    v = ex.deref(st, args[0])
    if isinstance(v, Adt) and isinstance(v.ty, Ty) and v.ty.name == 'core::ops::range::Range': v = M.as_iter(ex, st, v)
    if not isinstance(v, IterV):
        if ex.debugloop: print('LOOP?', inst.name, type(v), str(v)[:200])
        return False
    r = M.innermost(ex, st, args[0])
    if v.k == 'byref': return False
    key = (inst.id if hasattr(inst, 'id') else inst.name, bb, id(v))
    if key in ex.__dict__.setdefault('_loopfail', {}): return False
    nu, bounded = len(ex.unsup), dict(ex.bounded)
    np = len(ex.panics) if ex.panics is not None else 0
    try:
        res = attempt(ex, st, fr, inst, callee, v, r, g, term, bb)
    except (Unsupported, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
        if ex.debugloop: print('LOOP', inst.name, bb, type(e).__name__, e)
        if ex.debugloop == 2: raise
        res = None
    if res is None:
        if ex.debugloop: print('LOOP not summarised', inst.name, bb)
        del ex.unsup[nu:]; ex.bounded.clear(); ex.bounded.update(bounded)
        if ex.panics is not None: del ex.panics[np:]
        ex._loopfail[key] = v
        return False
    if ex.debugloop: print('LOOP summarised', [x[-40:] for x in ex.names[-4:]], inst.name, bb, len(res[0]), len(res[1]))
    for s, nb in res[0]: work.append((s, nb, visits))
    outs += res[1]
    return True


def attempt(ex, st, fr, inst, callee, it, r, g, term, bb):
    import models as M
    base, b, ltys = fr
    region, live = g
    oty = callee.ret if callee.ret is not None else M.retty(ex, callee)
    if oty is None: return None
    _, f, ops, dest, target = term
    if dest[1]: return None
    st0 = st.fork()
    h = ahead(ex, st0, it)
    if h is None: return None
    n, j, el, ref, stages, aft = h
    n = zi(n)
    poison = Opq('looping')
    ex.store(st0, r.c, r.p, poison)
    # locals of this frame that nothing reads before writing them are no part of the loop's state
    # (unless something that stays points at them)
    dead = {base + l for l in range(len(b['locals'])) if l not in live and (base + l) in st0.mem and base + l != r.c}
    seen = set(); todo = [v for c, v in st0.mem.items() if c not in dead] + [aft, el]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.c in dead: dead.discard(x.c); todo.append(st0.mem[x.c])
            todo.append(x.meta)
        elif isinstance(x, (tuple, list)): todo += x
        elif isinstance(x, IterV): todo += x.a
        elif isinstance(x, Adt): todo += x.f
        elif isinstance(x, VecV): todo += x.e
        elif isinstance(x, Seg): todo.append(x.val)
        elif isinstance(x, Opq) and isinstance(x.d, (tuple, list)): todo += x.d
    for c in dead: del st0.mem[c]
    stmts = b['bbs'][bb][0]
    elc = []
    def body(s):
        cur = []
        x = ex.ref_to(s, el) if ref is not None else el
        if ref is not None: elc.append(x.c)
        cur = [(s, x)]
        for k, fn in stages:
            nxt = []
            for s1, e in cur:
                if k in ('cloned', 'copied'): nxt.append((s1, ex.deref(s1, e)))
                elif k == 'enumerate': nxt.append((s1, M.TupV(ex, (zi(fn) + j if not (isint(fn) and fn == 0) else j, e))))
                else: nxt += ex.call_value(s1, fn, [e])
            cur = nxt
        res = []
        for s1, e in cur:
            s1.mem[base + dest[0]] = M.some(oty, M.retype(ex, s1, e, oty.args[0]))
            w = Work(bb, region); w.append((s1, target, None)); o2 = []
            while w:
                s2, b2, vis = w.pop()
                if w.out(b2): w.ends.append((s2, b2)); continue
                ex.run_block(s2, fr, inst, b2, vis, w, o2)
            for s2, b2 in w.ends:
                if b2 == bb:
                    for q in stmts:
                        if q[0] != '=': raise Unsupported('loop header')
                        if q[1][1]: raise Unsupported('loop header')
                        s2.mem[base + q[1][0]] = ex.rvalue(s2, fr, q[2], ltys[q[1][0]])
                    if ref is not None and s2.mem.get(elc[-1]) is not el: raise Unsupported('elements changed in place')
                    res.append((s2, ('go',)))
                else: res.append((s2, ('to', b2)))
            res += [(s2, ('ret', v)) for s2, v in o2]
        return res
    nu = len(ex.unsup)
    o = loops.summarize(ex, st0, n, j, body, lambda x: x[0] != 'go', skip=(base + dest[0],))
    if o is None or len(ex.unsup) > nu: return None
    cur, conds, cont, exit_at = o
    ok = Or(*[conds(s1) for s1, x in cont])
    nxt, ret = [], []
    known = set(st0.mem)
    for s1, x in cur:
        if x[0] == 'go': continue
        i = ex.fresh('i', z3.IntSort())
        s = exit_at(s1, i)
        if ok is not True: s.addlazy(M.forall(ex, j, i, ok))
        for c, y in s1.mem.items():
            if c not in known: s.mem[c] = substv(ex, y, j, i)
        if not ex.feasible(s): continue
        if x[0] == 'to': nxt.append((s, x[1]))
        else: ret.append((s, substv(ex, x[1], j, i)))
    if ok is not True: st0.addlazy(M.forall(ex, j, n, ok))
    if not ex.feasible(st0): return nxt, ret
    # go on behind the segment
    ex.store(st0, r.c, r.p, aft)
    if aft.k == 'list' and not aft.a[0]:
        st0.mem[base + dest[0]] = M.none(oty); nxt.append((st0, target))
    else:
        for s, e, i2 in M.inext(ex, st0, aft) if not again(ex, st0, aft) else [(st0, None, None)]:
            if i2 is None: nxt.append((s, bb)); continue
            ex.setref(s, r, i2)
            s.mem[base + dest[0]] = M.none(oty) if e is M.STOP else M.some(oty, M.retype(ex, s, e, oty.args[0]))
            nxt.append((s, target))
    return nxt, ret


def again(ex, st, it):
    try: return ahead(ex, st.fork(), it) is not None
    except Unsupported: return False

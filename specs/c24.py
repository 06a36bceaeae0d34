"""cw721-roles: role NFTs whose weights are voting power."""
from spec import *
from common import *

TK, MB, TT, NT, HK, OW, OP = 'tokens', 'members', 'total', 'num_tokens', 'hooks', 'ownership', 'operators'


def w(t): return t.some.extension.weight
def val(t, f): return z3.If(t.issome, zi(raw(f(t))), 0)


def follows(P, o, c, tid):
    """what an account's weight changes by is what its tokens change by; only token tid changes"""
    a, b = c.pre(TK, tid), o.post(TK, tid); k = o.skolem(TK); who = z3.FreshConst(E.StrS, 'who')
    P.ob(o, 'no other token changes', z3.Implies(k != raw(tid), o.post(TK, k) == c.pre(TK, k)))
    own = lambda t: z3.If(z3.And(t.issome, t.some.owner == who), zi(raw(w(t))), 0)
    P.ob(o, 'the weight of every account follows the weights of its tokens', o.post(MB, who).val(0) - c.pre(MB, who).val(0) == own(b) - own(a))
    P.ob(o, 'the total is the sum of the weights', o.post(TT).val(0) - c.pre(TT).val(0) == o.delta(MB, lambda v: v.val(0)))
    P.ob(o, 'changes are recorded at this block', z3.And(*[o.recorded(ns) for ns in (MB, TT) if ns in o.written()]))
    P.ob(o, 'tokens are counted', o.post(NT).val(0) - c.pre(NT).val(0) == z3.If(b.issome, 1, 0) - z3.If(a.issome, 1, 0))


def told_diff(P, o, c, who, old, new, extra=0):
    """every hook is told the old and new weight of who, nothing else is sent"""
    ms = o.msgs(); ty = c.adt('cw4', 'hook::MemberChangedHookMsg')
    wrap = next((t for t in c.ex.mir.tys.values() if t.s == 'cw4::hook::MemberChangedExecuteMsg'), None)
    if wrap is None: raise Lost('payload of the membership hook')
    def f(d):
        ds = only(d.as_('MemberChangedHook')[0], 'diffs')
        x = ds.at(0)
        return z3.And(ds.n == 1, x.key == who, raw(x.old) == raw(old), raw(x.new) == raw(new))
    for i, m in enumerate(ms): P.ob(o, f'message {i} tells a hook the old and the new weight', guarded(m, to_hooks(c, m, HK, wrap, f)))
    P.ob(o, 'every hook is told', told(o, c, HK, ms))


def handed(c, o, t, to):
    k = o.skolem(MB); a, b = c.pre(MB, k), o.post(MB, k)
    yield [o.post(TT).val(0) == c.pre(TT).val(0)]
    moved = a.val(0) - z3.If(t.owner == k, zi(raw(t.extension.weight)), 0) + z3.If(raw(to) == k, zi(raw(t.extension.weight)), 0)
    yield [b == a, b.val(0) == moved]


def opt(c, x): return V(c.ex, None, x)


def check(P):
    c = P.contract('cw721_roles')
    c.run_all('contract::execute', skip=('Extension',))
    runs = [(r, r.name.split('.')[-1], r.msg.as_(r.name.split('.')[-1])) for r in c.runs]
    x = c.run('contract::execute', 'Extension')
    for r, v, m in runs:
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            P.ob(o, 'only the owner', is_owner(c, c.sender))
            if v == 'Mint':
                t = o.post(TK, m.token_id); old = c.pre(MB, m.owner)
                P.ob(o, 'a new token, as asked', z3.And(c.pre(TK, m.token_id).isnone, t.issome, t.some.owner == m.owner, raw(t.some.token_uri) == raw(m.token_uri), t.some.extension.weight == m.extension.weight, raw(t.some.extension.role) == raw(m.extension.role), t.some.approvals.n == 0))
                follows(P, o, c, m.token_id)
                told_diff(P, o, c, m.owner, old, c.some(old.val(0) + m.extension.weight))
                frame(P, o, TK, MB, TT, NT)
            elif v == 'Burn':
                t = c.pre(TK, m.token_id); who = t.some.owner; old = c.pre(MB, who)
                P.ob(o, 'the token is gone', z3.And(t.issome, o.post(TK, m.token_id).isnone))
                follows(P, o, c, m.token_id)
                left = old.val(0) - w(t)
                told_diff(P, o, c, who, old, z3.If(left == 0, c.ex.none(z3.IntSort()), c.some(left)))
                frame(P, o, TK, MB, TT, NT)
            elif v in ('TransferNft', 'SendNft'):
                to = m.recipient if v == 'TransferNft' else m.contract; t, u = c.pre(TK, m.token_id), o.post(TK, m.token_id)
                P.ob(o, 'the token goes to the recipient, without approvals', z3.And(t.issome, u.issome, u.some.owner == to, u.some.approvals.n == 0, same_but(u.some, t.some, 'owner', 'approvals')))
                follows(P, o, c, m.token_id)  # known finding: the weight stays with the former owner; nothing else may happen to it
                P.ob(o, 'handing a token on changes no total and no weight but those of the two owners', z3.And(*[z3.Or(*t) for t in handed(c, o, t.some, to)]))
                if v == 'SendNft':
                    rt = c.adt('cw721', 'receiver::Cw721ReceiveMsg')
                    P.ob(o, 'one message', o.nmsgs() == 1)
                else: no_msgs(P, o)
                frame(P, o, TK)
            elif v in ('Approve', 'Revoke'):
                t, u = c.pre(TK, m.token_id), o.post(TK, m.token_id)
                P.ob(o, 'only approvals change', z3.And(t.issome, u.issome, same_but(u.some, t.some, 'approvals')))
                follows(P, o, c, m.token_id); no_msgs(P, o); frame(P, o, TK)
            elif v in ('ApproveAll', 'RevokeAll'): no_msgs(P, o); frame(P, o, OP)
            elif v == 'UpdateOwnership': ownership(P, c, o); no_msgs(P, o); frame(P, o, OW)
            else: raise Lost('unknown message ' + v)
    e = x.msg.as_('Extension').msg
    P.reach(x.oks, 'extension messages succeed')
    for vn in ('AddHook', 'RemoveHook', 'UpdateTokenUri', 'UpdateTokenWeight', 'UpdateTokenRole'): P.reach(x.oks, f'{vn} succeeds', [e.is_(vn)])
    for o in x.oks:
        P.ob(o, 'only the owner', is_owner(c, c.sender))
        tok = lambda vn: e.as_(vn).token_id
        W = e.as_('UpdateTokenWeight'); t, u = c.pre(TK, W.token_id), o.post(TK, W.token_id)
        isw = e.is_('UpdateTokenWeight')
        P.ob(o, 'weights change only where asked', z3.Implies(z3.Not(isw), z3.And(o.unchanged(MB), o.unchanged(TT), o.nmsgs() == 0)))
        P.ob(o, 'the token gets the weight asked for', z3.Implies(isw, z3.And(t.issome, u.issome, w(u) == W.weight, same_but(u.some, t.some, 'extension'), raw(u.some.extension.role) == raw(t.some.extension.role))))
        k = o.skolem(TK); who = z3.FreshConst(E.StrS, 'who')
        P.ob(o, 'no other token changes', z3.Implies(z3.And(isw, k != raw(W.token_id)), o.post(TK, k) == c.pre(TK, k)))
        P.ob(o, 'the weight of every account follows the weights of its tokens', z3.Implies(isw, o.post(MB, who).val(0) - c.pre(MB, who).val(0) == z3.If(t.some.owner == who, W.weight - w(t), 0)))
        P.ob(o, 'the total is the sum of the weights', z3.Implies(isw, o.post(TT).val(0) - c.pre(TT).val(0) == o.delta(MB, lambda v: v.val(0))))
        if MB in o.written(): P.ob(o, 'changes are recorded at this block', z3.Implies(isw, z3.And(o.recorded(MB), o.recorded(TT))))
        ms = o.msgs(); wrap = next(y for y in c.ex.mir.tys.values() if y.s == 'cw4::hook::MemberChangedExecuteMsg'); old = c.pre(MB, t.some.owner)
        def f(d):
            ds = only(d.as_('MemberChangedHook')[0], 'diffs'); y = ds.at(0)
            return z3.And(ds.n == 1, y.key == t.some.owner, raw(y.old) == raw(old), y.new.issome, y.new.some == old.val(0) + W.weight - w(t))
        for i, m in enumerate(ms): P.ob(o, f'message {i} tells a hook the old and the new weight', z3.Implies(isw, guarded(m, to_hooks(c, m, HK, wrap, f))))
        P.ob(o, 'every hook is told', z3.Implies(isw, told(o, c, HK, ms)))
        R = e.as_('UpdateTokenRole'); t, u = c.pre(TK, R.token_id), o.post(TK, R.token_id)
        P.ob(o, 'only the role changes', z3.Implies(e.is_('UpdateTokenRole'), z3.And(t.issome, u.issome, same_but(u.some, t.some, 'extension'), w(u) == w(t), raw(u.some.extension.role) == raw(R.role), z3.Implies(k != raw(R.token_id), o.post(TK, k) == c.pre(TK, k)))))
        U = e.as_('UpdateTokenUri'); t, u = c.pre(TK, U.token_id), o.post(TK, U.token_id)
        P.ob(o, 'only the link changes', z3.Implies(e.is_('UpdateTokenUri'), z3.And(t.issome, u.issome, same_but(u.some, t.some, 'token_uri'), raw(u.some.token_uri) == raw(U.token_uri), z3.Implies(k != raw(U.token_id), o.post(TK, k) == c.pre(TK, k)))))
        P.ob(o, 'tokens change only where asked', z3.Implies(e.is_('AddHook', 'RemoveHook'), o.unchanged(TK)))
        h0, h1 = c.pre(HK), o.post(HK); n0 = z3.If(h0.isnone, 0, h0.some.n); ad, rm = e.as_('AddHook').addr, e.as_('RemoveHook').addr
        P.ob(o, 'a hook is added once', z3.Implies(e.is_('AddHook'), z3.And(h1.issome, h1.some.n == n0 + 1, h1.some.at(n0) == ad, h1.some.all(lambda y, j: z3.Implies(j < n0, z3.And(y == h0.some.at(j), y != ad))))))
        P.ob(o, 'a hook is taken out', z3.Implies(e.is_('RemoveHook'), z3.And(h0.issome, h1.issome, h1.some.n == h0.some.n - 1, h0.some.any(lambda y, j: z3.And(y == rm, h1.some.all(lambda z, i: z == h0.some.at(z3.If(i < j, i, i + 1))))))))
        P.ob(o, 'hooks change only where asked', z3.Implies(z3.Not(e.is_('AddHook', 'RemoveHook')), o.unchanged(HK)))
        frame(P, o, TK, MB, TT, HK)
    q = c.run('contract::query', 'Extension'); P.reach(q.oks, 'queries')
    e = q.msg.as_('Extension').msg
    for o in q.oks:
        for vn, rn, get in (('Member', 'MemberResponse', lambda h: (c.pre(MB, e.as_('Member').addr), at_height(c, MB, e.as_('Member').addr, h))), ('TotalWeight', 'TotalWeightResponse', lambda h: (c.pre(TT), at_height(c, TT, None, h)))):
            h = e.as_(vn).at_height; now, then = get(h.some); a = only(o.json(c.adt('cw4', 'query::' + rn)).some, 'weight')
            is_now = lambda v, x: raw(x) == (raw(v) if vn == 'Member' else v.val(0))
            P.ob(o, f'{vn}: now, or as of the start of a block', z3.Implies(e.is_(vn), z3.If(h.isnone, is_now(now, a), is_now(then, a))))
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        P.ob(o, 'starts without weight', z3.And(o.post(TT).issome, o.post(TT).some == 0, o.unchanged(MB), o.unchanged(TK))); no_msgs(P, o)
        ow = o.post(OW); P.ob(o, 'owned by the minter given', z3.And(ow.issome, ow.some.owner.issome, ow.some.owner.some == i.msg.minter))

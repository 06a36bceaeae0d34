"""cw-fund-distributor: a pot of tokens shared by voting power at one height."""
from spec import *
from common import *

H, FP, VC, TP = 'distribution_height', 'funding_period', 'voting_contract', 'total_power'
CB, NB, CC, NC = 'cw20_balances', 'native_balances', 'cw20_claims', 'native_claims'


def power(c, addr, who, h):
    q = c.adt('dao_interface', 'voting::Query')
    return c.smart(q, c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse'), addr, c.make(q, 'VotingPowerAtHeight', address=who, height=c.some(h)))


def total(c, addr, h):
    q = c.adt('dao_interface', 'voting::Query')
    return c.smart(q, c.adt('dao_interface', 'voting::TotalPowerAtHeightResponse'), addr, c.make(q, 'TotalPowerAtHeight', height=c.some(h)))


def share(c, who, bal):
    """what who is entitled to of bal: its part of the voting power at the distribution height, rounded down"""
    ex = c.ex
    p = power(c, c.pre(VC).some, who, c.pre(H).some).some.power
    r = zi(ex.div(ex.mul(p, 10**18), c.pre(TP).some))
    return zi(ex.div(ex.mul(bal, r), 10**18))


def at_j(m, x, j): return z3.substitute(raw(x), (m.j, j))


def paid(P, c, o, bal, cl, cw20, listed):
    """the sender's share of every token listed is settled in full, each by (at most) one payment of the difference"""
    k = o.skolem(cl); a, b = c.pre(cl, k), o.post(cl, k)
    tok = z3.FreshConst(E.StrS, 'tok'); kt = c.key(cl, c.sender, tok)
    due = lambda t: share(c, c.sender, c.pre(bal, t).val(0))
    P.ob(o, 'the share of every token asked for counts as claimed: ' + bal, z3.And(c.pre(bal, tok).issome, o.post(cl, kt).val(0) == due(tok)), listed(tok))
    P.ob(o, 'a claim changes only to the share of it: ' + bal, z3.Or(raw(o.post(cl, kt)) == raw(c.pre(cl, kt)), z3.And(o.post(cl, kt).issome, o.post(cl, kt).some > c.pre(cl, kt).val(0), o.post(cl, kt).some == due(tok))))
    P.ob(o, "nobody else's claims change: " + bal, z3.Implies(c.ex.acc(k, 0, 0) != c.sender, raw(a) == raw(b)))
    ms = [m for m in o.msgs() if kind(o, m, cw20)]
    P.ob(o, 'payments are looked at one by one: ' + bal, B(all(m.j is not None for m in ms) and len(ms) <= 1))
    for m in ms:
        if cw20: t = m.exec.contract_addr; d = c.decode(m.exec.msg, c.adt('cw20', 'msg::Cw20ExecuteMsg')); amt = d.some.as_('Transfer').amount; ok = z3.And(m.is_cw20_transfer(t, c.sender, amt), m.exec.funds.n == 0)
        else: t = m.send.amount.at(0).denom; amt = m.send.amount.at(0).amount; ok = m.is_send1(c.sender, t, amt)
        g = [m.j >= 0, m.j < m.n]; kk = c.key(cl, c.sender, t)
        P.ob(o, 'what was not claimed before is paid to the sender: ' + bal, z3.And(ok, amt > 0, amt == due(t) - c.pre(cl, kk).val(0), amt == o.post(cl, kk).val(0) - c.pre(cl, kk).val(0)), g)
        j2 = z3.FreshConst(z3.IntSort(), 'mj')
        P.ob(o, 'at most one payment of a token: ' + bal, raw(t) != at_j(m, t, j2), o.lastwriters(cl) + g + [j2 > m.j, j2 < m.n])
        q = z3.FreshConst(z3.IntSort(), 'q')
        P.ob(o, 'every growth of a claim is paid: ' + bal, z3.Or(o.post(cl, kt).val(0) == c.pre(cl, kt).val(0), z3.Exists([q], z3.And(q >= 0, q < m.n, at_j(m, t, q) == tok))))
    if not ms: P.ob(o, 'nothing is claimed without a payment: ' + bal, raw(a) == raw(b))


def kind(o, m, cw20):
    """is this (symbolic list of) message(s) executions or sends?"""
    x = z3.simplify(m.is_exec() if cw20 else m.is_send())
    if not (z3.is_true(x) or z3.is_false(x)): raise Lost('mixed messages')
    return z3.is_true(x)


def check(P):
    c = P.contract('cw_fund_distributor')
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            fp = c.pre(FP); ms = o.msgs()
            if v in ('Receive', 'FundNative'):
                P.ob(o, 'only before the funding period ends', z3.And(fp.issome, z3.Not(expired(c, fp.some))))
                no_msgs(P, o)
                ns = CB if v == 'Receive' else NB; k = o.skolem(ns)
                if v == 'Receive':
                    m = r.msg.as_(v)[0]
                    P.ob(o, 'what was received is added', o.post(ns, c.sender).val(0) == c.pre(ns, c.sender).val(0) + m.amount)
                    P.ob(o, 'no other token is touched', z3.Implies(k != c.sender, o.post(ns, k) == c.pre(ns, k)))
                else:
                    f = c.info.funds
                    P.ob(o, 'exactly what was received is added', o.sum_is(o.delta(ns, lambda x: x.val(0)), f, lambda x: x.amount))
                    i, j = z3.FreshConst(z3.IntSort(), 'fi'), z3.FreshConst(z3.IntSort(), 'fj')
                    uniq = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f.n, j != i), f.at(j).denom != f.at(i).denom))
                    d = f.at(i).denom
                    P.ob(o, 'each coin under its denomination', o.post(ns, d).val(0) == c.pre(ns, d).val(0) + f.at(i).amount, [i >= 0, i < f.n, uniq])
                    P.ob(o, 'no other denomination is touched', z3.Or(raw(o.post(ns, k)) == raw(c.pre(ns, k)), f.any(lambda x, i: x.denom == k)))
                frame(P, o, ns)
                continue
            P.ob(o, 'only after the funding period', z3.And(fp.issome, expired(c, fp.some)))

            if v == 'ClaimAll':
                for ns, cl, cw20 in ((CB, CC, True), (NB, NC, False)): paid(P, c, o, ns, cl, cw20, lambda t, ns=ns: [c.pre(ns, t).issome])
                P.ob(o, 'nothing else is sent', B(len(ms) == 2))
                frame(P, o, CC, NC)
            else:
                cw20 = v == 'ClaimCW20'; l = getattr(r.msg.as_(v), 'tokens' if cw20 else 'denoms')
                P.ob(o, 'something is asked for', l.n > 0); li = z3.FreshConst(z3.IntSort(), 'li')
                paid(P, c, o, *((CB, CC) if cw20 else (NB, NC)), cw20, lambda t: [li >= 0, li < l.n, t == l.at(li)])
                P.ob(o, 'nothing else is sent', B(len(ms) == 1))
                frame(P, o, CC if cw20 else NC)
    setup(P, c)
    queries(P, c)


def full(P, c, o, addr, h):
    """the whole that is shared: the (non-zero) total power at the distribution height"""
    t = total(c, addr, h); x = o.post(TP)
    P.ob(o, 'shares are parts of the total power at the distribution height', z3.And(t.issome, x.issome, x.some == t.some.power, x.some > 0))
    P.ob(o, 'the distribution height is the one asked for', z3.And(o.post(H).issome, o.post(H).some == h))


def setup(P, c):
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        m = r.msg; x = o.post(FP)
        P.ob(o, 'set up as asked', z3.And(o.post(VC).issome, o.post(VC).some == m.voting_contract, x.issome, raw(x.some) == raw(after(c, m.funding_period, x.some.ty))))
        full(P, c, o, m.voting_contract, m.distribution_height)
        no_msgs(P, o); frame(P, o, VC, FP, H, TP, 'contract_info')
    r = c.run('contract::migrate', 'RedistributeUnclaimedFunds'); P.reach(r.oks, r.name)
    for o in r.oks:
        P.ob(o, 'the contract was set up', c.pre(VC).issome)
        full(P, c, o, c.pre(VC).some, r.msg.as_('RedistributeUnclaimedFunds').distribution_height)
        no_msgs(P, o); frame(P, o, CB, NB, CC, NC, H, TP)
        for bal, cl in ((CB, CC), (NB, NC)):
            k = o.skolem(cl); t = o.skolem(bal)
            P.ob(o, 'all claims start afresh: ' + cl, o.post(cl, k).isnone)
            P.ob(o, 'what was claimed is taken off, no more: ' + bal, claimed_off(c, o, bal, cl))
            P.ob(o, 'a balance without claims stays: ' + bal, z3.Or(raw(o.post(bal, t)) == raw(c.pre(bal, t)), claimed(c, cl, t)), o.lastwriters(bal))
            P.ob(o, 'a balance with claims is accounted for: ' + bal, z3.Implies(z3.And(c.pre(cl, k).issome, c.ex.acc(k, 0, 1) == t), o.post(bal, t).issome), o.lastwriters(bal))


def claimed(c, cl, t):
    who = z3.FreshConst(E.StrS, 'who')
    return z3.Exists([who], c.pre(cl, c.key(cl, who, t)).issome)


def claimed_off(c, o, bal, cl):
    """the sum of the balances goes down by the sum of the claims, one subtraction per claim"""
    from models import VSUM
    d = raw(o.delta(bal, lambda v: v.val(0)))
    # every iteration takes off the amount of the claim it looks at
    ml = next((c.ex.loopmaps[t.decl().name()] for t in [o.post_t(bal)] if t.decl().name() in c.ex.loopmaps), None)
    rng = [x for x in c.ex.ranges if x[0] == cl]
    if ml is None or not rng: return FALSE
    ns, fixed, n, kf, inv, fullk = rng[-1]
    j = z3.FreshConst(z3.IntSort(), 'cj'); K, T = c.nsty(bal)
    a = OptV(c.ex, T, z3.Select(ml.F(j), ml.at(ml.keyt, j))); b = OptV(c.ex, T, ml.val(j)); cj = c.pre(cl, fullk(kf(j)))
    return z3.And(o.post_t(bal).arg(o.post_t(bal).num_args() - 1) == n,
                  z3.Implies(z3.And(j >= 0, j < n), z3.And(ml.wrote(j), cj.issome, a.issome, b.issome, b.some == a.some - cj.some, ml.at(ml.keyt, j) == c.ex.acc(fullk(kf(j)), 0, 1))))


def queries(P, c):
    e = 'contract::query'; A = lambda n: c.adt('cw_fund_distributor', 'msg::' + n)
    r = c.run(e, 'TotalPower'); P.reach(r.oks, r.name)
    for o in r.oks:
        d = o.json(A('TotalPowerResponse')); P.ob(o, 'the total stored', z3.And(d.issome, only(d.some, 'total_power') == c.pre(TP).val(0)))
    for n, bal, cl, f in (('NativeEntitlement', NB, NC, 'denom'), ('CW20Entitlement', CB, CC, 'token')):
        r = c.run(e, n); P.reach(r.oks, r.name)
        for o in r.oks:
            d = o.json(A(n + 'Response')); m = r.msg.as_(n); t = getattr(m, f)
            P.ob(o, 'the share of it less what was claimed', z3.And(d.issome, d.some.amount == share(c, m.sender, c.pre(bal, t).val(0)) - c.pre(cl, c.key(cl, m.sender, t)).val(0), d.some.amount >= 0))

"""dao-proposal-condorcet: ranked votes, the winner of every pairwise contest, lifecycle."""
from spec import *
from common import *
from dv import count_pass, valid_pct
import models as M

DAO, CF, PR, TL, VT = 'dao', 'config', 'proposals', 'tallys', 'votes'
W, ADD, NEW = 'dao_proposal_condorcet::tally::Tally::winner', 'dao_proposal_condorcet::tally::Tally::add_vote', 'dao_proposal_condorcet::vote::Vote::new'
PERMS = {}


def deref(ex, st, a, inst, i):
    ty = ex.mir.ty(inst.body['locals'][1 + i]); r = ex.strip_refs(ty)
    while isinstance(a, E.Ref): a = ex.load(st, a.c, a.p)
    return mk(ex, r, ex.term(a, r, st))


def won(c, m, left): return c.fn('winner!', raw(m).sort(), z3.IntSort(), c.wsort)(raw(m), zi(raw(left)))
def ranked(c, m, v, p): return c.fn('ranked!', raw(m).sort(), raw(v).sort(), z3.IntSort(), raw(m).sort())(raw(m), raw(v), zi(raw(p)))


def winner_contract(ex, st, inst, a):
    """who wins is some function of the pairwise margins and the power outstanding; which one: see margins()"""
    t = deref(ex, st, a[0], inst, 0); r = ex.mir.ty(inst.body['locals'][0]); ex.wsort = ex.sort(r)
    return [(st, ex.wrap(r, won(ex, t.m, t.power_outstanding)))]


def add_contract(ex, st, inst, a):
    """a vote changes the margins (how: see margins()), the power outstanding, and with them the winner"""
    t = deref(ex, st, a[0], inst, 0); v = deref(ex, st, a[1], inst, 1); p = deref(ex, st, a[2], inst, 2)
    ty = t.ty; s = ex.sort(ty); left = zi(raw(t.power_outstanding)) - zi(raw(p))
    wt = dict(ty.fields(0))['winner']; ex.wsort = ex.sort(wt)
    m2 = ranked(ex, t.m, v, p)
    fs = {'m': m2, 'power_outstanding': left, 'winner': won(ex, m2, left)}
    st.add(left >= 0)   # otherwise the subtraction panics
    ex.setref(st, a[0], ex.wrap(ty, s.constructor(0)(*[fs[n] if n in fs else raw(getattr(t, n)) for n, _ in ty.fields(0)])))
    return [(st, M.UNIT)]


def vote_contract(ex, st, inst, a):
    """a ballot is a ranking of all candidates (see ballot()), as given"""
    r = ex.mir.ty(inst.body['locals'][0]); v = deref(ex, st, a[0], inst, 0); n = deref(ex, st, a[1], inst, 1)
    ok = ex.fn('ranks!', raw(v).sort(), z3.IntSort(), z3.BoolSort())(raw(v), zi(raw(n)))
    res = []
    for s, z in ex.split(st, ok):
        res.append((s, M.ok(r, ex.wrap(r.args[0], ex.fn('ballot!', raw(v).sort(), ex.sort(r.args[0]))(raw(v)))) if z else M.err(r, ex.sym(r.args[1], 'vote_error'))))
    return res


def status(c, p, t, S0=None):
    """(term of the status, hypothesis-free) of a proposal with its tally now"""
    S = p.last_status if S0 is None else V(c.ex, p.last_status.ty, S0); exp = expired(c, t.expiration); ty = S.ty
    early = z3.And(p.min_voting_period.issome, z3.Not(expired(c, p.min_voting_period.some)))
    quorum = count_pass(c, p.total_power - t.power_outstanding, p.total_power, p.quorum)
    w = t.winner
    OPEN, REJ = c.make(ty, 'Open'), c.make(ty, 'Rejected')
    PASS = lambda i: c.make(ty, 'Passed', winner=raw(i))
    return z3.If(z3.Not(S.is_('Open')), raw(S), z3.If(early, OPEN,
           z3.If(z3.And(exp, z3.Not(quorum)), REJ, z3.If(w.is_('Never'), REJ, z3.If(w.is_('None'), z3.If(exp, REJ, OPEN),
           z3.If(w.is_('Undisputed'), z3.If(quorum, PASS(w.as_('Undisputed')[0]), OPEN), z3.If(exp, PASS(w.as_('Some')[0]), OPEN)))))))




def check(P):
    life(P); cells(P); ballot(P)
    for n in (2, 3): margins(P, n)


def life(P):
    c = P.contract('dao_proposal_condorcet', contracts={W: winner_contract, ADD: add_contract, NEW: vote_contract})
    c.run_all('contract::execute')
    vq = c.adt('dao_interface', 'voting::Query'); vr = c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse'); tr = c.adt('dao_interface', 'voting::TotalPowerAtHeightResponse')
    core = c.adt('dao_interface', 'msg::ExecuteMsg')
    dao = c.pre(DAO).some
    hn = c.none(dict(vq.fields(c.vidx(vq, 'TotalPowerAtHeight')))['height'].args[0])
    power = lambda h: c.smart(vq, vr, dao, c.make(vq, 'VotingPowerAtHeight', address=raw(c.sender), height=h)).some.power
    for r in c.runs:
        v = r.name.split('.')[-1]; P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            m = r.msg.as_(v); k = o.skolem(PR) if PR in o.written() else None; ms = o.msgs()
            if v == 'Propose':
                new = [x for x in o.touched(PR)] if hasattr(o, 'touched') else []
                a, b = c.pre(PR, k), o.post(PR, k); t = o.post(TL, k)
                made = z3.And(a != b)
                x, y = b.some, t.some; cf = c.pre(CF).some
                total = c.smart(vq, tr, dao, c.make(vq, 'TotalPowerAtHeight', height=hn)).some.power
                P.ob(o, 'only members propose, something', z3.And(power(hn) > 0, m.choices.n > 0))
                P.ob(o, 'a new proposal, with a tally of its own', z3.Implies(made, z3.And(a.isnone, b.issome, t.issome, x.id == k, x.proposer == c.sender, x.total_power == total, y.power_outstanding == total, y.start_height == c.height)))
                P.ob(o, 'what it proposes, and doing nothing', z3.Implies(made, z3.And(x.choices.n == m.choices.n + 1, only(x.choices.at(m.choices.n), 'msgs').n == 0, x.choices.all(lambda e, i: z3.Implies(i < m.choices.n, raw(e) == raw(m.choices.at(i)))))))
                P.ob(o, 'under the rules of now', z3.Implies(made, z3.And(raw(x.quorum) == raw(cf.quorum), x.close_on_execution_failure == cf.close_proposals_on_execution_failure,
                     raw(y.expiration) == after(c, cf.voting_period, y.expiration.ty), z3.If(cf.min_voting_period.isnone, x.min_voting_period.isnone, z3.And(x.min_voting_period.issome, raw(x.min_voting_period.some) == after(c, cf.min_voting_period.some, y.expiration.ty))))))
                P.ob(o, 'nobody is ahead yet', z3.Implies(made, z3.And(y.m.fld('n') == m.choices.n + 1, y.m.cells.all(lambda e, i: e.is_('Zero')), raw(x.last_status) == status(c, x, y, c.make(x.last_status.ty, 'Open')))))
                k2 = z3.FreshConst(z3.IntSort(), 'other')
                P.ob(o, 'one proposal', z3.Implies(z3.And(made, k2 != k), z3.And(o.post(PR, k2) == c.pre(PR, k2), o.post(TL, k2) == c.pre(TL, k2))))
                no_msgs(P, o); frame(P, o, PR, TL); continue
            if v == 'SetConfig':
                P.ob(o, 'only the DAO', z3.And(c.pre(DAO).issome, dao == c.sender)); config(P, c, o, m[0]); no_msgs(P, o); frame(P, o, CF); continue
            pid = m.proposal_id; t0 = c.pre(TL, pid); t = t0.some; p0, p1 = c.pre(PR, pid), o.post(PR, pid)
            if v == 'Vote':
                t1 = o.post(TL, pid); key = c.key(VT, pid, c.sender); pw = power(c.some(t.start_height)); kk = o.skolem(TL); kv = o.skolem(VT)
                ok = c.ex.fn('ranks!', raw(m.vote).sort(), z3.IntSort(), z3.BoolSort())(raw(m.vote), zi(raw(mm_n(t))))
                P.ob(o, 'only members of when it was proposed, once, in time', z3.And(t0.issome, pw > 0, c.pre(VT, key).isnone, z3.Not(expired(c, t.expiration))))
                P.ob(o, 'a ranking of all choices, kept', z3.And(ok, o.post(VT, key).issome, raw(o.post(VT, key).some) == c.ex.fn('ballot!', raw(m.vote).sort(), raw(o.post(VT, key).some).sort())(raw(m.vote))))
                c.ex.wsort = raw(t.winner).sort(); m2 = ranked(c.ex, t.m, o.post(VT, key).some, pw)
                P.ob(o, 'counts with the power of then, once', z3.And(t1.issome, t1.some.power_outstanding == t.power_outstanding - pw, raw(t1.some.m) == m2, raw(t1.some.winner) == won(c.ex, mk(c.ex, t.m.ty, m2), t.power_outstanding - pw), same_but(t1.some, t, 'm', 'power_outstanding', 'winner')))
                P.ob(o, 'no other vote or tally changes', z3.And(z3.Implies(kk != pid, o.post(TL, kk) == c.pre(TL, kk)), z3.Implies(kv != key, o.post(VT, kv) == c.pre(VT, kv))))
                no_msgs(P, o); frame(P, o, TL, VT); continue
            S = V(c.ex, p0.some.last_status.ty, status(c, p0.some, t))
            P.ob(o, 'no other proposal changes', z3.Implies(k != pid, o.post(PR, k) == c.pre(PR, k)))
            frame(P, o, PR)
            if v == 'Execute':
                pw = power(c.some(t.start_height)); win = S.as_('Passed').winner; p = p0.some
                P.ob(o, 'only members, only when passed', z3.And(t0.issome, p0.issome, pw > 0, S.is_('Passed')))
                P.ob(o, 'once', z3.And(p1.issome, p1.some.last_status.is_('Executed'), same_but(p1.some, p, 'last_status')))
                P.ob(o, "the winner's messages go to the DAO, exactly", z3.And(B(len(ms) == 1), win < p.choices.n, *[z3.And(x.is_exec_to(dao, core, lambda d: z3.And(d.is_('ExecuteProposalHook'), raw(d.as_('ExecuteProposalHook').msgs) == raw(only(p.choices.at(win), 'msgs')))), x.exec.funds.n == 0,
                     z3.If(p.close_on_execution_failure, z3.And(x.reply_on.is_('Error'), x.id == 8 * p.id), x.reply_on.is_('Never'))) for x in ms]))
            elif v == 'Close':
                P.ob(o, 'only when rejected, for good', z3.And(t0.issome, p0.issome, S.is_('Rejected'), p1.issome, p1.some.last_status.is_('Closed'), same_but(p1.some, p0.some, 'last_status'))); no_msgs(P, o)
            else: raise Lost('unknown message ' + v)
    r = c.run('contract::reply'); P.reach(r.oks, 'reply succeeds')
    for o in r.oks:
        pid = (r.msg.id / 8); k = o.skolem(PR); a, b = c.pre(PR, pid), o.post(PR, pid)
        P.ob(o, 'a failed execution marks its proposal and no other', z3.And(r.msg.id % 8 == 0, a.issome, b.issome, b.some.last_status.is_('ExecutionFailed'), same_but(a.some, b.some, 'last_status'), z3.Implies(k != pid, o.post(PR, k) == c.pre(PR, k))), [pid < 2**32])
        no_msgs(P, o); frame(P, o, PR)
    i = c.run('contract::instantiate'); P.reach(i.oks, 'instantiate succeeds')
    for o in i.oks:
        P.ob(o, 'belongs to who instantiates it', z3.And(o.post(DAO).issome, o.post(DAO).some == c.sender)); config(P, c, o, i.msg); no_msgs(P, o); frame(P, o, DAO, CF, 'contract_info')
    q = c.run('contract::query', 'Proposal'); P.reach(q.oks, 'query Proposal')
    rt = c.adt('dao_proposal_condorcet', 'proposal::ProposalResponse')
    for o in q.oks:
        x = q.msg.as_('Proposal').id; p, t = c.pre(PR, x), c.pre(TL, x); d = o.json(rt).some
        P.ob(o, 'the answer: as stored, with the status of now', z3.And(p.issome, t.issome, raw(d.tally) == raw(t.some), same_but(d.proposal, p.some, 'last_status'), raw(d.proposal.last_status) == status(c, p.some, t.some)))


def config(P, c, o, m):
    x = o.post(CF); u = lambda d: z3.If(d.is_('Height'), 1, 0); val = lambda d: z3.If(d.is_('Height'), d.as_('Height')[0], d.as_('Time')[0])
    P.ob(o, 'as asked, if it makes sense', z3.And(x.issome, raw(x.some.quorum) == raw(m.quorum), raw(x.some.voting_period) == raw(m.voting_period), raw(x.some.min_voting_period) == raw(m.min_voting_period),
         x.some.close_proposals_on_execution_failure == m.close_proposals_on_execution_failure, z3.Implies(m.quorum.is_('Percent'), m.quorum.as_('Percent')[0] <= 10**18),
         z3.Implies(m.min_voting_period.issome, z3.And(u(m.min_voting_period.some) == u(m.voting_period), val(m.min_voting_period.some) <= val(m.voting_period)))))


def mm_n(t): return t.m.fld('n')


def cv(x): return z3.If(x.is_('Positive'), zi(raw(x.as_('Positive')[0])), z3.If(x.is_('Negative'), -zi(raw(x.as_('Negative')[0])), 0))
def cwf(x): return z3.And(z3.Implies(x.is_('Positive'), x.as_('Positive')[0] > 0), z3.Implies(x.is_('Negative'), x.as_('Negative')[0] > 0))


def cells(P):
    """a cell counts exactly"""
    c = P.contract('dao_proposal_condorcet')
    for f, g in (('increment', lambda x, a: x + a), ('decrement', lambda x, a: x - a), ('invert', lambda x, a: -x)):
        a = {}
        ty = c.adt('dao_proposal_condorcet', 'cell::Cell'); x0 = c.ex.sym(ty, 'cell!' + f); X = mk(c.ex, ty, c.ex.term(x0, ty))
        r = c.run('cell::Cell::' + f, args={0: x0}); P.reach(r.outs, f'{f} returns')
        for o in r.outs:
            y = mk(c.ex, ty, c.ex.term(o.val, ty, o.st))
            P.ob(o, f'{f} counts exactly', z3.And(cv(y) == g(cv(X), raw(r.msg) if f != 'invert' else 0), cwf(y)), [cwf(X)] + ([raw(r.msg) > 0] if f != 'invert' else []))


def ballot(P):
    """a ballot ranks every candidate once, however many there are"""
    c = P.contract('dao_proposal_condorcet')
    h = {}
    r = c.run('vote::Vote::new', args={0: lambda st: h.setdefault('v', c.ex.sym(next(t for t in c.ex.mir.tys.values() if t.s == 'alloc::vec::Vec<u32>'), 'ranking'))})
    P.reach(r.oks, 'a ballot is a ranking'); P.reach(r.errs, 'some are not'); n = raw(r.msg)
    V0 = mk(c.ex, h['v'].ty, c.ex.term(h['v'], h['v'].ty)) if not isinstance(h['v'], V) else h['v']
    for o in r.oks:
        i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
        P.ob(o, 'a ballot ranks every candidate once', z3.And(V0.n == n, z3.Implies(z3.And(0 <= i, i < n), V0.at(i) < n), z3.Implies(z3.And(0 <= i, i < j, j < n), V0.at(i) != V0.at(j))))
        P.ob(o, 'as it was given', z3.And(o.v().n == n, z3.Implies(z3.And(0 <= i, i < n), o.v().at(i) == V0.at(i))))
    for o in r.errs: P.ob(o, 'and every such ranking is one', z3.Not(z3.And(V0.n == n, V0.all(lambda x, i: z3.And(x < n, V0.all(lambda y, j: z3.Implies(i != j, x != y)))))))


def entry(T, n, x, y):
    """margin of x over y (concrete candidates), in a matrix of n candidates"""
    if x < y: return -entry(T, n, y, x)
    return cv(T.m.cells.at(y * n - (y + 1) * y // 2 + x - (y + 1)))


def sane(T, n):
    k = n * (n - 1) // 2
    return [T.m.fld('n') == n, T.m.cells.n == k, T.power_outstanding >= 0] + [cwf(T.m.cells.at(i)) for i in range(k)] + [z3.And(cv(T.m.cells.at(i)) + T.power_outstanding <= 2**128 - 1, -cv(T.m.cells.at(i)) + T.power_outstanding <= 2**128 - 1) for i in range(k)]


def winner_is(w, T, n, left):
    """the Condorcet winner: ahead of everybody; undisputed when nobody can catch up; never when nobody can get there"""
    e = lambda x, y: entry(T, n, x, y)
    ahead = [z3.And(*[e(x, y) > 0 for y in range(n) if y != x]) for x in range(n)]
    safe = [z3.And(*[e(x, y) > left for y in range(n) if y != x]) for x in range(n)]
    open_ = z3.Or(*[z3.And(*[e(x, y) + left > 0 for y in range(n) if y != x]) for x in range(n)])
    return z3.If(z3.Or(*ahead), z3.And(*[z3.Implies(ahead[x], z3.If(safe[x], z3.And(w.is_('Undisputed'), w.as_('Undisputed')[0] == x), z3.And(w.is_('Some'), w.as_('Some')[0] == x))) for x in range(n)]),
                 z3.If(open_, w.is_('None'), w.is_('Never')))


def margins(P, n):
    """bounded: n candidates"""
    c = P.contract('dao_proposal_condorcet'); c.ex.K = n + 1; c.ex.loopsum = False; ex = c.ex
    ty = c.adt('dao_proposal_condorcet', 'tally::Tally'); vt = c.adt('dao_proposal_condorcet', 'vote::Vote'); h = {}
    def given(k, t):
        def f(st):
            v = ex.sym(t, k); h[k] = mk(ex, t, ex.term(v, t)); h[k + '&'] = ex.ref_to(st, v)
            return h[k + '&']
        return f
    def pre(r): return sane(h['tally'], n)
    r = c.run('tally::Tally::winner', args={0: given('tally', ty)}, pre=pre, name=f'winner of {n}'); P.reach(r.outs, f'a winner of {n}')
    for o in r.outs:
        w = o.val; w = mk(ex, c.adt('dao_proposal_condorcet', 'tally::Winner'), ex.term(w, c.adt('dao_proposal_condorcet', 'tally::Winner'), o.st))
        P.ob(o, f'the winner beats everybody ({n} candidates)', winner_is(w, h['tally'], n, h['tally'].power_outstanding))
    def pre2(r):
        v = h['vote']; a = [v.n == n] + [z3.And(v.at(i) >= 0, v.at(i) < n) for i in range(n)] + [v.at(i) != v.at(j) for i in range(n) for j in range(i)]
        return sane(h['tally'], n) + a + [raw(r.msg) > 0]
    r = c.run('tally::Tally::add_vote', args={0: given('tally', ty), 1: lambda st: (lambda v: (h.__setitem__('vote', mk(ex, vt, ex.term(v, vt))), v)[1])(ex.sym(vt, 'vote'))}, pre=pre2, name=f'add_vote {n}'); P.reach(r.outs, f'a vote on {n}')
    T, v, p = h['tally'], h['vote'], raw(r.msg)
    pos = lambda x: z3.Sum([z3.If(v.at(i) == x, i, 0) for i in range(n)])
    for o in r.outs:
        a = h['tally&']; T1 = mk(ex, ty, ex.term(ex.load(o.st, a.c, a.p), ty, o.st))
        P.ob(o, f'each pair moves by the power, towards who is ranked higher ({n} candidates)', z3.And(*[entry(T1, n, x, y) == entry(T, n, x, y) + z3.If(pos(x) < pos(y), p, -p) for x in range(n) for y in range(n) if x != y]))
        P.ob(o, f'the power is used ({n} candidates)', z3.And(T1.power_outstanding == T.power_outstanding - p, *sane(T1, n), same_but(T1, T, 'm', 'power_outstanding', 'winner')))
        P.ob(o, f'and the winner is up to date ({n} candidates)', winner_is(T1.winner, T1, n, T1.power_outstanding))

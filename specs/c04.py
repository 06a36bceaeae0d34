"""single-choice proposals: ballots and tallies."""
from spec import *
from dv import *
from common import only


def check(P):
    c = P.contract('dao_proposal_single')
    c.run_all('contract::execute')
    ballots(P, c, 'proposals_v2', 'config_v2', Single)


class Single:
    rules = 'threshold'
    total_now = False
    @staticmethod
    def status(c, p): return single_status(c, p), []
    @staticmethod
    def tallies(P, c, o, m, p0, p1, b0, pw):
        for opt, f in (('Yes', 'yes'), ('No', 'no'), ('Abstain', 'abstain')):
            d = p1.votes.fld(f) - p0.votes.fld(f)
            P.ob(o, f'tally of {f} follows the ballot', d == z3.If(m.vote.is_(opt), pw.some.power, 0) - z3.If(z3.And(b0.issome, b0.some.vote.is_(opt)), b0.some.power, 0))
    @staticmethod
    def zero(P, c, o, x): return z3.And(*[x.votes.fld(f) == 0 for f in ('yes', 'no', 'abstain')])
    @staticmethod
    def own(c, o, x, vote, pw): return z3.And(*[x.votes.fld(f) == z3.If(vote.is_(opt), pw, 0) for opt, f in (('Yes', 'yes'), ('No', 'no'), ('Abstain', 'abstain'))])
    @staticmethod
    def content(x, m): return x.msgs == m.msgs
    @staticmethod
    def wf(c, p): return []


def ballots(P, c, PR, CF, K):
    BL = 'ballots'
    vq = c.adt('dao_interface', 'voting::Query'); vr = c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse')
    tr = c.adt('dao_interface', 'voting::TotalPowerAtHeightResponse')
    dao = c.pre(CF).some.dao
    def power(who, h): return c.smart(vq, vr, dao, c.make(vq, 'VotingPowerAtHeight', address=who, height=c.some(h)))
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            if v == 'Vote':
                m = r.msg.as_('Vote')
                p0, p1 = c.pre(PR, m.proposal_id), o.post(PR, m.proposal_id)
                key = c.key(BL, m.proposal_id, c.sender)
                b0, b1 = c.pre(BL, key), o.post(BL, key)
                pw = power(c.sender, p0.some.start_height)
                P.ob(o, 'voting is open', z3.And(p0.issome, z3.Not(expired(c, p0.some.expiration))))
                P.ob(o, 'with power at the start height, not zero', z3.And(pw.issome, pw.some.power > 0))
                P.ob(o, 'the ballot records it', z3.And(b1.issome, b1.some.power == pw.some.power, b1.some.vote == m.vote, b1.some.rationale == m.rationale))
                P.ob(o, 'voting again only where revoting is allowed, with another vote', z3.Implies(b0.issome, z3.And(p0.some.allow_revoting, b0.some.vote != m.vote)))
                k = o.skolem(BL)
                P.ob(o, 'no other ballot changes', z3.Implies(k != key, o.post(BL, k) == c.pre(BL, k)))
                k = o.skolem(PR)
                P.ob(o, 'no other proposal changes', z3.Implies(k != m.proposal_id, o.post(PR, k) == c.pre(PR, k)))
                P.ob(o, 'nothing of the proposal changes but tallies and status', z3.And(p1.issome, same_but(p0.some, p1.some, 'votes', 'status')))
                for oc in o.cases(PR):
                    x = oc.post(PR, m.proposal_id).some
                    K.tallies(P, c, oc, m, p0.some, x, b0, pw)
                    S, hs = K.status(c, with_status(c, x, p0.some.status))
                    P.obcases(oc, 'status follows', x.status, lambda t: t == S, hs + K.wf(c, p0.some))
                    for i, w in enumerate(K.wf(c, x)): P.ob(oc, f'invariant: proposal is well-formed ({i})', w, K.wf(c, p0.some))
                for ns in o.written():
                    if ns not in (BL, PR): P.ob(o, f'frame: {ns}', o.unchanged(ns))
            elif v == 'Propose':
                m = r.msg.as_('Propose')[0]
                n0 = c.pre('proposal_count').val(0)
                pid = n0 + 1
                n1 = o.post('proposal_count'); p1 = o.post(PR, pid)
                cf = c.pre(CF).some
                P.ob(o, 'gets the next number', z3.And(n1.issome, n1.some == pid, p1.issome))
                k = o.skolem(PR)
                P.ob(o, 'no other proposal changes', z3.Implies(k != pid, o.post(PR, k) == c.pre(PR, k)))
                tot = c.smart(vq, tr, cf.dao, c.make(vq, 'TotalPowerAtHeight', height=c.none(dict(vq.fields(c.vidx(vq, 'TotalPowerAtHeight')))['height'].args[0]) if K.total_now else c.some(c.height)))
                x = p1.some
                P.ob(o, 'starts now, measured against the total power now', z3.And(x.start_height == c.height, tot.issome, x.total_power == tot.some.power))
                P.ob(o, 'has the configured rules', z3.And(x.fld(K.rules) == cf.fld(K.rules), x.allow_revoting == cf.allow_revoting, x.veto == cf.veto,
                     x.expiration == after(c, cf.max_voting_period, x.expiration.ty),
                     z3.If(cf.min_voting_period.isnone, x.min_voting_period.isnone, z3.And(x.min_voting_period.issome, x.min_voting_period.some == after(c, cf.min_voting_period.some, x.expiration.ty)))))
                P.ob(o, 'is the one proposed', z3.And(x.title == m.title, x.description == m.description, K.content(x, m), x.proposer == z3.If(m.proposer.isnone, c.sender, m.proposer.some)))
                prop = z3.If(m.proposer.isnone, c.sender, m.proposer.some)
                key = c.key(BL, pid, prop); b0, b1 = c.pre(BL, key), o.post(BL, key)
                pw = power(prop, c.height)
                fresh = z3.And(numbered(c, PR, c.pre, pid), voted(c, PR, c.pre, key))     # nobody has voted on it before
                P.ob(o, 'the proposer votes only if asked to', z3.Implies(m.vote.isnone, z3.And(o.unchanged(BL), K.zero(P, c, o, x))))
                P.ob(o, "the proposer's own vote counts like any other", z3.Implies(z3.And(m.vote.issome, fresh), z3.And(pw.issome, pw.some.power > 0,
                     b1.issome, b1.some.power == pw.some.power, b1.some.vote == m.vote.some.vote, b1.some.rationale == m.vote.some.rationale,
                     K.own(c, o, x, m.vote.some.vote, pw.some.power))))
                for oc in o.cases(PR):
                    for i, w in enumerate(K.wf(c, oc.post(PR, pid).some)): P.ob(oc, f'invariant: proposal is well-formed ({i})', w)
                k = o.skolem(BL)
                P.ob(o, 'no other ballot changes', z3.Implies(k != key, o.post(BL, k) == c.pre(BL, k)))
                for ns in o.written():
                    if ns not in (BL, PR, 'proposal_count'): P.ob(o, f'frame: {ns}', o.unchanged(ns))
            elif v == 'UpdateRationale':
                m = r.msg.as_(v); key = c.key(BL, m.proposal_id, c.sender)
                k = o.skolem(BL); b0, b1 = c.pre(BL, key), o.post(BL, key)
                P.ob(o, 'own ballot, rationale only', z3.And(b0.issome, b1.issome, same_but(b0.some, b1.some, 'rationale'), b1.some.rationale == m.rationale, z3.Implies(k != key, o.post(BL, k) == c.pre(BL, k))))
                P.ob(o, 'tallies stay', o.unchanged(PR) if PR in c.ex.nsty else TRUE)
            else:
                P.ob(o, 'ballots stay', o.unchanged(BL))
                if PR in o.written():
                    k = o.skolem(PR); a, b = c.pre(PR, k), o.post(PR, k)
                    P.ob(o, 'tallies and rules stay', z3.Or(a == b, z3.And(a.issome, b.issome, same_but(a.some, b.some, 'status'))))
            invariants(P, c, PR, o)
            if v != 'Propose': P.ob(o, 'numbers are given out once', o.unchanged('proposal_count'))
    q = c.run('contract::query', 'GetVote'); P.reach(q.oks, q.name)
    for o in q.oks:
        m = q.msg.as_('GetVote'); b = c.pre(BL, c.key(BL, m.proposal_id, m.voter))
        d = o.json(c.adt(c.crate, 'query::VoteResponse')); x = only(d.some, 'vote')
        P.ob(o, 'a ballot is reported as it was cast', z3.And(d.issome, z3.If(b.isnone, x.isnone, z3.And(x.issome, x.some.voter == m.voter,
             x.some.vote == b.some.vote, x.some.power == b.some.power, x.some.rationale == b.some.rationale))))
    q = c.run('contract::query', 'NextProposalId'); P.reach(q.oks, q.name)
    for o in q.oks:
        d = o.json(c.nsty('proposal_count')[1]); n = c.pre('proposal_count')
        P.ob(o, 'the number of the next proposal is announced', z3.And(d.issome, raw(d.some) == z3.If(n.isnone, 0, raw(n.some)) + 1))
    r = c.run('contract::reply')
    for o in r.oks:
        P.ob(o, 'ballots stay', o.unchanged(BL))
        k = o.skolem(PR); a, b = c.pre(PR, k), o.post(PR, k)
        P.ob(o, 'tallies and rules stay', z3.Or(a == b, z3.And(a.issome, b.issome, same_but(a.some, b.some, 'status'))))
        invariants(P, c, PR, o)
        P.ob(o, 'numbers are given out once', o.unchanged('proposal_count'))


def numbered(c, PR, view, k):
    """invariant: only numbers handed out are in use"""
    return z3.Implies(view(PR, k).issome, z3.And(k >= 1, k <= view('proposal_count').val(0)))


def voted(c, PR, view, k):
    """invariant: ballots belong to existing proposals"""
    return z3.Implies(view('ballots', k).issome, view(PR, V(c.ex, c.nsty('ballots')[0], k).fld('0')).issome)


def invariants(P, c, PR, o):
    k = o.skolem(PR)
    P.ob(o, 'invariant: only numbers handed out are in use', numbered(c, PR, o.post, k), [numbered(c, PR, c.pre, k)])
    k = o.skolem('ballots')
    P.ob(o, 'invariant: ballots belong to proposals', voted(c, PR, o.post, k), [voted(c, PR, c.pre, k)])


def with_status(c, p, s):
    """p with another status"""
    fs = {n: p.fld(n) for n, _ in p.ty.fields()}; fs['status'] = s
    return V(c.ex, p.ty, c.make(p.ty, None, **fs))

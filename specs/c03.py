"""single-choice proposals: when a proposal counts as passed or rejected."""
from spec import *
from dv import *


def check(P):
    c = P.contract('dao_proposal_single')
    q = c.run('contract::query', 'Proposal')
    P.reach(q.oks, 'query Proposal')
    rt = c.adt('dao_proposal_single', 'query::ProposalResponse')
    pid = q.msg.as_('Proposal').proposal_id
    p = c.pre('proposals_v2', pid)
    for o in q.oks:
        d = o.json(rt)
        P.ob(o, 'the answer is the stored proposal', z3.And(p.issome, d.issome, d.some.id == pid, same_but(d.some.proposal, p.some, 'status')))
        P.ob(o, 'with the status its votes and the time determine', d.some.proposal.status == single_status(c, p.some))
    # thresholds that can be configured
    for entry, variant in (('contract::instantiate', None), ('contract::execute', 'UpdateConfig')):
        r = c.run(entry, variant)
        P.reach(r.oks, r.name)
        for o in r.oks:
            cf = o.post('config_v2')
            P.ob(o, 'only thresholds that can be reached and are not zero', z3.And(cf.issome, valid_threshold(cf.some.threshold)))
            mx, mn = cf.some.max_voting_period, cf.some.min_voting_period
            P.ob(o, 'minimum voting period does not exceed the maximum', z3.Or(mn.isnone, z3.And(mn.some.is_('Time'), mx.is_('Time'), mn.some.as_('Time')[0] <= mx.as_('Time')[0]),
                 z3.And(mn.some.is_('Height'), mx.is_('Height'), mn.some.as_('Height')[0] <= mx.as_('Height')[0])))
    lemmas(P, c, p.some.threshold)


def lemmas(P, c, th):
    """early outcomes are final, whatever votes are still cast (over the spec functions)"""
    ex = c.ex
    iv = lambda n: z3.Int('lm_' + n)
    T = iv('T'); v = Tally(iv('y'), iv('n'), iv('a'), T); w = Tally(iv('y2'), iv('n2'), iv('a2'), T)
    exp2 = z3.Bool('lm_exp2'); fl = z3.BoolVal(False); tr = z3.BoolVal(True)
    nat = [v.yes >= 0, v.no >= 0, v.abstain >= 0, v.total <= T, w.yes >= v.yes, w.no >= v.no, w.abstain >= v.abstain, w.total <= T, T < 2**128, valid_threshold(th)]
    for x in (T, v.yes, v.no, v.abstain, w.yes, w.no, w.abstain): ex.rngs[x.get_id()] = (0, 2**128 - 1); ex._keep.append(x)
    mono = []
    def instance(a, b, p):
        mono.append(z3.Implies(z3.And(a <= b, p >= 0), zi(ex.mul(a, p)) <= zi(ex.mul(b, p))))
    def split(a, p):
        mono.append(zi(ex.mul(a, ONE - p)) == a * ONE - zi(ex.mul(a, p)))
    x, y, z = z3.Ints('lx ly lz')
    P.lemma(c, 'lemma: products are monotone', z3.Implies(z3.And(x <= y, z >= 0), x * z <= y * z))
    P.lemma(c, 'lemma: products distribute', x * (ONE - z) == x * ONE - x * z)
    ap = th.as_('AbsolutePercentage').percentage.as_('Percent')[0]
    tp = th.as_('ThresholdQuorum').threshold.as_('Percent')[0]
    qp = th.as_('ThresholdQuorum').quorum.as_('Percent')[0]
    for p in (ap, tp):
        instance(w.T - w.abstain, v.T - v.abstain, p); instance(w.total - w.abstain, v.T - v.abstain, p)
        for o in (v.T - v.abstain, w.T - w.abstain, w.total - w.abstain):
            split(o, p); instance(o, v.T - v.abstain, ONE - p)
    tiny = z3.And(z3.Implies(z3.And(th.is_('AbsolutePercentage'), th.as_('AbsolutePercentage').percentage.is_('Percent')), ap >= PF),
                  z3.Implies(z3.And(th.is_('ThresholdQuorum'), th.as_('ThresholdQuorum').threshold.is_('Percent')), tp >= PF))
    pos = z3.And(*[z3.Implies(z3.And(o >= 1, p >= PF), zi(ex.mul(o, p)) >= PF) for o in (v.T - v.abstain,) for p in (ap, tp)])
    P.lemma(c, 'lemma: a share of at least 1e-9 of something is not zero', z3.Implies(z3.And(x >= 1, z >= PF), x * z >= PF))
    for kind in ('AbsolutePercentage', 'ThresholdQuorum', 'AbsoluteCount'):
        h = nat + mono + [pos, th.is_(kind)]
        P.lemma(c, f'passed early stays passed ({kind})', z3.Implies(single_passed(c, th, v, fl, fl, tr), single_passed(c, th, w, exp2, fl, tr)), h + [tiny])
        # rejected early: no completion meets the exact (unrounded) requirement
        need = {'AbsolutePercentage': lambda t, e: exact_reached(c, t.yes, t.T - t.abstain, th.as_('AbsolutePercentage').percentage),
                'ThresholdQuorum': lambda t, e: exact_reached(c, t.yes, z3.If(e, t.total - t.abstain, t.T - t.abstain), th.as_('ThresholdQuorum').threshold),
                'AbsoluteCount': lambda t, e: t.yes >= th.as_('AbsoluteCount').threshold}[kind]
        P.lemma(c, f'rejected early is out of reach whatever is still voted ({kind})', z3.Implies(single_rejected(c, th, v, fl, fl), z3.Not(need(w, exp2))), h)
        P.sat(c, f'lemma hypotheses {kind}', h + [tiny, single_passed(c, th, v, fl, fl, tr), w.no > v.no])
        P.sat(c, f'lemma hypotheses {kind}/rejected', h + [single_rejected(c, th, v, fl, fl), w.yes > v.yes])


def exact_reached(c, v, options, pct):
    p = pct.as_('Percent')[0]
    return z3.And(options > 0, z3.If(pct.is_('Majority'), 2 * v > options, v * ONE >= zi(c.ex.mul(options, p))))

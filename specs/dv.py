"""Spec functions shared by the voting properties: expirations, thresholds, proposal status.
Written from the documentation of dao-voting (packages/dao-voting) and the READMEs."""
from spec import *

ONE = 10**18          # Decimal::one() in atomics
PF = 10**9            # documented rounding precision of threshold comparisons


def expired(c, e, block=None):
    b = block or c.env.block
    return z3.Or(z3.And(e.is_('AtHeight'), b.height >= e.as_('AtHeight')[0]),
                 z3.And(e.is_('AtTime'), b.time >= e.as_('AtTime')[0]))


def after(c, d, ety, block=None):
    """Duration::after as an Expiration term"""
    b = block or c.env.block
    return z3.If(d.is_('Height'), c.make(ety, 'AtHeight', **{'0': b.height + d.as_('Height')[0]}),
                 c.make(ety, 'AtTime', **{'0': b.time + d.as_('Time')[0] * 10**9}))


def exp_add(c, e, d):
    """(defined?, Expiration + Duration)"""
    hh = z3.And(e.is_('AtHeight'), d.is_('Height')); tt = z3.And(e.is_('AtTime'), d.is_('Time')); nn = e.is_('Never')
    t = z3.If(hh, c.make(e.ty, 'AtHeight', **{'0': e.as_('AtHeight')[0] + d.as_('Height')[0]}),
              z3.If(tt, c.make(e.ty, 'AtTime', **{'0': e.as_('AtTime')[0] + d.as_('Time')[0] * 10**9}), c.make(e.ty, 'Never')))
    return z3.Or(hh, tt, nn), t


def floor_share(c, total, p):
    """floor(total * p) with PF as the unit: total, p (atomics) -> multiples of 1/PF"""
    return zi(c.ex.div(c.ex.mul(c.ex.mul(PF, total), p), ONE))


def count_pass(c, v, options, pct):
    """`v` of `options` votes reach the percentage"""
    p = pct.as_('Percent')[0]
    return z3.And(options != 0, z3.If(pct.is_('Majority'), 2 * v > options, PF * v >= floor_share(c, options, p)))


def count_fail(c, no, options, pct):
    p = pct.as_('Percent')[0]
    return z3.Or(options == 0, z3.If(pct.is_('Majority'), 2 * no >= options, PF * no > floor_share(c, options, ONE - p)))


def all_needed(pct): return z3.And(pct.is_('Percent'), pct.as_('Percent')[0] == ONE)


class Tally:
    def __init__(self, yes, no, abstain, T): self.yes, self.no, self.abstain, self.T = yes, no, abstain, T; self.total = yes + no + abstain


def single_passed(c, th, v, exp, revote, minp):
    """the proposal is sure to pass. exp/minp: voting period over / minimum period over"""
    ab = th.as_('AbsolutePercentage'); tq = th.as_('ThresholdQuorum'); ac = th.as_('AbsoluteCount')
    by = z3.If(th.is_('AbsolutePercentage'), count_pass(c, v.yes, v.T - v.abstain, ab.percentage),
         z3.If(th.is_('ThresholdQuorum'), z3.And(count_pass(c, v.total, v.T, tq.quorum),
                                              z3.If(exp, count_pass(c, v.yes, v.total - v.abstain, tq.threshold), count_pass(c, v.yes, v.T - v.abstain, tq.threshold))),
               v.yes >= ac.threshold))
    return z3.And(z3.Or(z3.Not(revote), exp), minp, by)


def single_rejected(c, th, v, exp, revote):
    ab = th.as_('AbsolutePercentage'); tq = th.as_('ThresholdQuorum'); ac = th.as_('AbsoluteCount')
    def fail(options, pct):
        return z3.If(all_needed(pct), z3.Or(options == 0, v.no >= 1), count_fail(c, v.no, options, pct))
    by = z3.If(th.is_('AbsolutePercentage'), fail(v.T - v.abstain, ab.percentage),
         z3.If(th.is_('ThresholdQuorum'), z3.If(exp, z3.Or(z3.Not(count_pass(c, v.total, v.T, tq.quorum)), fail(v.total - v.abstain, tq.threshold)),
                                              fail(v.T - v.abstain, tq.threshold)),
               v.yes + (v.T - v.total) < ac.threshold))
    return z3.And(z3.Or(z3.Not(revote), exp), by)


def tally_of(p): return Tally(p.votes.yes, p.votes.no, p.votes.abstain, p.total_power)


def single_status(c, p, block=None):
    """current status of a stored single-choice proposal"""
    exp = expired(c, p.expiration, block)
    minp = z3.Or(p.min_voting_period.isnone, expired(c, p.min_voting_period.some, block))
    v = tally_of(p)
    ps = single_passed(c, p.threshold, v, exp, p.allow_revoting, minp)
    rj = single_rejected(c, p.threshold, v, exp, p.allow_revoting)
    return status_of(c, p, ps, rj, exp, block)


def status_of(c, p, ps, rj, exp, block=None):
    s = p.status; sty = s.ty
    S = lambda n, **k: c.make(sty, n, **k)
    d, te = exp_add(c, p.expiration, p.veto.some.timelock_duration)
    tev = V(c.ex, p.expiration.ty, te)
    stored = s.as_('VetoTimelock').expiration
    return z3.If(s.is_('Open'),
             z3.If(ps, z3.If(p.veto.isnone, S('Passed'), z3.If(expired(c, tev, block), S('Passed'), S('VetoTimelock', expiration=te))),
                   z3.If(z3.Or(exp, rj), S('Rejected'), S('Open'))),
             z3.If(z3.And(s.is_('VetoTimelock'), expired(c, stored, block)), S('Passed'), s.t))


def valid_pct(pct, zero_ok=False):
    p = pct.as_('Percent')[0]
    return z3.Or(pct.is_('Majority'), z3.And(p >= 0 if zero_ok else p > 0, p <= ONE))


def valid_threshold(th):
    return z3.And(z3.Implies(th.is_('AbsolutePercentage'), valid_pct(th.as_('AbsolutePercentage').percentage)),
                  z3.Implies(th.is_('ThresholdQuorum'), z3.And(valid_pct(th.as_('ThresholdQuorum').threshold), valid_pct(th.as_('ThresholdQuorum').quorum, True))),
                  z3.Implies(th.is_('AbsoluteCount'), th.as_('AbsoluteCount').threshold > 0))


def same_but(a, b, *fields):
    """structures a, b agree on every field not listed"""
    return z3.And(*[z3.BoolVal(True)] + [raw(a.fld(n)) == raw(b.fld(n)) for n, _ in a.ty.fields() if n not in fields])


# ---- multiple choice
class MC:
    """a multiple-choice proposal as the spec sees it"""
    def __init__(self, c, p):
        self.c, self.p = c, p
        t = p.votes
        self.w = t if t.ty.k == 'adt' and c.ex.cls(t.ty) == 'vec' else t.vote_weights
        self.ch = p.choices
        q = p.voting_strategy
        self.quorum = q if q.ty.name.endswith('PercentageThreshold') else q.as_('SingleChoice').quorum
        from models import VSUM
        self.total = VSUM(c.ex.acc(self.w.t, 0, 1), self.w.n)
        self.left = p.total_power - self.total
    def is_winner(self, i):
        j = z3.FreshConst(z3.IntSort(), 'wj')
        return z3.And(i >= 0, i < self.w.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.w.n, j != i), self.w.at(j) < self.w.at(i))))
    def unbeatable(self, i, strict):
        j = z3.FreshConst(z3.IntSort(), 'uj')
        x = self.w.at(j) + self.left
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.w.n, j != i), x < self.w.at(i) if strict else x <= self.w.at(i)))
    def none(self, i): return self.ch.at(i).option_type.is_('None')
    def wf(self):
        """established by Propose, preserved by every vote"""
        return z3.And(*self.wfs(), self.total <= self.p.total_power)
    def wfs(self):
        return [self.ch.n == self.w.n, self.ch.n >= 3, self.ch.all(lambda x, i: x.index == i)]
    def quorate(self): return count_pass(self.c, self.total, self.p.total_power, self.quorum)
    def define(self):
        """(has, W, facts): has = there is a winner, W = the winner; facts define them"""
        if not hasattr(self, '_d'):
            has = z3.FreshConst(z3.BoolSort(), 'has_winner'); W = z3.FreshConst(z3.IntSort(), 'winner'); f = z3.Function(f'rival!{has}', z3.IntSort(), z3.IntSort())
            i = z3.FreshConst(z3.IntSort(), 'ni'); r = f(i); w = self.w
            wi = w.at(i)
            facts = [z3.Implies(has, self.is_winner(W)),
                     z3.Implies(z3.Not(has), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.n), z3.And(r >= 0, r < w.n, r != i, w.at(r) >= wi)), patterns=[wi] if wi.num_args() == 2 else []))]
            self._d = (has, W, facts)
        return self._d
    def passed(self, exp, minp):
        has, W, _ = self.define()
        return z3.And(z3.Or(z3.Not(self.p.allow_revoting), exp), minp, self.quorate(), has, z3.Not(self.none(W)), z3.Or(exp, self.unbeatable(W, True)))
    def rejected(self, exp):
        has, W, _ = self.define()
        return z3.And(z3.Or(z3.Not(self.p.allow_revoting), exp),
                      z3.If(has, z3.If(exp, z3.Or(z3.Not(self.quorate()), self.none(W)), z3.And(self.none(W), self.unbeatable(W, False))),
                            z3.Or(exp, self.left == 0)))


def multi_status(c, p, block=None, m=None):
    exp = expired(c, p.expiration, block)
    minp = z3.Or(p.min_voting_period.isnone, expired(c, p.min_voting_period.some, block))
    m = m or MC(c, p)
    return status_of(c, p, m.passed(exp, minp), m.rejected(exp), exp, block)


def status_contract(name):
    """contract of `current_status`, used at its calls: some function of the proposal and the block.
    Which one is what `status_meets` proves of the function itself"""
    def f(ex, st, inst, a):
        r = ex.mir.ty(inst.body['locals'][0])
        ts = [ex.term(x, ex.strip_refs(ex.mir.ty(inst.body['locals'][1 + i])), st) for i, x in enumerate(a)]
        sty = r.args[0]
        u = ex.fn(name, *[t.sort() for t in ts], ex.sort(sty))(*ts)
        ex.__dict__.setdefault('abs_used', {})[name] = sty
        e = ex.sym(r.args[1], name + '.err'); s2 = st.fork()
        p = mk(ex, ex.strip_refs(ex.mir.ty(inst.body['locals'][1])), ts[0])
        st.add(settled(p.status, V(ex, p.status.ty, u)))
        return [(st, Adt(r, 0, [ex.wrap(sty, u)])), (s2, Adt(r, 1, [e]))]
    return f


def settled(s0, s1):
    """postcondition of `current_status`: only open and timelocked proposals can get another status"""
    return z3.Implies(z3.Not(s0.is_('Open', 'VetoTimelock')), s1 == s0)


def abstract_of(c, name, *ts):
    """the value the contract speaks about, or None if the code does not call the function any more"""
    sty = c.ex.__dict__.get('abs_used', {}).get(name)
    if sty is None: return None
    ts = [raw(t) for t in ts]
    return c.ex.fn(name, *[t.sort() for t in ts], c.ex.sort(sty))(*ts)

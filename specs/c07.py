"""multiple-choice proposals: ballots and tallies."""
from spec import *
from dv import *
from c04 import ballots
import c06


class Multi:
    rules = 'voting_strategy'
    total_now = True
    @staticmethod
    def status(c, p):
        t = abstract_of(c, 'multi_status!', p, c.env.block)
        if t is not None: return t, []
        m = MC(c, p)
        return multi_status(c, p, m=m), m.define()[2]
    @staticmethod
    def wf(c, p): return MC(c, p).wfs()
    @staticmethod
    def tallies(P, c, o, m, p0, p1, b0, pw):
        w0, w1 = MC(c, p0).w, MC(c, p1).w
        P.ob(o, 'the vote is for one of the options', z3.And(m.vote >= 0, m.vote < p0.choices.n))
        k = z3.FreshConst(z3.IntSort(), 'opt')
        P.ob(o, 'the tally of every option follows the ballot', z3.And(w1.n == w0.n, z3.Implies(z3.And(k >= 0, k < w0.n),
             w1.at(k) - w0.at(k) == z3.If(m.vote == k, pw.some.power, 0) - z3.If(z3.And(b0.issome, b0.some.vote == k), b0.some.power, 0))), MC(c, p0).wfs())
    @staticmethod
    def zero(P, c, o, x):
        w = MC(c, x).w
        return z3.And(w.n == x.choices.n, w.all(lambda a, i: a == 0))
    @staticmethod
    def own(c, o, x, vote, pw):
        w = MC(c, x).w
        return z3.And(vote < w.n, w.n == x.choices.n, w.all(lambda a, i: a == z3.If(i == vote, pw, 0)))
    @staticmethod
    def content(x, m):
        ch = x.choices; op = V(ch.ex, m.choices.ty, m.choices.t)
        op = op if op.ty.k == 'adt' and ch.ex.cls(op.ty) == 'vec' else op.options
        return z3.And(ch.n == op.n + 1, op.n >= 2, op.n <= 20, op.all(lambda a, i: z3.And(ch.at(i).title == a.title, ch.at(i).description == a.description, ch.at(i).msgs == a.msgs, ch.at(i).option_type.is_('Standard'))),
                      ch.at(op.n).option_type.is_('None'), ch.at(op.n).msgs.n == 0)


def check(P):
    c06.status_meets(P)
    c = P.contract('dao_proposal_multiple', contracts=c06.ABSTRACT)
    c.run_all('contract::execute')
    ballots(P, c, 'proposals', 'config', Multi)

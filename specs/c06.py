"""multiple-choice proposals: when a proposal counts as passed or rejected, and which option won."""
from spec import *
from dv import *


STATUS = 'dao_proposal_multiple::proposal::MultipleChoiceProposal::current_status'
ABSTRACT = {STATUS: status_contract('multi_status!')}


def check(P):
    status_meets(P)


def status_meets(P):
    c = P.contract('dao_proposal_multiple')
    q = c.run('contract::query', 'Proposal')
    P.reach(q.oks, 'query Proposal')
    rt = c.adt('dao_proposal_multiple', 'query::ProposalResponse')
    pid = q.msg.as_('Proposal').proposal_id
    p = c.pre('proposals', pid)
    m = MC(c, p.some); wf = m.wf()
    P.sat(c, 'well-formed proposal', [wf, p.issome])
    for o in q.oks:
        d = o.json(rt)
        P.ob(o, 'the answer is the stored proposal', z3.And(p.issome, d.issome, d.some.id == pid, same_but(d.some.proposal, p.some, 'status')))
        P.obcases(o, 'with the status its votes and the time determine', d.some.proposal.status, lambda t: t == multi_status(c, p.some, m=m), [wf] + m.define()[2])
        P.ob(o, 'a settled status stays', settled(p.some.status, d.some.proposal.status), [p.issome])

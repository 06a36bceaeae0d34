"""proposal deposits and submission policies (pre-propose modules without approval)."""
from spec import *
from common import *
from prepropose import *


def proposal_id(c, ns=DP):
    q = c.adt('dao_interface', 'proposal::Query')
    return c.smart(q, c.nsty(ns)[0], c.pre(PM).some, c.make(q, 'NextProposalId'))


def check(P):
    validate(P)
    for crate, fs in (('dao_pre_propose_single', ('title', 'description', 'msgs', 'vote')), ('dao_pre_propose_multiple', ('title', 'description', 'choices', 'vote'))):
        c = P.contract(crate, contracts={VALIDATE: validate_contract})
        c.run_all('contract::execute', skip=('UpdateSubmissionPolicy',))
        for r in c.runs:
            v = r.name.split('.')[-1]
            P.reach(r.oks, f'{r.name} succeeds')
            for o in r.oks:
                if base(P, c, r, o, v):
                    if v.endswith('Hook') and v != 'ProposalCompletedHook': only_dao(P, c, o)
                elif v == 'Extension': no_msgs(P, o); frame(P, o)
                elif v == 'Propose':
                    ms = o.msgs(); cf = c.pre(CF); a = r.msg.as_(v).msg.as_('Propose')
                    P.ob(o, 'only whom the policy lets propose', z3.And(cf.issome, may_submit(c, c.sender)))
                    it = c.adt(crate, 'contract::ProposeMessageInternal')
                    def asked(x):
                        y = only(x.as_('Propose'), '0')[0] if False else x.as_('Propose')[0]
                        return z3.And(y.proposer.issome, y.proposer.some == c.sender, *[raw(y.fld(f)) == raw(getattr(a, f)) for f in fs])
                    P.ob(o, 'first the proposal is made, in the name of the sender, as asked', z3.And(B(ms[0].j is None), ms[0].is_exec_to(c.pre(PM).some, it, asked), ms[0].exec.funds.n == 0, ms[0].reply_on.is_('Never')))
                    hooked(P, c, o, HK, ms[1:], it, asked)
                    taken(P, c, o, cf.some.deposit_info, [m for m in ms[1:] if m.j is None])
                    n = proposal_id(c); k = o.skolem(DP); d = o.post(DP, n.some)
                    P.ob(o, 'the deposit is recorded for the proposal, as the sender\'s', z3.And(n.issome, d.issome, raw(d.some[0]) == raw(cf.some.deposit_info), d.some[1] == c.sender))
                    P.ob(o, 'no other deposit changes', z3.Implies(k != n.some, raw(o.post(DP, k)) == raw(c.pre(DP, k))))
                    frame(P, o, DP)
        r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
        for o in r.oks:
            setup(P, c, o, r.msg); no_msgs(P, o); frame(P, o, PM, DAO, CF, 'contract_info')
        queries(P, c)
        policy_edits(P, c)

"""proposals that need approval: the approval module and the approver module."""
from spec import *
from common import *
from prepropose import *
from c09 import proposal_id

AP, ID, PE, CO, CR = 'approver', 'current_id', 'pending_proposals', 'completed_proposals', 'created_to_completed_proposal'


def inv(c, pre, k):
    """an approval id is used for one proposal, pending or completed, and was handed out"""
    cur = pre(ID); n = z3.If(cur.isnone, 0, cur.some); p, q = pre(PE, k), pre(CO, k)
    return z3.And(z3.Implies(p.issome, z3.And(k <= n, q.isnone, p.some.approval_id == k, p.some.status.is_('Pending'))),
                  z3.Implies(q.issome, z3.And(k <= n, q.some.approval_id == k, z3.Not(q.some.status.is_('Pending')))))


def others(P, c, o, ns, k):
    q = o.skolem(ns)
    P.ob(o, f'nothing else changes: {ns}', z3.Implies(q != raw(k), raw(o.post(ns, q)) == raw(c.pre(ns, q))))


def settled(P, c, o, i):
    """the pending proposal i moves to the completed ones"""
    p = c.pre(PE, i)
    P.ob(o, 'only the approver', z3.And(c.pre(AP).issome, c.pre(AP).some == c.sender))
    P.ob(o, 'it was pending and is no more', z3.And(p.issome, o.post(PE, i).isnone))
    q = o.post(CO, i)
    P.ob(o, 'it is completed, as it was', z3.And(q.issome, same_but(q.some, p.some, 'status')))
    others(P, c, o, PE, i); others(P, c, o, CO, i)


def check(P):
    crate = 'dao_pre_propose_approval_single'
    c = P.contract(crate, contracts={VALIDATE: validate_contract})
    ext = ('Approve', 'Reject', 'UpdateApprover')
    c.run_all('contract::execute', skip=('Extension', 'UpdateSubmissionPolicy'))
    for s in ext: c.run('contract::execute', 'Extension', sub=s)
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            ms = o.msgs(); k = z3.FreshConst(z3.IntSort(), 'ik')
            if {PE, CO, ID} & set(o.written()): P.ob(o, 'approval ids stay unique', inv(c, o.post, k), [inv(c, c.pre, k)])
            if v in ext:
                m = r.msg.as_('Extension').msg.as_(v)
                if v == 'UpdateApprover':
                    P.ob(o, 'only the approver', z3.And(c.pre(AP).issome, c.pre(AP).some == c.sender))
                    P.ob(o, 'it hands over to the one named', z3.And(o.post(AP).issome, o.post(AP).some == m.address))
                    no_msgs(P, o); frame(P, o, AP); continue
                i = m.id; p = c.pre(PE, i).some; q = o.post(CO, i).some
                settled(P, c, o, i)
                if v == 'Approve':
                    n = proposal_id(c); d = o.post(DP, n.some)
                    P.ob(o, 'it is marked approved, with the proposal created', z3.And(n.issome, q.status.is_('Approved'), only(q.status.as_('Approved'), 'created_proposal_id') == n.some if False else q.status.as_('Approved').created_proposal_id == n.some, o.post(CR, n.some).issome, o.post(CR, n.some).some == i))
                    P.ob(o, 'its deposit is recorded for that proposal, as the proposer\'s', z3.And(d.issome, raw(d.some[0]) == raw(p.deposit), d.some[1] == p.proposer))
                    others(P, c, o, DP, n.some); others(P, c, o, CR, n.some)
                    P.ob(o, 'exactly what was submitted is proposed, once', z3.And(B(len(ms) == 1 and ms[0].j is None), ms[0].is_exec_to(c.pre(PM).some, c.adt(crate, 'msg::ProposeMessageInternal'), lambda x: raw(x.as_('Propose')[0]) == raw(p.msg)), ms[0].exec.funds.n == 0, ms[0].reply_on.is_('Never')))
                    frame(P, o, PE, CO, CR, DP)
                else:
                    P.ob(o, 'it is marked rejected', q.status.is_('Rejected'))
                    dep = p.deposit; to = z3.If(dep.some.refund_policy.is_('Always'), raw(p.proposer), raw(c.pre(DAO).some))
                    refund(P, c, o, ms, dep, to)
                    if len(ms) == 1: P.ob(o, 'the DAO is known', z3.Or(dep.some.refund_policy.is_('Always'), c.pre(DAO).issome))
                    frame(P, o, PE, CO)
            elif base(P, c, r, o, v):
                if v.endswith('Hook') and v != 'ProposalCompletedHook':
                    P.ob(o, 'only the approver or the DAO', z3.Or(z3.And(c.pre(AP).issome, c.pre(AP).some == c.sender), z3.And(c.pre(DAO).issome, c.pre(DAO).some == c.sender)))
            elif v == 'Propose':
                cf = c.pre(CF); a = r.msg.as_(v).msg.as_('Propose'); cur = c.pre(ID); n = z3.If(cur.isnone, 0, cur.some) + 1
                P.ob(o, 'only whom the policy lets propose', z3.And(cf.issome, may_submit(c, c.sender)))
                taken(P, c, o, cf.some.deposit_info, [m for m in ms if m.j is None])
                x = o.post(PE, n); p = x.some
                P.ob(o, 'it waits for approval under a new id', z3.And(o.post(ID).issome, o.post(ID).some == n, x.issome, p.status.is_('Pending'), p.approval_id == n, c.pre(PE, n).isnone, c.pre(CO, n).isnone), [inv(c, c.pre, n)])
                P.ob(o, 'as submitted, by the sender, with the deposit of now', z3.And(p.proposer == c.sender, raw(p.deposit) == raw(cf.some.deposit_info), p.msg.proposer.issome, p.msg.proposer.some == c.sender, *[raw(p.msg.fld(f)) == raw(getattr(a, f)) for f in ('title', 'description', 'msgs', 'vote')]))
                others(P, c, o, PE, n)
                et = [t for t in c.ex.mir.tys.values() if t.k == 'adt' and t.name == 'dao_pre_propose_base::msg::ExecuteMsg' and 'ApproverProposeMessage' in t.s and 'Empty' in t.s]
                if not et: raise Lost('message to the approver')
                hooked(P, c, o, HK, ms, et[0], lambda y: (lambda z: z3.And(y.is_('Propose'), raw(z.title) == raw(a.title), raw(z.description) == raw(a.description), z.approval_id == n))(y.as_('Propose').msg.as_('Propose')))
                frame(P, o, PE, ID)
            else: P.ob(o, f'{v} is known', FALSE)
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        setup(P, c, o, r.msg); no_msgs(P, o); frame(P, o, PM, DAO, CF, AP, 'contract_info')
        P.ob(o, 'the approver is the one named', z3.And(o.post(AP).issome, o.post(AP).some == only(r.msg.extension, 'approver')))
    queries(P, c)
    for v in ('IsPending', 'Proposal'):
        r = c.run('contract::query', 'QueryExtension', sub=v); P.reach(r.oks, r.name)
        i = r.msg.as_('QueryExtension').msg.as_(v).id; p, q = c.pre(PE, i), c.pre(CO, i)
        for o in r.oks:
            if v == 'IsPending':
                a = o.json(next(t for t in c.ex.mir.tys.values() if t.s == 'bool'))
                P.ob(o, 'tells whether it is pending', z3.And(a.issome, raw(a.some) == p.issome, z3.Or(p.issome, q.issome)))
            else:
                a = o.json(c.nsty(PE)[1])
                P.ob(o, 'shows it, pending or completed', z3.And(a.issome, raw(a.some) == z3.If(p.issome, raw(p.some), raw(q.some)), z3.Or(p.issome, q.issome)))
    policy_edits(P, c)
    approver(P)


PA, P2A, A2P = 'pre_propose_approval_contract', 'proposal_to_pre_propose', 'pre_propose_to_proposal'


def approver(P):
    c = P.contract('dao_pre_propose_approver')
    c.run_all('contract::execute')
    for r in c.runs:
        v = r.name.split('.')[-1]
        if v in ('UpdateConfig', 'UpdateSubmissionPolicy'):
            P.lemma(c, f'{v} is refused', B(not r.oks)); continue
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            ms = o.msgs(); ap = c.pre(PA)
            ext = next((t for t in c.ex.mir.tys.values() if t.k == 'adt' and t.name == 'dao_pre_propose_base::msg::ExecuteMsg' and 'approval_single::msg::ExecuteExt' in t.s), None)
            if v == 'Propose':
                a = r.msg.as_(v).msg.as_('Propose'); n = proposal_id(c, P2A)
                P.ob(o, 'only the approval module', z3.And(ap.issome, ap.some == c.sender))
                x = o.post(P2A, n.some); y = o.post(A2P, a.approval_id)
                P.ob(o, 'the proposal to come stands for the one to approve', z3.And(n.issome, x.issome, x.some == a.approval_id, y.issome, y.some == n.some))
                others(P, c, o, P2A, n.some); others(P, c, o, A2P, a.approval_id)
                t = c.adt('dao_pre_propose_approver', 'msg::ProposeMessageInternal')
                P.ob(o, 'proposed once, without messages to execute', z3.And(B(len(ms) == 1 and ms[0].j is None), ms[0].is_exec_to(c.pre(PM).some, t, lambda z: (lambda w: z3.And(raw(w.title) == raw(a.title), raw(w.description) == raw(a.description), w.msgs.n == 0, w.proposer.issome, w.proposer.some == c.sender))(z.as_('Propose'))), ms[0].exec.funds.n == 0, ms[0].reply_on.is_('Never')))
                frame(P, o, P2A, A2P)
            elif v == 'ProposalCompletedHook':
                m = r.msg.as_(v); st = m.new_status; x = c.pre(P2A, m.proposal_id)
                P.ob(o, 'only the proposal module', z3.And(c.pre(PM).issome, c.pre(PM).some == c.sender))
                P.ob(o, 'only once it is over', st.is_('Closed', 'Executed', 'Vetoed'))
                P.ob(o, 'what was executed is approved, what was not is rejected', z3.And(B(len(ms) == 1 and ms[0].j is None), ap.issome, x.issome, ms[0].is_exec_to(ap.some, ext, lambda z: (lambda w: z3.And(z.is_('Extension'),
                     z3.If(st.is_('Executed'), z3.And(w.is_('Approve'), w.as_('Approve').id == x.some), z3.And(w.is_('Reject'), w.as_('Reject').id == x.some))))(z.as_('Extension').msg)), ms[0].exec.funds.n == 0, ms[0].reply_on.is_('Never')))
                frame(P, o)
            elif v == 'Extension':
                only_dao(P, c, o)
                P.ob(o, 'leaves the approval module to the DAO', z3.And(B(len(ms) == 2 and all(m.j is None for m in ms)), ap.issome,
                     ms[0].is_exec_to(ap.some, ext, lambda z: z3.And(z.is_('RemoveProposalSubmittedHook'), z.as_('RemoveProposalSubmittedHook').address == c.self_addr)),
                     ms[1].is_exec_to(ap.some, ext, lambda z: (lambda w: z3.And(z.is_('Extension'), w.is_('UpdateApprover'), w.as_('UpdateApprover').address == c.sender))(z.as_('Extension').msg)),
                     *[z3.And(m.exec.funds.n == 0, m.reply_on.is_('Never')) for m in ms]))
                frame(P, o)
            elif base(P, c, r, o, v):
                if v.endswith('Hook'): only_dao(P, c, o)
            else: P.ob(o, f'{v} is known', FALSE)
        if v == 'ProposalCompletedHook':
            # total: a proposal that is over can always be reported (an error here would open the approver DAO to proposals by anybody)
            m = r.msg.as_(v); x = c.pre(P2A, m.proposal_id)
            for o in r.errs:
                P.ob(o, 'the end of a proposal is always taken note of', z3.Not(z3.And(c.pre(PM).issome, c.pre(PM).some == c.sender, c.pre(PA).issome, x.issome, m.new_status.is_('Closed', 'Executed', 'Vetoed'))))
    r = c.run('contract::instantiate'); P.reach(r.oks, r.name)
    for o in r.oks:
        dq = q_core(c, c.sender, c.nsty(DAO)[1], 'Dao'); a = o.post(PA)
        P.ob(o, 'bound to the proposal module that created it, to its DAO and to the approval module named', z3.And(o.post(PM).issome, o.post(PM).some == c.sender, dq.issome, o.post(DAO).issome, o.post(DAO).some == dq.some, a.issome, a.some == only(r.msg, 'pre_propose_approval_contract')))
        P.ob(o, 'no deposit', z3.And(o.post(CF).issome, o.post(CF).some.deposit_info.isnone))
        no_msgs(P, o); frame(P, o, PM, DAO, CF, PA, 'contract_info')
        cb = c.decode(o.data.some, c.adt('dao_interface', 'state::ModuleInstantiateCallback')); l = only(cb.some, 'msgs')
        def asks(x, f):
            e = x.as_('Wasm')[0].as_('Execute'); d = c.decode(e.msg, ext)
            return z3.And(x.is_('Wasm'), x.as_('Wasm')[0].is_('Execute'), e.contract_addr == a.some, e.funds.n == 0, d.issome, f(d.some))
        P.ob(o, 'asks to become a hook and the approver of that module', z3.And(o.data.issome, cb.issome, l.n == 2, asks(l.at(0), lambda z: z3.And(z.is_('AddProposalSubmittedHook'), z.as_('AddProposalSubmittedHook').address == c.self_addr)),
             asks(l.at(1), lambda z: (lambda w: z3.And(z.is_('Extension'), w.is_('UpdateApprover'), w.as_('UpdateApprover').address == c.self_addr))(z.as_('Extension').msg))))
    r = c.run('contract::query', 'CanPropose'); P.reach(r.oks, r.name)
    for o in r.oks:
        a = o.json(next(t for t in c.ex.mir.tys.values() if t.s == 'bool'))
        P.ob(o, 'only the approval module may propose', z3.And(a.issome, c.pre(PA).issome, raw(a.some) == (r.msg.as_('CanPropose').address == c.pre(PA).some)))



"""Contracts about proposal lifecycles shared by the proposal modules."""
from spec import *
from dv import *
from c04 import numbered

TERMINAL = ('Executed', 'Closed', 'Vetoed', 'ExecutionFailed')
ON = {'never': 'Never', 'error': 'Error', 'success': 'Success', 'always': 'Always'}


def sub_is(m, on, id):
    return z3.And(m.reply_on.is_(on), m.id == id)


def hook_addr(c, ns, m):
    """message m goes to the hook it stands for (index m.j of the registered list)"""
    hs = c.pre(ns)
    if m.j is None: return FALSE
    return z3.And(hs.issome, m.j < hs.some.n, m.exec.contract_addr == hs.some.at(m.j))


def spell(c, x):
    """the text of a value (Display)"""
    return c.ex.fn('to_string<%s>' % raw(x).sort().name(), raw(x).sort(), E.StrS)(raw(x))


def status_hook(c, m, pid, old=None, new=None, ns='proposal_hooks'):
    """m tells a registered hook about a status change (from old to new); a failure of hook i answers with id (i << 3) | 1"""
    ty = c.adt('dao_hooks', 'proposal::ProposalHookExecuteMsg')
    def f(to, h):
        x = h.as_('ProposalHook')[0]; y = x.as_('ProposalStatusChanged')
        return z3.And(x.is_('ProposalStatusChanged'), y.id == pid, y.old_status == spell(c, old) if old is not None else TRUE, y.new_status == spell(c, new) if new is not None else TRUE)
    return z3.And(m.is_exec_msg(ty, f),
                  m.exec.funds.n == 0, m.reply_on.is_('Error'), hook_addr(c, ns, m), m.id == 8 * m.j + 1 if m.j is not None else FALSE)


def new_hook(c, m, pid, proposer, ns='proposal_hooks'):
    ty = c.adt('dao_hooks', 'proposal::ProposalHookExecuteMsg')
    return z3.And(m.is_exec_msg(ty, lambda to, h: z3.And(h.as_('ProposalHook')[0].is_('NewProposal'), h.as_('ProposalHook')[0].as_('NewProposal').id == pid,
                  h.as_('ProposalHook')[0].as_('NewProposal').proposer == proposer)),
                  m.exec.funds.n == 0, m.reply_on.is_('Error'), hook_addr(c, ns, m), m.id == 8 * m.j + 1 if m.j is not None else FALSE)


def vote_hook(c, m, pid, voter, vote, ns='vote_hooks'):
    ty = c.adt('dao_hooks', 'vote::VoteHookExecuteMsg')
    def f(to, h):
        n = h.as_('VoteHook')[0].as_('NewVote')
        return z3.And(n.proposal_id == pid, n.voter == voter, n.vote == spell(c, vote))
    return z3.And(m.is_exec_msg(ty, f), m.exec.funds.n == 0, m.reply_on.is_('Error'), hook_addr(c, ns, m), m.id == 8 * m.j + 2 if m.j is not None else FALSE)


def completed_hook(c, m, pid, status, policy='creation_policy'):
    """m tells the pre-propose module that the proposal is completed"""
    pol = c.pre(policy)
    ty = next((t for t in c.ex.mir.tys.values() if t.k == 'adt' and t.name == 'dao_pre_propose_base::msg::ExecuteMsg' and str(t).count('Empty') >= 2 and any(v['n'] == 'ProposalCompletedHook' for v in t.variants)), None)
    if ty is None: raise Lost('pre-propose ExecuteMsg')
    def f(d):
        h = d.as_('ProposalCompletedHook')
        return z3.And(d.is_('ProposalCompletedHook'), h.proposal_id == pid, h.new_status.is_(status))
    return z3.And(pol.issome, pol.some.is_('Module'), m.is_exec_to(pol.some.as_('Module').addr, ty, f), m.exec.funds.n == 0, sub_is(m, 'Error', 4))


def exec_hook(c, m, pid, msgs, dao, on_failure):
    """m hands the messages of the proposal to the DAO"""
    ty = c.adt('dao_interface', 'msg::ExecuteMsg')
    return z3.And(m.is_exec_to(dao, ty, lambda d: z3.And(d.is_('ExecuteProposalHook'), raw(d.as_('ExecuteProposalHook').msgs) == raw(msgs))),
                  m.exec.funds.n == 0, z3.If(on_failure, sub_is(m, 'Error', 8 * pid), m.reply_on.is_('Never')))


def hooks_told(P, c, o, ns, label, f, when=None, hyps=()):
    """one of the (lists of) messages reaches every hook of list ns: f says what each message is"""
    hs = c.pre(ns)
    P.ob(o, label, z3.Implies(z3.And(hs.issome, hs.some.n > 0, TRUE if when is None else when),
         z3.Or(*[z3.And(m.n == hs.some.n, z3.Implies(z3.And(m.j >= 0, m.j < m.n), f(m))) for m in o.msgs() if m.j is not None])), list(hyps))


def spelled(c, a, b):
    """assumed: different statuses are spelled differently"""
    return z3.Implies(spell(c, a) == spell(c, b), raw(a) == raw(b))


def lifecycle(P, c, PR, CF, K, msgs_of):
    vq = c.adt('dao_interface', 'voting::Query'); vr = c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse')
    cf0 = c.pre(CF).some
    def power(who, h): return c.smart(vq, vr, cf0.dao, c.make(vq, 'VotingPowerAtHeight', address=who, height=c.some(h)))
    for r in c.runs:
        v = r.name.split('.')[-1]
        P.reach(r.oks, f'{r.name} succeeds')
        for o in r.oks:
            k = o.skolem(PR); a, b = c.pre(PR, k), o.post(PR, k)
            P.ob(o, 'a finished proposal stays as it ended', z3.Implies(z3.And(a.issome, a.some.status.is_(*TERMINAL)), z3.And(b.issome, b.some.status == a.some.status)), [numbered(c, PR, c.pre, k)])
            if v in ('Execute', 'Close', 'Veto'):
                pid = r.msg.as_(v).proposal_id
                p0 = c.pre(PR, pid); p1 = o.post(PR, pid)
                P.ob(o, 'no other proposal changes', z3.Implies(k != pid, a == b))
                St, hst = K.status(c, p0.some); S = V(c.ex, p0.some.status.ty, St); hst = hst + K.wf(c, p0.some)
                ms = o.msgs()
                end = {'Execute': 'Executed', 'Close': 'Closed', 'Veto': 'Vetoed'}[v]
                P.ob(o, f'becomes {end}', z3.And(p0.issome, p1.issome, p1.some.status.is_(end), same_but(p0.some, p1.some, 'status')))
                for ns in o.written():
                    if ns != PR: P.ob(o, f'frame: {ns}', o.unchanged(ns))
                if v == 'Execute':
                    veto = p0.some.veto
                    P.ob(o, 'only a passed proposal, or early by the vetoer during the timelock',
                         z3.Or(S.is_('Passed'), z3.And(S.is_('VetoTimelock'), veto.issome, veto.some.vetoer == c.sender, veto.some.early_execute)), hst)
                    pw = power(c.sender, p0.some.start_height)
                    P.ob(o, 'only members if so configured', z3.Implies(z3.And(cf0.only_members_execute, S.is_('Passed')), z3.And(pw.issome, pw.some.power > 0)), hst)
                    mm, hmm = msgs_of(c, p0.some)
                    first = ms[0] if ms and ms[0].j is None else None
                    isx = exec_hook(c, first, pid, mm, cf0.dao, cf0.close_proposal_on_execution_failure) if first is not None else FALSE
                    P.ob(o, 'its messages go to the DAO once, as proposed', z3.Implies(mm.n > 0, isx), [pid < 2**61] + hst + hmm)
                    # every other message is a notification
                    for i, m in enumerate(ms):
                        g = z3.Or(status_hook(c, m, pid, S, p1.some.status), completed_hook(c, m, pid, end))
                        if m.j is not None: g = z3.Implies(z3.And(m.j >= 0, m.j < m.n), g)
                        if i == 0 and first is not None: g = z3.If(mm.n > 0, isx, g)
                        P.ob(o, f'message {i} is the execution or a notification', g, [pid < 2**61] + hst + hmm)
                else:
                    if v == 'Close': P.ob(o, 'only a rejected proposal', S.is_('Rejected'), hst)
                    else:
                        veto = p0.some.veto
                        P.ob(o, 'only the vetoer, in the timelock or before if allowed', z3.And(veto.issome, veto.some.vetoer == c.sender,
                             z3.Or(S.is_('VetoTimelock'), z3.And(S.is_('Open'), veto.some.veto_before_passed))), hst)
                    for i, m in enumerate(ms):
                        g = z3.Or(status_hook(c, m, pid, S, p1.some.status), completed_hook(c, m, pid, end))
                        if m.j is not None: g = z3.Implies(z3.And(m.j >= 0, m.j < m.n), g)
                        P.ob(o, f'message {i} is a notification', g, hst)
                pol = c.pre('creation_policy')
                isc = [completed_hook(c, m, pid, end) for m in ms if m.j is None]
                P.ob(o, 'the pre-propose module is told', z3.Implies(z3.And(pol.issome, pol.some.is_('Module')), z3.Or(*isc) if isc else FALSE))
                hs = c.pre('proposal_hooks')
                segs = [m for m in ms if m.j is not None]
                P.ob(o, 'every proposal hook is told', z3.Implies(z3.And(hs.issome, S.t != raw(p1.some.status)), z3.Or(hs.some.n == 0, *[m.n == hs.some.n for m in segs])), [spelled(c, S, p1.some.status)] + hst)
            elif v in ('Vote', 'Propose', 'UpdateRationale'):
                if v == 'Vote':
                    pid = r.msg.as_(v).proposal_id
                    for i, m in enumerate(o.msgs()):
                        g = z3.Or(status_hook(c, m, pid, c.pre(PR, pid).some.status, o.post(PR, pid).some.status), vote_hook(c, m, pid, c.sender, r.msg.as_(v).vote))
                        if m.j is not None: g = z3.Implies(z3.And(m.j >= 0, m.j < m.n), g)
                        P.ob(o, f'message {i} is a notification', g)
                    a, b = c.pre(PR, pid).some.status, o.post(PR, pid).some.status
                    hooks_told(P, c, o, 'vote_hooks', 'every vote hook is told of the vote', lambda m: vote_hook(c, m, pid, c.sender, r.msg.as_(v).vote))
                    hooks_told(P, c, o, 'proposal_hooks', 'every proposal hook is told if the status changed', lambda m: status_hook(c, m, pid, a, b), raw(a) != raw(b), [spelled(c, a, b)])
                elif v == 'Propose':
                    pid = c.pre('proposal_count').val(0) + 1; m0 = r.msg.as_(v)[0]
                    prop = z3.If(m0.proposer.isnone, c.sender, m0.proposer.some)
                    for i, m in enumerate(o.msgs()):
                        g = z3.Or(status_hook(c, m, pid, None, o.post(PR, pid).some.status), vote_hook(c, m, pid, prop, m0.vote.some.vote), new_hook(c, m, pid, prop))
                        if m.j is not None: g = z3.Implies(z3.And(m.j >= 0, m.j < m.n), g)
                        P.ob(o, f'message {i} is a notification', g)
                    hooks_told(P, c, o, 'proposal_hooks', 'every proposal hook is told of the new proposal', lambda m: new_hook(c, m, pid, prop))
                    hooks_told(P, c, o, 'vote_hooks', 'every vote hook is told of a first vote', lambda m: vote_hook(c, m, pid, prop, m0.vote.some.vote), m0.vote.issome)
                    pol = c.pre('creation_policy')
                    P.ob(o, 'by whom the policy allows, for whom it says', z3.And(pol.issome, z3.If(pol.some.is_('Module'),
                         z3.And(c.sender == pol.some.as_('Module').addr, m0.proposer.issome), m0.proposer.isnone)))
                    active(P, c, o, cf0.dao)
                else: P.ob(o, 'no message', o.nmsgs() == 0)
            else:
                P.ob(o, 'only the DAO', z3.And(c.pre(CF).issome, c.sender == cf0.dao))
                P.ob(o, 'no proposal changes', o.unchanged(PR))
                may = {'UpdateConfig': [CF], 'UpdatePreProposeInfo': ['creation_policy'], 'AddProposalHook': ['proposal_hooks'], 'RemoveProposalHook': ['proposal_hooks'],
                       'AddVoteHook': ['vote_hooks'], 'RemoveVoteHook': ['vote_hooks']}.get(v, [])
                for ns in o.written():
                    if ns not in may: P.ob(o, f'frame: {ns}', o.unchanged(ns))
                if v == 'UpdatePreProposeInfo':
                    pol = o.post('creation_policy'); inf = r.msg.as_(v).info
                    P.ob(o, 'anyone proposes until the module is there', z3.And(pol.issome, pol.some.is_('Anyone')))
                    P.ob(o, 'one module instantiation, if one is asked for', z3.And(o.nmsgs() == z3.If(inf.is_('ModuleMayPropose'), 1, 0),
                         o.all_msgs(lambda m: z3.And(m.is_inst(), sub_is(m, 'Success', 3), inst_for(c, m, inf.as_('ModuleMayPropose').info, cf0.dao)))))
                elif v == 'UpdateConfig':
                    P.ob(o, 'no message', o.nmsgs() == 0)
                    x = o.post(CF); m = r.msg.as_(v)
                    sound_config(P, o, x)
                    P.ob(o, 'the configuration is the one asked for', z3.And(x.issome, *[x.some.fld(f) == m.fld(f) if isinstance(m, V) else x.some.fld(f) == getattr(m, f) for f, _ in x.some.ty.fields()]))
                elif 'Hook' in v:
                    hook_registry(P, c, o, v, may[0], r.msg.as_(v).address)
                else: P.ob(o, 'no message', o.nmsgs() == 0)
    reply(P, c, PR)
    r = c.run('contract::instantiate')
    P.reach(r.oks, 'instantiate')
    for o in r.oks:
        m = r.msg; x = o.post(CF); pol = o.post('creation_policy'); inf = m.pre_propose_info
        sound_config(P, o, x)
        P.ob(o, 'the DAO is who instantiates it', z3.And(x.issome, x.some.dao == c.sender))
        P.ob(o, 'the configuration is the one asked for', z3.And(*[x.some.fld(f) == (m.fld(f) if isinstance(m, V) else getattr(m, f)) for f, _ in x.some.ty.fields() if f != 'dao']))
        P.ob(o, 'no proposals to begin with', z3.And(o.post('proposal_count').issome, o.post('proposal_count').some == 0))
        P.ob(o, 'anyone proposes until the module is there', z3.And(pol.issome, pol.some.is_('Anyone')))
        P.ob(o, 'one module instantiation, if one is asked for', z3.And(o.nmsgs() == z3.If(inf.is_('ModuleMayPropose'), 1, 0),
             o.all_msgs(lambda y: z3.And(y.is_inst(), sub_is(y, 'Success', 3), inst_for(c, y, inf.as_('ModuleMayPropose').info, c.sender)))))
        for ns in o.written():
            if ns not in (CF, 'creation_policy', 'proposal_count', 'contract_info'): P.ob(o, f'frame: {ns}', o.unchanged(ns))


def hook_registry(P, c, o, v, ns, ad):
    h0, h1 = c.pre(ns), o.post(ns)
    P.ob(o, 'no message', o.nmsgs() == 0)
    if v.startswith('Add'):
        n0 = z3.If(h0.isnone, 0, h0.some.n)
        P.ob(o, 'appended once', z3.And(h1.issome, h1.some.n == n0 + 1, h1.some.at(n0) == ad, h1.some.all(lambda x, j: z3.Implies(j < n0, z3.And(x == h0.some.at(j), x != ad)))))
    else:
        P.ob(o, 'taken out', z3.And(h0.issome, h1.issome, h1.some.n == h0.some.n - 1, h0.some.any(lambda x, j: z3.And(x == ad,
             h1.some.all(lambda y, i: y == h0.some.at(z3.If(i < j, i, i + 1)))))))


def taken_out(h0, h1, ix):
    return z3.And(h0.issome, h1.issome, ix < h0.some.n, h1.some.n == h0.some.n - 1, h1.some.all(lambda y, i: y == h0.some.at(z3.If(i < ix, i, i + 1))))


def sound_config(P, o, x):
    mx, mn, ve = x.some.max_voting_period, x.some.min_voting_period, x.some.veto
    P.ob(o, 'a minimum voting period is no longer than the maximum', z3.Or(mn.isnone, *[z3.And(mn.some.is_(k), mx.is_(k), mn.some.as_(k)[0] <= mx.as_(k)[0]) for k in ('Time', 'Height')]))
    P.ob(o, 'a veto timelock is measured as the voting period is', z3.Or(ve.isnone, *[z3.And(ve.some.timelock_duration.is_(k), mx.is_(k)) for k in ('Time', 'Height')]))


def inst_for(c, x, info, dao):
    """message x instantiates the module described by info, for the DAO"""
    w = x.msg.as_('Wasm')[0].as_('Instantiate'); ad = info.admin
    exp = z3.If(ad.isnone, w.admin.isnone, z3.And(w.admin.issome, w.admin.some == z3.If(ad.some.is_('Address'), ad.some.as_('Address').addr, dao)))
    return z3.And(x.msg.as_('Wasm')[0].is_('Instantiate'), w.code_id == info.code_id, w.msg == info.msg, w.label == info.label, w.funds == info.funds, exp)


def active(P, c, o, dao):
    iq = c.adt('dao_interface', 'msg::QueryMsg')
    ir = c.adt('dao_interface', 'voting::IsActiveResponse'); vq = c.adt('dao_interface', 'voting::Query')
    at = [t for t in c.ex.mir.tys.values() if t.k == 'adt' and t.name == 'cosmwasm_std::addresses::Addr'][0]
    vm = c.smart(iq, at, dao, c.make(iq, 'VotingModule'))
    ac = c.smart(vq, ir, vm.some, c.make(vq, 'IsActive'))
    P.ob(o, 'not while the DAO is inactive', z3.And(vm.issome, z3.Or(ac.isnone, raw(ac.some))))


def instantiated(c, reply):
    """what an instantiation answered (cw_utils::parse_reply_instantiate_data)"""
    ty = c.adt('cw_utils', 'parse_reply::MsgInstantiateContractResponse'); s = c.ex.sort(ty)
    return OptV(c.ex, ty, c.ex.fn('reply<%s>' % s.name(), E.StrS, c.ex.opt(s))(raw(reply.result.as_('Ok')[0].data.some)))


def reply(P, c, PR):
    r = c.run('contract::reply')
    P.reach(r.oks, 'reply')
    m = r.msg; kind = m.id % 8; ix = m.id / 8
    for o in r.oks:
        k = o.skolem(PR); a, b = c.pre(PR, k), o.post(PR, k)
        P.ob(o, 'a failed execution marks its proposal and no other', z3.If(z3.And(kind == 0, k == ix), z3.And(a.issome, b.issome, b.some.status.is_('ExecutionFailed'), same_but(a.some, b.some, 'status')), a == b))
        P.ob(o, 'no message', o.nmsgs() == 0)
        c0, c1 = c.pre('creation_policy'), o.post('creation_policy')
        for n, t in (('proposal_hooks', 1), ('vote_hooks', 2)):
            h0, h1 = c.pre(n), o.post(n)
            P.ob(o, f'a failing {n} entry is taken out, nothing else is', z3.If(kind == t,
                 taken_out(h0, h1, ix), o.unchanged(n)))
        P.ob(o, 'the pre-propose module: installed after its instantiation, dropped after it failed', z3.If(kind == 3, z3.And(c1.issome, c1.some.is_('Module'), instantiated(c, m).issome, c1.some.as_('Module').addr == instantiated(c, m).some.contract_address),
             z3.If(kind == 4, z3.And(c0.issome, c0.some.is_('Module'), c1.issome, c1.some.is_('Anyone')), o.unchanged('creation_policy'))))
        P.ob(o, 'only known replies', kind <= 4)
        for ns in o.written():
            if ns not in (PR, 'proposal_hooks', 'vote_hooks', 'creation_policy'): P.ob(o, f'frame: {ns}', o.unchanged(ns))

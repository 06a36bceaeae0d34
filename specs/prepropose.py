"""pre-propose modules: who may submit, deposits taken and given back, configuration."""
from spec import *
from common import *

CF, DP, DAO, PM, HK = 'config', 'deposits', 'dao', 'proposal_module', 'proposal_submitted_hooks'


def q_core(c, dao, rty, variant, **f):
    q = c.adt('dao_interface', 'voting::Query')
    return c.smart(q, rty, dao, c.make(q, variant, **f))


def core_power(c, dao, who):
    return q_core(c, dao, c.adt('dao_interface', 'voting::VotingPowerAtHeightResponse'), 'VotingPowerAtHeight', address=who, height=None)


def has(l, who): return l.any(lambda x, i: x == who)


def may_submit(c, who):
    """the submission policy lets who propose"""
    pol = c.pre(CF).some.submission_policy; s = pol.as_('Specific')
    pw = core_power(c, c.pre(DAO).some, who)
    return z3.If(pol.is_('Anyone'), z3.Not(has(pol.as_('Anyone').denylist, who)),
                 z3.And(z3.Not(has(s.denylist, who)), z3.Or(has(s.allowlist, who), z3.And(s.dao_members, pw.issome, pw.some.power > 0))))


def policy_ok(pol):
    """somebody is allowed, nobody both allowed and denied"""
    s = pol.as_('Specific')
    return z3.Or(pol.is_('Anyone'), z3.And(z3.Or(s.dao_members, s.allowlist.n > 0), s.denylist.all(lambda x, i: z3.Not(has(s.allowlist, x)))))


VALIDATE = 'dao_voting::pre_propose::PreProposeSubmissionPolicy::validate'


def validate_contract(ex, st, inst, args):
    """callers of validate see: Ok iff the policy is valid (its body is checked against policy_ok on its own)"""
    import models as M
    ty = ex.strip_refs(M.argty(ex, inst, 0)); rty = M.retty(ex, inst)
    t = ex.term(ex.load(st, args[0].c, args[0].p), ty, st)
    r = []
    for s, z in ex.split(st, ex.fn('policy_valid', t.sort(), z3.BoolSort())(t)):
        r.append((s, M.ok(rty, M.UNIT) if z else M.err(rty, ex.sym(M.errty(rty), f'policy_error!{len(r)}'))))
    return r


def valid(pol): return pol.ex.fn('policy_valid', pol.t.sort(), z3.BoolSort())(pol.t)


def validate(P):
    c = P.contract('dao_voting')
    r = c.run(VALIDATE[len('dao_voting::'):], name='PreProposeSubmissionPolicy::validate')
    P.reach(r.oks, 'a policy is valid'); P.reach(r.errs, 'a policy is not valid')
    for o in r.oks: P.ob(o, 'accepts only policies that let somebody propose, and nobody both allowed and denied', policy_ok(r.msg))
    for o in r.errs: P.ob(o, 'accepts all of those', z3.Not(policy_ok(r.msg)))


def deposit_asked(c, asked, got, dao):
    """the deposit configured (got) is the one asked for (asked), resolved and not zero"""
    a, g = asked.some, got.some
    t = a.denom.as_('Token').denom; d = g.denom
    addr = c.nsty(DAO)[1]
    vq = c.adt('dao_interface', 'msg::QueryMsg')
    vm = c.smart(vq, addr, dao, c.make(vq, 'VotingModule'))
    dn = q_core(c, vm.some, c.adt('dao_interface', 'voting::DenomResponse'), 'Denom')
    tk = q_core(c, vm.some, addr, 'TokenContract')
    vt = a.denom.as_('VotingModuleToken').token_type
    return z3.Or(z3.And(asked.isnone, got.isnone), z3.And(asked.issome, got.issome, g.amount == a.amount, g.amount > 0, raw(g.refund_policy) == raw(a.refund_policy), z3.If(
        a.denom.is_('Token'), z3.If(t.is_('Native'), z3.And(d.is_('Native'), d.as_('Native')[0] == t.as_('Native')[0]), z3.And(d.is_('Cw20'), d.as_('Cw20')[0] == t.as_('Cw20')[0])),
        z3.And(vm.issome, z3.If(vt.is_('Native'), z3.And(d.is_('Native'), dn.issome, d.as_('Native')[0] == only(dn.some, 'denom')), z3.And(d.is_('Cw20'), tk.issome, d.as_('Cw20')[0] == tk.some))))))


def paid_in(c, dep):
    """the deposit, if native, came along: exactly that coin"""
    d = dep.some.denom; f = c.info.funds
    return z3.Or(dep.isnone, d.is_('Cw20'), z3.And(f.n == 1, f.at(0).denom == d.as_('Native')[0], f.at(0).amount == dep.some.amount))


def takes(c, m, dep):
    """m pulls the cw20 deposit from the sender"""
    d = dep.some
    return z3.And(dep.issome, d.denom.is_('Cw20'), m.is_exec_to(d.denom.as_('Cw20')[0], c.adt('cw20', 'msg::Cw20ExecuteMsg'), lambda x: z3.And(x.is_('TransferFrom'),
                  x.as_('TransferFrom').owner == c.sender, x.as_('TransferFrom').recipient == c.self_addr, x.as_('TransferFrom').amount == d.amount)), m.exec.funds.n == 0, m.reply_on.is_('Never'))


def taken(P, c, o, dep, ms):
    """of the messages ms (none of a list): exactly one takes the deposit if it is a cw20, else there is none"""
    need = z3.And(dep.issome, dep.some.denom.is_('Cw20'), dep.some.amount > 0)
    P.ob(o, 'a native deposit came along in full', paid_in(c, dep))
    if ms: P.ob(o, 'a cw20 deposit is taken from the sender, once', z3.And(B(len(ms) == 1), need, takes(c, ms[0], dep)))
    else: P.ob(o, 'a cw20 deposit is taken from the sender', z3.Not(need))


def hooked(P, c, o, ns, ms, ty, f):
    segs = [m for m in ms if m.j is not None]
    for m in segs: P.ob(o, 'hooks are told what is submitted', guarded(m, z3.And(to_hooks(c, m, ns, ty, f))))
    P.ob(o, 'every hook is told', told(o, c, ns, segs))
    P.ob(o, 'each once', B(len(segs) <= 1))


def refund(P, c, o, ms, dep, to, when=TRUE):
    """the deposit dep is paid to `to`, in one message; nothing is paid if there is none"""
    due = z3.And(dep.issome, dep.some.amount > 0)
    if len(ms) == 1: P.ob(o, 'the deposit goes, once, to whom it belongs', z3.And(due, ms[0].reply_on.is_('Never'), pays_denom(ms[0], dep.some.denom, to, dep.some.amount)))
    else: P.ob(o, 'no deposit stays unpaid', z3.And(B(len(ms) == 0), z3.Not(due)))


def only_dao(P, c, o): P.ob(o, 'only the DAO', z3.And(c.pre(DAO).issome, c.pre(DAO).some == c.sender))


def policy_edits(P, c):
    """UpdateSubmissionPolicy, case by case: kind of policy, which list, what is given"""
    V_ = 'UpdateSubmissionPolicy'
    Z = ('denylist_add', 'denylist_remove', 'allowlist_add', 'allowlist_remove')
    for kind, Ls in (('Anyone', ('denylist',)), ('Specific', ('denylist', 'allowlist'))):
        for bits in range(4 ** len(Ls)):
            on = {l + e: bool(bits >> (2 * i + j) & 1) for i, l in enumerate(Ls) for j, e in enumerate(('_add', '_remove'))}
            def fix(n, ty):
                if n not in on: return None
                return E.Adt(ty, 1, [c.ex.sym(ty.args[0], 'given.' + n)]) if on[n] else E.Adt(ty, 0, [])
            lbl = f'execute.{V_}[{kind}: ' + ', '.join(k for k in on if on[k]) + ']'
            r = c.run('contract::execute', V_, name=lbl, fix=fix, pre=lambda r: [c.ex.isvar(raw(c.pre(CF).some.submission_policy), 0 if kind == 'Anyone' else 1)] if CF in c.ex.nsty else [])
            P.reach(r.oks, f'{lbl} succeeds')
            for o in r.oks: policy_edit(P, c, r, o, kind, Ls)


def policy_edit(P, c, r, o, kind, Ls):
    m = r.msg.as_('UpdateSubmissionPolicy')
    only_dao(P, c, o)
    cf0, cf1 = c.pre(CF), o.post(CF)
    p0, p1 = cf0.some.submission_policy, cf1.some.submission_policy
    P.ob(o, 'the kind of policy and the deposit stay', z3.And(cf0.issome, cf1.issome, raw(cf1.some.deposit_info) == raw(cf0.some.deposit_info), p0.is_(kind), p1.is_(kind)))
    for l in Ls:
        a, b = getattr(p1.as_(kind), l), getattr(p0.as_(kind), l)
        add, rem = getattr(m, l + '_add'), getattr(m, l + '_remove')
        i = z3.FreshConst(z3.IntSort(), 'ei'); inr = lambda v: [i >= 0, i < v.n]
        P.ob(o, f'{l}: nobody but those before or added, and none of the removed', z3.And(z3.Or(has(b, a.at(i)), z3.And(add.issome, has(add.some, a.at(i)))), z3.Not(z3.And(rem.issome, has(rem.some, a.at(i))))), inr(a))
        P.ob(o, f'{l}: those before stay but for the removed', z3.Or(has(a, b.at(i)), z3.And(rem.issome, has(rem.some, b.at(i)))), inr(b))
        P.ob(o, f'{l}: those added are there but for the removed', z3.Or(add.isnone, has(a, add.some.at(i)), z3.And(rem.issome, has(rem.some, add.some.at(i)))), inr(add.some))
    P.ob(o, 'it lets somebody propose', valid(p1))
    s0, s1 = p0.as_('Specific'), p1.as_('Specific')
    if kind == 'Specific': P.ob(o, 'members as asked', s1.dao_members == z3.If(m.set_dao_members.issome, raw(m.set_dao_members.some), s0.dao_members))
    else: P.ob(o, 'nothing is asked for that does not apply', z3.And(m.set_dao_members.isnone, m.allowlist_add.isnone, m.allowlist_remove.isnone))
    no_msgs(P, o); frame(P, o, CF)


def base(P, c, r, o, v):
    """what all pre-propose modules do"""
    m = r.msg.as_(v) if v not in ('Extension',) else None; ms = o.msgs()
    cf0, cf1 = c.pre(CF), o.post(CF); dao = c.pre(DAO).some
    if v == 'UpdateConfig':
        only_dao(P, c, o)
        P.ob(o, 'the deposit is the one asked for', z3.And(cf0.issome, cf1.issome, deposit_asked(c, m.deposit_info, cf1.some.deposit_info, dao)))
        P.ob(o, 'the policy is the one asked for, else the one before', raw(cf1.some.submission_policy) == z3.If(m.submission_policy.issome, raw(m.submission_policy.some), raw(cf0.some.submission_policy)))
        P.ob(o, 'the policy asked for lets somebody propose', z3.Or(m.submission_policy.isnone, valid(m.submission_policy.some)))
        no_msgs(P, o); frame(P, o, CF)
    elif v == 'Withdraw':
        only_dao(P, c, o); frame(P, o)
        dep = cf0.some.deposit_info; d = dep.some.denom; u = m.denom
        nat = z3.If(u.issome, u.some.is_('Native'), d.is_('Native'))
        den = z3.If(u.issome, raw(u.some.as_('Native')[0]), raw(d.as_('Native')[0])); tok = z3.If(u.issome, raw(u.some.as_('Cw20')[0]), raw(d.as_('Cw20')[0]))
        q = c.adt('cw20', 'query::Cw20QueryMsg')
        bal = c.ex.fn('bank_balance', E.StrS, E.StrS, z3.IntSort())(c.self_addr, den)
        cb = c.smart(q, c.adt('cw20', 'query::BalanceResponse'), tok, c.make(q, 'Balance', address=c.self_addr))
        P.ob(o, 'a token is given or configured', z3.Or(u.issome, z3.And(cf0.issome, dep.issome)))
        P.ob(o, 'one payment', B(len(ms) == 1))
        cbal = only(cb.some, 'balance')
        P.ob(o, 'all of it goes to the DAO', z3.If(nat, z3.And(bal > 0, ms[0].is_send1(dao, den, bal)), z3.And(cb.issome, cbal > 0, ms[0].is_cw20_transfer(tok, dao, cbal), ms[0].exec.funds.n == 0)))
    elif v == 'ProposalCompletedHook':
        P.ob(o, 'only the proposal module', z3.And(c.pre(PM).issome, c.pre(PM).some == c.sender))
        st = m.new_status; d = c.pre(DP, m.proposal_id)
        P.ob(o, 'only once it is over', st.is_('Closed', 'Executed', 'Vetoed'))
        frame(P, o)
        dep, who = d.some[0], d.some[1]; pol = dep.some.refund_policy
        back = z3.Or(pol.is_('Always'), z3.And(pol.is_('OnlyPassed'), st.is_('Executed')))
        due = z3.And(d.issome, dep.issome, dep.some.amount > 0)
        if len(ms) == 1: P.ob(o, 'the deposit goes, once, to whom its policy says', z3.And(due, ms[0].reply_on.is_('Never'), pays_denom(ms[0], dep.some.denom, z3.If(back, raw(who), raw(dao)), dep.some.amount), z3.Or(back, c.pre(DAO).issome)))
        else: P.ob(o, 'a deposit is paid out', z3.And(B(len(ms) == 0), z3.Not(due)))
    elif v in ('AddProposalSubmittedHook', 'RemoveProposalSubmittedHook'):
        hook_edit(P, c, o, HK, v.startswith('Add'), m.address)
        no_msgs(P, o); frame(P, o, HK)
    else: return False
    return True


def setup(P, c, o, m):
    """a new pre-propose module"""
    dq = q_core(c, c.sender, c.nsty(DAO)[1], 'Dao')
    P.ob(o, 'bound to the proposal module that created it and to its DAO', z3.And(o.post(PM).issome, o.post(PM).some == c.sender, dq.issome, o.post(DAO).issome, o.post(DAO).some == dq.some))
    x = o.post(CF)
    P.ob(o, 'configured as asked', z3.And(x.issome, raw(x.some.submission_policy) == raw(m.submission_policy), valid(m.submission_policy), deposit_asked(c, m.deposit_info, x.some.deposit_info, dq.some)))


def queries(P, c):
    r = c.run('contract::query', 'CanPropose')
    P.reach(r.oks, r.name)
    for o in r.oks:
        a = o.json(next(t for t in c.ex.mir.tys.values() if t.s == 'bool'))
        P.ob(o, 'answers whether the address may propose', z3.And(a.issome, raw(a.some) == may_submit(c, r.msg.as_('CanPropose').address)))
    r = c.run('contract::query', 'DepositInfo'); P.reach(r.oks, r.name)
    for o in r.oks:
        a = o.json(c.adt('dao_pre_propose_base', 'msg::DepositInfoResponse')); d = c.pre(DP, r.msg.as_('DepositInfo').proposal_id)
        P.ob(o, 'the deposit recorded and who made it', z3.And(a.issome, d.issome, raw(a.some.deposit_info) == raw(d.some[0]), a.some.proposer == d.some[1]))

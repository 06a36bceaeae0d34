def Q(over, text): return {'over': over.split(), 'text': text}
def A(files, mech, state=(), observe=None):
    """mech: [(name, where)], state: [(name, meaning, where)]"""
    d = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: d['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: d['observe_at'] = observe
    return d

NOTES = 'check.sh rebuilds /repo (derived workspace), extracts MIR, generates and discharges the obligations. Undischarged obligations end the VIOLATION line with no-failing-input-found unless the counterexample was replayed on the real code.'
NA = {}
PROPS = []
def P(id, title, statement, quantifier, why, anchors, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=quantifier, why_tests_cant=why, anchors=anchors)
    if note: d['note'] = note
    PROPS.append(d)

CORE = 'contracts/dao-dao-core/src/contract.rs contracts/dao-dao-core/src/state.rs'
SINGLE = 'contracts/proposal/dao-proposal-single/src/contract.rs contracts/proposal/dao-proposal-single/src/proposal.rs packages/dao-voting/src/voting.rs packages/dao-voting/src/threshold.rs'
MULTI = 'contracts/proposal/dao-proposal-multiple/src/contract.rs contracts/proposal/dao-proposal-multiple/src/proposal.rs packages/dao-voting/src/multiple_choice.rs packages/dao-voting/src/voting.rs'

P('C01', 'The DAO core acts and changes only for those entitled to ask it to',
  'The core contract of a DAO changes its configuration, modules, items, token lists or sub-DAOs only in a call made by itself, emits governance messages only for an enabled proposal module or its admin (and then exactly the ones given), and changes its admin only by the admin\'s nomination followed by the nominee\'s acceptance. While paused it accepts calls only from itself and its admin. Each call does exactly what it was asked and writes no other state.',
  Q('inputs histories configurations', 'every message variant, sender, block and pre-state of the contract'),
  'The tests try a handful of senders per message; the guarantee is over every sender and every pre-state, and about the state that must not change.',
  A(CORE, [('sender checks of every execute handler', 'contracts/dao-dao-core/src/contract.rs execute_*'), ('pause gate', 'contracts/dao-dao-core/src/contract.rs execute')],
    [('admin, nominated_admin', 'the admin and its nominee', 'state.rs'), ('paused', 'until when the DAO is paused', 'state.rs'), ('proposal_modules_v2, voting_module, config_v2, items, cw20s, cw721s, sub_daos', 'what only the DAO itself changes', 'state.rs')]))
P('C02', 'The DAO core\'s registry of voting and proposal modules stays consistent',
  'The number of active proposal modules always equals the number of enabled ones in the registry, and the total equals the number of registered ones; modules only go from enabled to disabled, never disappear, and an update that would leave no active module fails. Each module to be added or replaced is instantiated once, as asked for, and takes effect exactly when its instantiation answers.',
  Q('inputs histories configurations', 'every update of modules from every consistent registry, every reply'),
  'Tests enable and disable a few modules; that the counters never drift from the registry is a statement about every history.',
  A(CORE, [('counters updated next to the registry', 'contract.rs execute_update_proposal_modules, reply'), ('last-module guard', 'contract.rs execute_update_proposal_modules')],
    [('active_proposal_module_count, total_proposal_module_count', 'number of enabled / registered modules', 'state.rs'), ('proposal_modules_v2', 'registry', 'state.rs')]))
P('C03', 'A single-choice proposal passes or fails exactly as its threshold rules say',
  'At every block the reported status of a single-choice proposal is the one its stored tallies, total power, threshold, expiration, minimum voting period, revoting and veto rules determine, for each kind of threshold (absolute percentage, threshold with quorum, absolute count). A proposal that passes or is rejected before its expiration could not be turned by any votes still to come, and never both counts as passed with fewer votes than its threshold demands.',
  Q('inputs histories configurations', 'every tally, total power, threshold, block and stored status'),
  'The tests sample vote splits; rounding at the percentage boundary and finality before expiration quantify over all tallies and all later votes.',
  A(SINGLE, [('status of a proposal', 'proposal.rs current_status, is_passed, is_rejected'), ('percentage arithmetic', 'packages/dao-voting/src/voting.rs does_vote_count_pass, does_vote_count_fail, compare_vote_count'), ('threshold validation', 'packages/dao-voting/src/threshold.rs')],
    [('proposals_v2', 'proposals with tallies and status', 'state.rs')]))
P('C04', 'Single-choice ballots and tallies always agree',
  'The tallies of a single-choice proposal are at all times the sums of the powers of its ballots: each vote records exactly one ballot for its sender with the sender\'s voting power at the proposal\'s start, revoting replaces the old ballot in the tallies and is possible only where allowed, and votes count only before expiration. A new proposal gets the next unused number, the configured rules and the total power at its start, and nothing but voting ever changes a tally, a ballot or a rule.',
  Q('inputs histories configurations', 'every message, sender, vote and pre-state'),
  'Tests replay a few vote sequences; conservation of votes is an invariant over every history.',
  A(SINGLE, [('vote and propose handlers', 'contract.rs execute_vote, execute_propose'), ('ballot power at start height', 'packages/dao-voting get_voting_power')],
    [('ballots', 'one per proposal and voter', 'state.rs'), ('proposals_v2', 'tallies', 'state.rs'), ('proposal_count', 'numbers given out', 'state.rs')]))
P('C05', 'Single-choice proposals execute once, only when passed, exactly as proposed',
  'A proposal\'s messages are handed to the DAO at most once, unchanged, and only when it has passed (or early by its vetoer during the timelock, if so configured), by a member where the DAO demands that; it can be closed only when rejected and vetoed only by its vetoer in the allowed window, and none of these states is ever left. Failing executions and failing hooks affect only their own proposal or hook, everyone registered to be notified is, and configuration, policy and hooks change only for the DAO.',
  Q('inputs histories configurations fault_sequences', 'every message, sender, block, reply and pre-state'),
  'A double execution, a premature execution or a wrongly reverted hook is a matter of histories and callers the tests do not enumerate.',
  A(SINGLE, [('execute, close and veto handlers', 'contract.rs execute_execute, execute_close, execute_veto'), ('reply tags', 'packages/dao-voting/src/reply.rs'), ('proposal creation policy', 'contract.rs execute_propose, packages/dao-voting/src/pre_propose.rs')],
    [('proposals_v2', 'status', 'state.rs'), ('creation_policy, proposal_hooks, vote_hooks', 'who may propose, who is told', 'state.rs')]))
P('C06', 'A multiple-choice proposal passes or fails exactly as its votes and quorum say',
  'At every block the reported status of a multiple-choice proposal is the one its stored tallies, total power, quorum, expiration, minimum voting period, revoting and veto rules determine: it passes only with quorum and a strict winner other than "none of the above", before expiration only if no remaining votes could change that, and ties never pass.',
  Q('inputs histories configurations', 'every tally over any number of options, total power, quorum and block'),
  'The tests sample vote splits over three or four options; the rule is over every tally and any number of options.',
  A(MULTI, [('status and winner', 'proposal.rs current_status, is_passed, is_rejected, calculate_vote_result, is_choice_unbeatable, is_choice_unbeatable_ignoring_ties'), ('quorum arithmetic', 'packages/dao-voting/src/voting.rs')],
    [('proposals', 'proposals with one tally per option', 'state.rs')]))
P('C07', 'Multiple-choice ballots and tallies always agree',
  'The tally of each option of a multiple-choice proposal is at all times the sum of the powers of its ballots for that option: each vote is for an existing option and records one ballot with the sender\'s power at the proposal\'s start, revoting moves it only where allowed, and votes count only before expiration. A new proposal gets the next unused number, the configured rules, the options proposed plus "none of the above", and nothing but voting ever changes a tally, a ballot or a rule.',
  Q('inputs histories configurations', 'every message, sender, vote and pre-state'),
  'Tests replay a few vote sequences; conservation of votes is an invariant over every history.',
  A(MULTI, [('vote and propose handlers', 'contract.rs execute_vote, execute_propose'), ('options', 'packages/dao-voting/src/multiple_choice.rs MultipleChoiceOptions::into_checked')],
    [('ballots', 'one per proposal and voter', 'state.rs'), ('proposals', 'tallies', 'state.rs')]))
P('C08', 'Multiple-choice proposals execute once, only the winning option',
  'The messages of the winning option, and of no other, are handed to the DAO at most once, unchanged, and only when the proposal has passed (or early by its vetoer during the timelock, if so configured), by a member where the DAO demands that; it can be closed only when rejected and vetoed only by its vetoer in the allowed window, and none of these states is ever left. Failing executions and failing hooks affect only their own proposal or hook, everyone registered to be notified is, and configuration, policy and hooks change only for the DAO.',
  Q('inputs histories configurations fault_sequences', 'every message, sender, block, reply and pre-state'),
  'A double execution, the wrong option\'s messages or a wrongly reverted hook is a matter of histories and callers the tests do not enumerate.',
  A(MULTI, [('execute, close and veto handlers', 'contract.rs execute_execute, execute_close, execute_veto'), ('reply tags', 'packages/dao-voting/src/reply.rs')],
    [('proposals', 'status', 'state.rs'), ('creation_policy, proposal_hooks, vote_hooks', 'who may propose, who is told', 'state.rs')]))

P('C11', 'Staked cw20 tokens are held in custody and paid back at their fair value',
  'The total of shares is always the sum of the shares of all accounts, tokens received are credited to their sender at the current price rounded down (funding adds value and no shares), and nobody can change anybody else\'s shares. Unstaking pays the value of the sender\'s own shares rounded down, at once or as a claim that matures after the unstaking duration, so the price of a share never falls; matured claims are paid once and in full. Every hook is told the right amounts, and configuration, hooks and ownership change only for the owner.',
  Q('inputs histories', 'every message, sender, amount, block and pre-state'),
  'Rounding and conservation over every amount and history cannot be sampled.',
  A('contracts/staking/cw20-stake/src/contract.rs contracts/staking/cw20-stake/src/state.rs contracts/staking/cw20-stake/src/math.rs',
    [('stake, unstake, claim, fund', 'contract.rs execute_stake, execute_unstake, execute_claim, execute_fund'), ('price of a share', 'math.rs amount_to_stake, amount_to_claim')],
    [('staked_balances, total_staked', 'shares', 'state.rs'), ('balance', 'tokens in custody', 'state.rs'), ('claims', 'unstaked tokens', 'state.rs')]))
P('C12', 'Staked native tokens give exactly their voting power and are paid back in full',
  'The voting power of an account is the amount of the staked denomination it has put in and not taken out, as of the start of a block, and the total is the sum; staking credits exactly the one coin sent, unstaking takes only the sender\'s own stake and pays that amount, at once or as a claim that matures after the unstaking duration, and matured claims are paid once. The DAO is active exactly when the configured threshold is staked. Configuration, threshold and hooks change only for the DAO and every hook is told the right amounts.',
  Q('inputs histories', 'every message, sender, amount, block and pre-state'),
  'Conservation and power snapshots hold over every history, not the sampled ones.',
  A('contracts/voting/dao-voting-token-staked/src/contract.rs contracts/voting/dao-voting-token-staked/src/state.rs',
    [('stake, unstake, claim', 'contract.rs execute_stake, execute_unstake, execute_claim'), ('active threshold', 'contract.rs query_is_active, execute_update_active_threshold')],
    [('staked_balances, total_staked', 'power by height', 'state.rs'), ('claims', 'unstaked tokens', 'state.rs')]))
P('C20', 'A vesting payment pays exactly what has vested to those entitled',
  'The recipient receives at most what has vested by now less what was claimed and slashed, and no more than is liquid; every distribution goes to the recipient and is counted as claimed. Only the owner can cancel, once: vesting then stops at the amount vested so far, the recipient and the owner are paid their liquid parts and the owner can later withdraw only what is staked beyond what the recipient is owed. Funding is exactly the total, staking is done only by the recipient with the funds of the payment, and slashes are borne as documented.',
  Q('inputs histories configurations', 'every message, sender, time, schedule and pre-state'),
  'The split depends on time, schedule, stake history and slashes together.',
  A('contracts/external/cw-vesting/src/contract.rs contracts/external/cw-vesting/src/vesting.rs contracts/external/cw-vesting/src/stake_tracker.rs packages/cw-stake-tracker/src/lib.rs',
    [('distribute, cancel, withdraw', 'vesting.rs distribute, cancel, withdraw_canceled'), ('slashes', 'vesting.rs register_slash'), ('staking', 'vesting.rs on_delegate, on_undelegate, on_redelegate')],
    [('vesting', 'the payment', 'vesting.rs'), ('staked', 'stake over time', 'packages/cw-stake-tracker')]),
  note='Nothing is claimed about the tracked number of validators after a slash is registered (DESIGN.md). The value and maximum of a piecewise curve are taken from the wynd-utils crate (assumed contract).')
P('C21', 'A token swap is atomic: both promises are exchanged or each can be taken back',
  'Nothing leaves the escrow until both parties have provided exactly what they promised, and then each receives the whole promise of the other, once. Until the other side has provided, a party can take back its own provision and nothing else. Parties and promises never change.',
  Q('inputs histories schedules', 'every message, sender, funds and pre-state'),
  'Every interleaving of the two parties has to be covered.',
  A('contracts/external/cw-token-swap/src/contract.rs contracts/external/cw-token-swap/src/state.rs',
    [('provide and withdraw', 'contract.rs do_fund, execute_withdraw')], [('counterparty_one, counterparty_two', 'promises and provisions', 'state.rs')]))
P('C23', 'The token issuer mints, burns and freezes only as allowed',
  'Tokens are minted and burnt only within the allowance of the sender, which is used up by exactly the amount; no other allowance changes. Everything else changes only for the owner, and a transfer of the frozen denomination passes only from or to an account on the allowlist and never from or to a denied one; the issuer itself is never denied or frozen.',
  Q('inputs histories', 'every message, sender, amount and pre-state'),
  'Allowance accounting and transfer rules have to hold for every caller and amount.',
  A('contracts/external/cw-tokenfactory-issuer/src/execute.rs contracts/external/cw-tokenfactory-issuer/src/hooks.rs contracts/external/cw-tokenfactory-issuer/src/helpers.rs contracts/external/cw-tokenfactory-issuer/src/contract.rs',
    [('mint, burn, allowances', 'execute.rs'), ('transfer check', 'hooks.rs beforesend_hook, helpers.rs check_is_not_frozen')],
    [('minter_allowances, burner_allowances', 'allowances', 'state.rs'), ('is_frozen, allowlist, denylist', 'transfer rules', 'state.rs')]))

P('C22', 'A fund distribution pays every share once, and never more than the whole',
  'Funds are accepted only before the funding period ends and claims only after it, and exactly what was received is shared. Each claim pays the sender its part of a token by its voting power at the distribution height over the total power at that height, rounded down, less what it already claimed; what is paid counts as claimed, each token is paid by one message, and nobody else\'s claims change. Redistribution starts all claims afresh on what is left, for the power and the total at the new height.',
  Q('inputs histories', 'every message, sender, list of tokens, block and pre-state'),
  'Over-payment needs repeated claims, duplicate tokens or powers that changed: histories the tests do not enumerate.',
  A('contracts/distribution/cw-fund-distributor/src/contract.rs contracts/distribution/cw-fund-distributor/src/state.rs',
    [('claims', 'contract.rs execute_claim_cw20s, execute_claim_natives, execute_claim_all'), ('redistribution', 'contract.rs execute_redistribute_unclaimed_funds')],
    [('cw20_balances, native_balances', 'what is shared', 'state.rs'), ('cw20_claims, native_claims', 'what was paid', 'state.rs'), ('total_power', 'the whole', 'state.rs')]))
P('C09', 'Proposal deposits are taken, recorded and given back as configured',
  'A pre-propose module makes a proposal only for senders its submission policy allows, in their name and as asked, after taking exactly the configured deposit and recording it with its owner for that proposal; every registered hook is told. When the proposal is over the recorded deposit is paid once in full, to the proposer if its refund policy says so for that outcome and to the DAO otherwise. Configuration, policy lists, hooks and withdrawals are for the DAO alone and do exactly what was asked, and a policy always lets somebody propose.',
  Q('inputs histories configurations', 'every message, sender, funds, configuration, list and pre-state'),
  'Whose deposit goes where depends on the configuration at submission, the outcome and the policy: a product of cases and histories the tests sample thinly.',
  A('packages/dao-pre-propose-base/src/execute.rs packages/dao-pre-propose-base/src/helpers.rs packages/dao-voting/src/deposit.rs packages/dao-voting/src/pre_propose.rs contracts/pre-propose/dao-pre-propose-single/src/contract.rs contracts/pre-propose/dao-pre-propose-multiple/src/contract.rs',
    [('submission check', 'execute.rs check_can_submit'), ('deposits', 'deposit.rs, execute.rs execute_propose, execute_proposal_completed_hook'), ('policy edits', 'helpers.rs add_and_remove_addresses, pre_propose.rs validate')],
    [('deposits', 'deposit and proposer of each proposal', 'packages/dao-pre-propose-base/src/state.rs'), ('config', 'deposit and submission policy', 'packages/dao-pre-propose-base/src/state.rs')]))
P('C10', 'A proposal that needs approval goes ahead only once its approver approves it',
  'A submission that needs approval waits, unchanged and with its deposit, under an approval id never used before, until the approver settles it exactly once: approved, exactly what was submitted is proposed and its deposit recorded for that proposal; rejected, the deposit is paid by its refund policy. Only the approver settles and hands over its role. An approver module proposes approvals only for the approval module, without messages of its own, and reports every one that is over: executed as approved, closed or vetoed as rejected.',
  Q('inputs histories configurations', 'every message, sender, status and pre-state'),
  'That no submission is settled twice, lost or altered is a statement over histories of two contracts.',
  A('contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs contracts/pre-propose/dao-pre-propose-approval-single/src/state.rs contracts/pre-propose/dao-pre-propose-approver/src/contract.rs packages/dao-pre-propose-base/src/execute.rs',
    [('approval', 'dao-pre-propose-approval-single contract.rs execute_propose, execute_approve, execute_reject'), ('reports of the approver', 'dao-pre-propose-approver contract.rs execute_proposal_completed')],
    [('pending_proposals, completed_proposals', 'what waits and what was settled', 'contracts/pre-propose/dao-pre-propose-approval-single/src/state.rs'), ('current_id', 'ids handed out', 'contracts/pre-propose/dao-pre-propose-approval-single/src/state.rs')]))
P('C13', 'Staked NFTs are kept safe, count once each, and go back only to their staker',
  'Voting power is the number of tokens of the one collection an account has staked and not taken back, as of the start of a block, and the total is their sum: a token counts only once the contract has received it, for whoever sent it, and never twice. Only the staker unstakes a token, each named token at most once, and gets exactly that token back, at once or as a claim paid once after the unstaking duration; a prepared stake is returned only to those entitled. Every stake hook is told of every change, configuration, hooks and the active threshold change only as the DAO asks, and the DAO is active exactly when the staked tokens reach the threshold.',
  Q('inputs histories configurations', 'every message, sender, list of tokens, block, configuration and pre-state'),
  'Double counting and theft need particular token lists, claims and earlier histories.',
  A('contracts/voting/dao-voting-cw721-staked/src/contract.rs contracts/voting/dao-voting-cw721-staked/src/state.rs contracts/voting/dao-voting-onft-staked/src/contract.rs contracts/voting/dao-voting-onft-staked/src/state.rs contracts/voting/dao-voting-onft-staked/src/omniflix.rs',
    [('stake', 'dao-voting-cw721-staked contract.rs execute_stake; dao-voting-onft-staked contract.rs execute_prepare_stake, execute_confirm_stake'), ('unstake and claim', 'contract.rs execute_unstake, execute_claim_nfts; state.rs register_staked_nft(s), register_unstaked_nfts'), ('active threshold', 'contract.rs query_is_active, execute_update_active_threshold')],
    [('snpw, nb, tsn', 'who staked which token, and the power by height', 'state.rs'), ('nft_claims', 'unstaked tokens', 'state.rs'), ('po', 'prepared stakes', 'dao-voting-onft-staked state.rs')]),
  note='Both modules are checked for one staked collection of tokens that is trusted to transfer as asked (cw721 contract, onft module).')
P('C19', 'Continuous rewards are shared by voting power and each reward is paid once',
  'For every distribution, the rewards per unit of voting power grow exactly by what the emission rate emits in whole intervals until now or the end, divided by the total voting power, so that all voting power together is never promised more than was emitted. An account gets its voting power times that growth since it was last settled, is settled whenever its voting power changes, keeps rewards of earlier periods through every change of rate, and is paid everything pending exactly once when it claims. Funding adds exactly what was received and moves the end so that the funds are used up; only the owner creates, changes or withdraws, and a withdrawal takes no more than what was not yet emitted.',
  Q('inputs histories configurations', 'every distribution state, emission rate, message, sender, block and answer about voting power'),
  'Rounding, restarts after an epoch ran dry, backfilled rewards and changes of rate combine in histories that tests only sample.',
  A('contracts/distribution/dao-rewards-distributor/src/contract.rs contracts/distribution/dao-rewards-distributor/src/rewards.rs contracts/distribution/dao-rewards-distributor/src/state.rs contracts/distribution/dao-rewards-distributor/src/hooks.rs contracts/distribution/dao-rewards-distributor/src/helpers.rs',
    [('settling an account', 'rewards.rs update_rewards, get_active_total_earned_puvp, get_accrued_rewards_not_yet_accounted_for'), ('funding and ending', 'contract.rs execute_fund_*, execute_withdraw; state.rs transition_epoch'), ('hooks', 'hooks.rs execute_stake_changed, execute_membership_changed, execute_nft_stake_changed')],
    [('d, ur, rh, count', 'distributions, rewards of accounts, hook callers, number of distributions', 'state.rs')]),
  note='Emission counts whole intervals since the last settling, as the code does. Hook handlers are checked against a recorder contract of update_rewards, whose body is checked where a claim calls it.')
P('C14', 'Voting modules report the power recorded elsewhere for exactly the height asked',
  'The voting modules over a cw4 group, a cw20 staking contract and role NFTs answer, for every account and height, exactly the weight or stake which that contract reports for the same account and height, and the total likewise; the DAO passes these questions on to its voting module. They are bound once to the contract given or newly made for the DAO and owned by it. A staked-token DAO is active exactly when enough of the supply is staked.',
  Q('inputs histories configurations', 'every query, account, height, threshold and answer of the asked contract'),
  'A module that forwards the wrong height or rounds the threshold the other way agrees with every test that does not vote at that boundary.',
  A('contracts/voting/dao-voting-cw4/src/contract.rs contracts/voting/dao-voting-cw20-staked/src/contract.rs contracts/voting/dao-voting-cw721-roles/src/contract.rs contracts/dao-dao-core/src/contract.rs',
    [('queries of power', 'contract.rs query_voting_power_at_height, query_total_power_at_height, query_is_active'), ('binding', 'contract.rs instantiate, reply')],
    [('group_contract, staking_contract, token, config', 'the contract asked', 'state.rs'), ('active_threshold', 'when a staked-token DAO is active', 'state.rs')]))
P('C17', 'External staking rewards are shared by stake and never exceed what was funded',
  'Rewards per staked token grow by exactly what the rate emits between the last update and now or the end of the period, shared by all staked tokens, so all together never get more than was emitted and a period never emits more than was funded. An account gets its part by the tokens it has staked, is settled when its stake changes, and is paid everything due exactly once. Only the owner funds or changes the duration, and only when no period runs.',
  Q('inputs histories configurations', 'every reward period, stake, message, sender and block'),
  'Rounding and the order of stake changes, claims and period ends make histories that tests only sample.',
  A('contracts/staking/cw20-stake-external-rewards/src/contract.rs contracts/staking/cw20-stake-external-rewards/src/state.rs',
    [('settling', 'contract.rs update_rewards, get_reward_per_token, get_rewards_earned'), ('funding', 'contract.rs execute_fund, execute_receive, execute_fund_native')],
    [('reward_config', 'period, rate and duration', 'state.rs'), ('reward_per_token, user_reward_per_token, pending_rewards, last_update_block', 'rewards per token, settled up to, pending', 'state.rs')]),
  note='Hypothesis: the last update is not after the end of the period or now; proven to be kept by every message.')
P('C18', 'The staking reward distributor pays its rate for every block exactly once',
  'A distribution funds the staking contract with the reward rate times the blocks since the last payment, or with the whole balance if that is less, and every block is paid for at most once. A change of configuration, by the owner only, counts the new rate from then on. Only the owner can withdraw, and gets the whole balance.',
  Q('inputs histories configurations', 'every rate, balance, message, sender and block'),
  'That no block is paid twice is a statement about every order of distributions and configuration changes.',
  A('contracts/staking/cw20-stake-reward-distributor/src/contract.rs', [('payment', 'contract.rs get_distribution_msg, execute_distribute'), ('configuration', 'contract.rs execute_update_config, execute_withdraw')],
    [('last_payment_block', 'up to where was paid', 'state.rs'), ('config_v2', 'rate, token, staking contract', 'state.rs')]))
P('C24', 'Weights of role NFTs add up and every change is recorded and told',
  'The weight of an account follows the weights of the role tokens it holds, the total is the sum of all weights, and both are recorded for the height of the change, so that queries answer them for every past height. Every hook is told the old and the new weight of whoever changed. Only the owner mints, burns, hands on or changes tokens, and each message changes nothing else.',
  Q('inputs histories configurations', 'every message, sender, token, weight and pre-state'),
  'That two sums kept by separate updates never drift apart is a statement about every history of mints, burns and changes of weight.',
  A('contracts/external/cw721-roles/src/contract.rs contracts/external/cw721-roles/src/state.rs',
    [('accounting', 'contract.rs execute_mint, execute_burn, execute_update_token_weight'), ('hooks', 'contract.rs execute_* Response messages'), ('queries', 'contract.rs query_member, query_total_weight')],
    [('members, total', 'weights of accounts and in all, by height', 'state.rs'), ('tokens', 'the role tokens', 'cw721-base')]),
  note='Known finding: handing a token on (minter only) leaves its weight with the former owner.')
P('C25', 'Factories create exactly what was asked, for exactly the funds that came along',
  'The payroll factory instantiates, for its owner if it has one and anybody otherwise, one vesting contract exactly as asked with exactly the coins or tokens that came along, remembers who paid for it, and lists it with that payer and its recipient once it is there; tokens received are passed on to it once and in full. The admin factory instantiates, for its admin if it has one, exactly what was asked, makes the new contract its own admin, and fails if the contract is not at the address expected. Nothing else changes either of them.',
  Q('inputs histories configurations', 'every message, sender, amount, reply and pre-state'),
  'Tests use one path per factory; that funds are never lost or given to another contract holds over every sender and pending state.',
  A('contracts/external/cw-payroll-factory/src/contract.rs contracts/external/cw-admin-factory/src/contract.rs',
    [('payroll', 'cw-payroll-factory contract.rs instantiate_contract, execute_receive_cw20, reply'), ('admin', 'cw-admin-factory contract.rs instantiate_contract, instantiate2_contract, reply')],
    [('vesting_contracts, tmp_instantiator_info', 'contracts made and who pays for the next', 'cw-payroll-factory state.rs'), ('admin, expect', 'who may use the factory, address expected', 'cw-admin-factory state.rs')]))
P('C26', 'Hooks of proposal modules are the DAO\'s, and a failing one is dropped alone',
  'The DAO alone registers and removes the hooks of its proposal modules, each once, and nothing else adds to or reorders them. Every notification goes to exactly the hook that it names in its reply, is sent without funds, and its failure is caught, so that a failing hook never stops a proposal. A hook that fails is dropped, exactly that one, and whatever else may still fail in the same transaction is attributed rightly.',
  Q('inputs histories configurations', 'every message, sender, list of hooks and failing subset of them'),
  'Tests use one or two hooks, of which the first or all fail; that exactly the failing one goes holds over every list.',
  A('contracts/proposal/dao-proposal-single/src/contract.rs contracts/proposal/dao-proposal-multiple/src/contract.rs packages/cw-hooks/src/lib.rs packages/dao-hooks/src/proposal.rs packages/dao-hooks/src/vote.rs packages/dao-voting/src/reply.rs',
    [('registration', 'contract.rs execute add/remove hooks; cw-hooks add_hook, remove_hook'), ('notification', 'dao-hooks new_proposal_hooks, proposal_status_changed_hooks, new_vote_hooks'), ('failures', 'contract.rs reply; cw-hooks remove_hook_by_index; reply.rs')],
    [('proposal_hooks, vote_hooks', 'who is told', 'state.rs')]),
  note='Known finding: several hooks failing in one transaction; the numbers of the later ones no longer fit.')
P('C27', 'Ranked-choice proposals execute only the choice that wins every comparison',
  'A ranked-choice proposal takes one ballot per member, with the voting power of when it was proposed and before it expires, and each ballot moves every pairwise margin by exactly that power towards the choice ranked higher. It passes with a choice only if a quorum voted and that choice beats every other, and before the end only if the outstanding power cannot change that; it executes that choice\'s messages once and exactly. Its rules are those of when it was proposed, only the DAO changes the configuration, and no message changes another proposal.',
  Q('inputs histories configurations', 'every message, sender, ballot, tally and block; margins and winners of at most three choices'),
  'Pairwise margins and early decisions combine many ballots; tests sample a few elections.',
  A('contracts/proposal/dao-proposal-condorcet/src/contract.rs contracts/proposal/dao-proposal-condorcet/src/proposal.rs contracts/proposal/dao-proposal-condorcet/src/tally.rs contracts/proposal/dao-proposal-condorcet/src/m.rs contracts/proposal/dao-proposal-condorcet/src/cell.rs contracts/proposal/dao-proposal-condorcet/src/vote.rs contracts/proposal/dao-proposal-condorcet/src/config.rs',
    [('status', 'proposal.rs status, update_status'), ('margins and winner', 'tally.rs add_vote, winner; m.rs stats, increment; cell.rs'), ('ballots', 'vote.rs new; contract.rs execute_vote')],
    [('proposals, tallys, votes', 'proposals, their margins and ballots', 'state.rs')]),
  note='Bounded: margins and winners are decided for 2 and 3 candidates (matrix and winner loops unrolled); the lifecycle holds for any number of candidates over contracts of these functions.')

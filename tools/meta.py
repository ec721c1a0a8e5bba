#!/usr/bin/env python3
# The one source of properties.jsonl, MANIFEST.json and checks/rules.json.   python3 tools/meta.py
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SP = ['staking-pool/src/lib.rs', 'staking-pool/src/internal.rs']
MS1, MS2 = ['multisig/src/lib.rs'], ['multisig2/src/lib.rs']
LK = ['lockup/src/lib.rs', 'lockup/src/getters.rs', 'lockup/src/internal.rs', 'lockup/src/owner.rs', 'lockup/src/owner_callbacks.rs', 'lockup/src/foundation.rs', 'lockup/src/foundation_callbacks.rs', 'lockup/src/types.rs']
WN = ['w-near/src/lib.rs', 'w-near/src/w_near.rs', 'w-near/src/legacy_storage.rs']
HIST = ['inputs', 'histories']
UNIT = {'pool': 'The tests follow a few fixed sequences with two or three delegators and round amounts; ', 'fac': 'The tests call the factory against a mocked runtime, without the contract it deploys or the failures of later receipts; ',
        'ms': 'The unit tests confirm a handful of fixed requests in a mocked runtime, where nothing that is requested is carried out, and one simulator test follows one change of members; ', 'lk': 'The unit tests follow fixed schedules at a few moments with mocked promise results, and six simulator tests one staking or termination each; ',
        'vote': 'The tests use equal or hand-picked stakes and few epochs; ', 'wl': 'The tests try each method once or twice; ', 'wn': 'Five simulator tests sample single wraps and transfers; ', 'st': 'The only test needs a sandbox node that is not available, and samples four states; ', 'x': 'The tests try single methods of single contracts; '}
def p(id, title, statement, over, text, why, files, mechanism, rule, observe, state=()):
    k, w = why
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=UNIT[k] + w,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=f) for n, m, f in state], mechanism=[dict(name=n, where=f) for n, f in mechanism], observe_at=observe, hook_needed=None), rule=rule))

poolview = ['get_account', 'get_account_total_balance', 'get_total_staked_balance', 'balance and locked balance of the pool account', 'receipts sent by the pool']
ST = [('accounts', 'unstaked tokens, stake shares and unlock epoch of each delegator', SP[0]), ('total_staked_balance / total_stake_shares', 'price of a share', SP[0]), ('last_total_balance', 'tokens already accounted for', SP[0])]
p('C01', 'Staking pool: always holds at least what it owes its delegators',
  'At every moment the tokens the pool holds (free, locked in stake, and returning to it) cover the sum of the total balances it reports for all delegators. Whoever withdraws everything gets it, in any order, and rounding is never in a delegator\'s favour at the cost of the others beyond the fund reserved for it.',
  HIST + ['fault_sequences'], 'for every fee, initial balance and minimum stake, every interleaving of deposits, stakes, unstakes, withdrawals, pings, rewards, donations and failed stake actions by any delegators over any number of epochs', ('pool', 'solvency is a sum over all accounts after any history, and depends on how rounding accumulates.'),
  SP, [('share arithmetic rounding against the caller', 'staking-pool/src/internal.rs'), ('share price guarantee fund', 'staking-pool/src/lib.rs')],
  'A case is a history of 6 to 45 (thorough: 70) steps on one pool. Non-trivial: a delegator staked or unstaked an amount that needed rounding, or a reward came in, while shares were held.', poolview, ST)
p('C02', 'Staking pool: each operation moves exactly the stated amounts',
  'Deposit credits exactly the attached tokens; stake and unstake move exactly the requested amount between the staked and unstaked balance of the caller (up to one yocto of rounding); withdraw pays out exactly the requested amount; and what cannot be covered by the caller\'s own balances is refused without effect.',
  HIST, 'for every amount including zero, one, all, more than all and the neighbours of each, at any share price reached by any history', ('pool', 'the exact amount depends on the share price, which they leave at or near one.'),
  SP, [('internal_deposit / internal_stake / inner_unstake / internal_withdraw', 'staking-pool/src/internal.rs')],
  'As C01. Non-trivial: at least one deposit, stake, unstake or withdrawal was carried out.', poolview, ST)
p('C03', 'Staking pool: no operation harms other delegators or lowers the share price',
  'An operation by one delegator leaves every other delegator\'s unstaked balance unchanged and never lowers their staked balance. The price of a stake share never decreases, over any history.',
  HIST, 'for every history of operations by five delegators, with rewards, over any number of epochs', ('pool', 'monotonicity is about every pair of consecutive states with many holders and odd prices.'),
  SP, [('num_shares_from_staked_amount_rounded_* / staked_amount_from_num_shares_rounded_*', 'staking-pool/src/internal.rs')],
  'As C01. Non-trivial: somebody else held shares while a delegator staked or unstaked.', poolview, ST)
p('C04', 'Staking pool: rewards go pro rata to shares, after the owner\'s fee',
  'When the pool notices a new epoch it distributes exactly the increase of its balance: the owner\'s stated fraction as new shares of the owner, the rest over all shares in proportion; within an epoch nothing is distributed twice. Deposits, stakes, and withdrawals under way are never counted as rewards.',
  HIST, 'for every fee fraction with 32-bit numerator and denominator, reward from one yocto up, number of epochs skipped, and operation that first notices the epoch', ('pool', 'they sample one fee and one reward.'),
  SP, [('internal_ping', 'staking-pool/src/internal.rs'), ('RewardFeeFraction::multiply', 'staking-pool/src/lib.rs')],
  'As C01. Non-trivial: a positive reward was distributed.', poolview, ST)
p('C05', 'Staking pool: unstaked tokens can be withdrawn after four epochs, not before',
  'Tokens a delegator has unstaked can be withdrawn once four epochs have passed since the last unstake, and never earlier; tokens deposited and never staked can be withdrawn at once while no unstaked tokens are waiting. The availability the pool reports agrees with what withdrawals do.',
  HIST, 'for every sequence of deposits, unstakes and withdrawals by several delegators, at every number of epochs up to and beyond the boundary', ('pool', 'the boundary depends on the whole history of an account\'s unstakes.'),
  SP, [('unstaked_available_epoch_height', 'staking-pool/src/internal.rs')],
  'As C01, favouring unstake, withdraw and epoch steps. Non-trivial: a withdrawal was tried after an unstake.', ['withdraw', 'withdraw_all', 'is_account_unstaked_balance_available'], ST)
p('C06', 'Staking pool: only the owner administers, with valid terms',
  'Only the owner can pause and resume staking, change the staking key, change the fee, or vote on behalf of the pool; anyone else is refused without effect. The fee is a proper fraction at all times; pausing unstakes everything and resuming restakes everything, without touching any delegator\'s balances.',
  HIST, 'for every caller, fee fraction, key and order of pausing and resuming within any history', ('pool', 'they try one refused caller per method at one moment.'),
  SP, [('assert_owner', 'staking-pool/src/lib.rs'), ('RewardFeeFraction::assert_valid', 'staking-pool/src/lib.rs')],
  'As C01, favouring administrative steps. Non-trivial: an administrative method was called, by the owner or another.', poolview + ['get_reward_fee_fraction', 'get_staking_key', 'is_staking_paused'], ST)
p('C07', 'Staking pool: a failed stake action never leaves the pool locked or lying',
  'When the chain refuses the pool\'s stake (too little, bad key), the pool unstakes everything, every delegator\'s balances stay what they were, deposits and withdrawals go on working, and the next staking operation stakes again.',
  ['histories', 'fault_sequences'], 'for every point of a history at which the chain starts or stops refusing the stake, with receipts of other operations in between', ('pool', 'in a mocked runtime no stake action is ever carried out or refused.'),
  SP, [('on_stake_action', 'staking-pool/src/lib.rs'), ('internal_restake', 'staking-pool/src/internal.rs')],
  'As C01, with a minimum stake of the chain that changes along the way and invalid keys. Non-trivial: the chain refused a stake action.', poolview, ST)
p('C08', 'Staking pool: the pool always proposes exactly its total stake',
  'After every operation that changes the stake, and once its receipts are through, what the pool has asked the chain to stake is exactly the total staked balance it reports, under its current staking key; while paused it asks for nothing.',
  HIST, 'for every history including changes of key, pauses, rewards and receipts carried out late', ('pool', 'they check the call, not the stake that results over a history.'),
  SP, [('internal_restake', 'staking-pool/src/internal.rs')],
  'As C01. Non-trivial: a stake proposal was carried out by the chain.', ['stake proposals of the pool account', 'get_total_staked_balance'], ST)
p('C09', 'Staking pool: the listing of accounts is complete and consistent',
  'The listing of accounts, read in pages of any size from any index, contains every delegator with a balance exactly once with the balances the single-account queries give, and an account that has withdrawn everything disappears. No page request fails.',
  HIST, 'for every history and every start index and page size, including the largest numbers', ('pool', 'they never remove accounts from the middle of the listing, and never page beyond the end.'),
  SP, [('internal_save_account', 'staking-pool/src/internal.rs'), ('get_accounts', 'staking-pool/src/lib.rs')],
  'As C01; every step compares the listing with the model, pages are drawn with extreme bounds. Non-trivial: an account was removed, or a page was read.', ['get_accounts', 'get_number_of_accounts', 'get_account'], ST)
fv = ['accounts, code, balances, storage and keys created', 'result of the creation', 'is_whitelisted', 'balances of callers and factory']
PF = ['staking-pool-factory/src/lib.rs']
p('C10', 'Pool factory: creates the pool that was asked for, and whitelists only that',
  'A successful creation yields a new account under the factory, running the staking pool with exactly the given owner, key and fee, holding the whole attached deposit, with no access keys, and (when the factory is listed) whitelisted. The factory never vouches for an account it has not just created as a pool.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'for every name, owner, key, fee, deposit and gas, several creations of the same and different names under way at once, in any order of receipts', ('fac', 'two creations of one name cannot even be expressed.'),
  PF + ['whitelist/src/lib.rs'] + SP, [('create_staking_pool', PF[0]), ('on_staking_pool_create', PF[0])],
  'A case is 3 to 18 (thorough: 30) creations and other steps, half of the cases with receipts delivered in a drawn order. Non-trivial: a pool was created.', fv)
p('C11', 'Pool factory: a failed creation costs nothing and frees the name',
  'When a creation fails for any reason the whole attached deposit returns to the caller, no account and no trace of the name is left, and the same name can be created afterwards. The factory itself never gains or loses tokens, and the number of pools it reports is the number it has created.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'as for creations, with invalid owners, fees, keys, names, too little gas, an unlisted factory, and races between creations of one name', ('fac', 'refunds of real failing receipts are out of their reach.'),
  PF, [('on_staking_pool_create', PF[0]), ('staking_pool_account_ids', PF[0])],
  'As C10. Non-trivial: a creation failed after the deposit was taken.', fv)
p('C12', 'Whitelist: exact set semantics, under the foundation\'s control',
  'The whitelist contains exactly the pools that the foundation, or a factory listed at that moment, has added and the foundation has not removed since; likewise for factories and the foundation. Every change reports truthfully whether it changed anything, and nobody else can change anything.',
  HIST, 'for every sequence of additions and removals by any callers, over related, equal and extreme account names', ('wl', 'set semantics is about all sequences.'),
  ['whitelist/src/lib.rs', PF[0]], [('assert_called_by_foundation, add_staking_pool', 'whitelist/src/lib.rs')],
  'A case is a history of additions and removals, compared with two sets after every step; plus the histories of C10. Non-trivial: an entry was added or removed by someone entitled.', ['is_whitelisted', 'is_factory_whitelisted', 'results of the changes'])
VO = ['voting/src/lib.rs']
p('C13', 'Voting: the poll ends exactly when more than two thirds of stake is in favour',
  'The poll ends at the first moment its tally of votes in favour exceeds two thirds of the total stake, recording the time of that moment, and never while the tally is two thirds or less. From then on neither result nor tally ever changes.',
  HIST, 'for every distribution of stake incl. exact thirds and their neighbours up to the largest balances, every order of votes, withdrawals and epoch changes', ('vote', 'exact thirds and overflow need chosen extremes in combination.'),
  VO, [('check_result', VO[0]), ('ping', VO[0])],
  'A case is 5 to 45 (thorough: 80) votes, withdrawals, epochs with changed stakes. Non-trivial: the poll was decided, or stood at exactly two thirds.', ['get_result', 'get_total_voted_stake', 'get_votes'], [('votes', 'stake in favour by validator', VO[0]), ('result', 'time of the decision', VO[0])])
p('C14', 'Voting: the tally is exactly the current stake of those in favour',
  'Until the poll ends, each validator with stake counts at most once, with the stake it had when it voted or, after a new epoch was noticed, its stake then; withdrawing a vote removes exactly it, accounts without stake cannot vote and validators that lost their stake drop out.',
  HIST, 'for every history of votes and withdrawals by any accounts, over epochs with arbitrary changes of stake', ('vote', 'tallies after repeated votes across epochs are a matter of history.'),
  VO, [('vote', VO[0]), ('ping', VO[0])],
  'As C13. Non-trivial: a new epoch was noticed with votes cast, or a vote was withdrawn.', ['get_votes', 'get_total_voted_stake'], [('votes', 'stake in favour by validator', VO[0])])
msv = ['receipts sent by the multisig and their effects', 'get_request', 'get_confirmations', 'get_num_confirmations', 'list_request_ids', 'access keys of the account']
M1S = [('requests / confirmations', 'open requests and who confirmed them', MS1[0]), ('num_requests_pk', 'open requests of each key', MS1[0])]
M2S = [('requests / confirmations', 'open requests and who confirmed them', MS2[0]), ('members', 'who may act', MS2[0]), ('num_requests_pk', 'open requests of each member', MS2[0])]
p('C15', 'Multisig v1: nothing happens without the required number of distinct keys',
  'The account acts only as the effect of a request that the required number of distinct keys of the account have confirmed, at the number in force when the last of them confirms. A key confirms a request at most once, only keys of the account itself can add or confirm, and deleted requests can never be carried out.',
  HIST, 'for every set of keys, required number, and sequence of adding, confirming, deleting requests, incl. requests that change keys and the number, and calls from outside or with foreign keys', ('ms', 'who may do what at which moment is a matter of the whole history.'),
  MS1, [('confirm', MS1[0]), ('assert_valid_request', MS1[0])],
  'A case is a history of 6 to 40 steps on one multisig account. Non-trivial: a request was confirmed by a second key, or a confirmation was refused.', msv, M1S)
p('C16', 'Multisig v1: a confirmed request is carried out exactly, once',
  'When the last confirmation arrives, exactly the actions of the request are sent, in order, to its receiver with its amounts, arguments and permissions; the request is gone and can never be carried out again. Nothing else is ever sent.',
  HIST, 'for every combination of actions, amounts up to the whole balance and beyond, arguments and permissions, at any point of a history', ('ms', 'they look at the state, not at what is sent.'),
  MS1, [('execute_request', MS1[0])],
  'As C15. Non-trivial: a request was carried out.', msv, M1S)
p('C17', 'Multisig v1: limits, cooldown and self-administration hold',
  'No key ever has more open requests than the limit in force when it adds one; a request can be deleted only after the cooldown, and then by any key; the required number, limit and function-call keys of the account change only through requests to itself. Deleting, and carrying out, frees the slot of the key that had made the request.',
  HIST, 'for every history of requests by several keys, any limits, at times before, at and after the cooldown', ('ms', 'slots and times depend on histories.'),
  MS1, [('add_request, delete_request, remove_request', MS1[0])],
  'As C15. Non-trivial: a limit was reached, a deletion tried, or settings changed by a request.', msv, M1S)
p('C18', 'Multisig v2: nothing happens without the required number of distinct members',
  'The account acts only as the effect of a request confirmed by the required number of distinct parties that were members when they confirmed: accounts calling by themselves, or keys of the account. A member confirms a request at most once; non-members, foreign keys and accounts that merely sign are refused without effect.',
  HIST, 'for every set of account and key members, required number, and sequence of adding, confirming and deleting requests, incl. changes of the members in between', ('ms', 'who may do what at which moment is a matter of the whole history.'),
  MS2, [('confirm', MS2[0]), ('current_member', MS2[0])],
  'A case is a history of 6 to 40 steps on one multisig account. Non-trivial: a request was confirmed by a second member, or a confirmation was refused.', msv + ['get_members'], M2S)
p('C19', 'Multisig v2: a confirmed request is carried out exactly, once',
  'When the last confirmation arrives, exactly the actions of the request are sent, in order, to its receiver with its amounts, arguments and permissions; the request is gone and can never be carried out again. Nothing else is ever sent.',
  HIST, 'for every combination of actions, amounts, arguments and permissions, at any point of a history', ('ms', 'they look at the state, not at what is sent.'),
  MS2, [('execute_request', MS2[0])],
  'As C18. Non-trivial: a request was carried out.', msv, M2S)
p('C20', 'Multisig v2: members change only by request, and can always reach the threshold',
  'The members are exactly those given at the start as changed by requests carried out since, and the required number of confirmations can never exceed the number of distinct members. A removed member\'s open requests are removed with it, and it can do nothing any more.',
  HIST, 'for every initial list incl. duplicates, and every history of adding and removing members and changing the number', ('ms', 'the relation of members and threshold must survive every sequence of changes.'),
  MS2, [('add_member, delete_member', MS2[0]), ('new', MS2[0])],
  'As C18. Non-trivial: members or the required number were changed, or such a change was refused.', msv + ['get_members'], M2S)
p('C21', 'Multisig v2: limits and cooldown hold',
  'No member ever has more open requests than the limit in force when it adds one; a request can be deleted only after the cooldown, and then by any member. Deleting, and carrying out, frees the slot of the member that had made the request.',
  HIST, 'for every history of requests by several members, any limits, at times before, at and after the cooldown', ('ms', 'slots and times depend on histories.'),
  MS2, [('add_request, delete_request, remove_request', MS2[0])],
  'As C18. Non-trivial: a limit was reached, or a deletion tried.', msv, M2S)
p('C22', 'Multisig v2: a member key can call exactly the members\' methods',
  'Each key member has on the account an access key restricted to the account itself and to exactly the methods members need (add, confirm, delete, and add with confirmation), from when it becomes a member until it is removed; no other key appears by itself.',
  HIST, 'for every history of members joining and leaving', ('ms', 'the keys of the account are hardly looked at.'),
  MS2, [('add_member, delete_member', MS2[0]), ('MULTISIG_METHOD_NAMES', MS2[0])],
  'As C18. Non-trivial: key members were there and used their keys, or joined or left.', ['access keys of the account', 'transactions signed by member keys'], M2S)
MF = ['multisig-factory/src/lib.rs']
p('C23', 'Multisig factory: creates the multisig that was asked for',
  'A successful creation yields a new account under the factory running the multisig with exactly the given members and required number, an access key for each key member and no other, and the whole attached deposit.',
  ['inputs', 'histories', 'schedules'], 'for every name, list of members, number, deposit and gas, with several creations under way at once', ('fac', 'there is no test of what comes into being.'),
  MF + MS2, [('create', MF[0])],
  'A case is 2 to 12 (thorough: 24) creations, half of the cases with receipts delivered in a drawn order. Non-trivial: a multisig was created.', fv)
p('C24', 'Multisig factory: a failed creation returns the deposit',
  'When a creation fails (name taken or invalid, invalid members or number, too little deposit), the whole attached deposit returns to the caller, nothing is left behind, and the factory never gains or loses tokens.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'as for creations, with every kind of invalid input and races between creations of one name', ('fac', 'refunds of real failing receipts are out of their reach.'),
  MF, [('create, on_create', MF[0])],
  'As C23. Non-trivial: a creation that carried a deposit failed.', fv)
lv = ['get_locked_amount', 'get_liquid_owners_balance', 'get_owners_balance', 'get_vesting_information', 'get_termination_status', 'balance of the lockup account', 'receipts sent by the lockup']
LS = [('lockup_information', 'amount, durations, start, tokens withdrawn by termination', LK[7]), ('vesting_information', 'schedule, its hash, or the state of a termination', LK[7]), ('staking_information', 'selected pool, known deposit, busy or idle', LK[7])]
LR = 'A case is a lockup with drawn amount, lockup, release and vesting terms, real staking pools and whitelist, and a history of 5 to 28 (thorough: 50) steps of owner, foundation and strangers, a quarter of the cases with receipts delivered in a drawn order. Non-trivial: '
LH = ['inputs', 'configurations', 'histories']
p('C25', 'Lockup: the locked amount follows lockup, release and vesting exactly',
  'At every moment the reported locked amount is what the terms say: everything until the lockup has ended (the later of the absolute time and the duration after transfers are enabled); then the greater of what linear release and what vesting (nothing before the cliff, linear after) still hold back. Without a termination it never grows with time.',
  LH, 'for every combination of amount, lockup time and duration, release duration, vesting schedule, transfer time, at every moment incl. the neighbours of each boundary and the extremes of the clock', ('lk', 'they sample a few moments of a few schedules.'),
  LK, [('get_locked_amount, get_unvested_amount', LK[1])], LR + 'tokens were released by time, or terms refused.', lv, LS)
p('C26', 'Lockup: the owner can never move locked tokens out',
  'Whatever the owner does (transfers, staking, withdrawing, voting, selecting pools, in any order and with late or failing receipts), what is left on the account and on its staking pool covers the locked amount; transfers beyond the liquid balance are refused, and staking never sends tokens anywhere but to the selected pool and back.',
  LH + ['schedules', 'fault_sequences'], 'for every history of owner and foundation calls on every schedule, with rewards and failing pools, and every order of receipts', ('lk', 'they follow one history each, with no late or failing receipts.'),
  LK, [('get_liquid_owners_balance', LK[1]), ('transfer', LK[3])], LR + 'a transfer was made while tokens were locked, or of everything liquid.', lv, LS)
p('C27', 'Lockup: whatever is unlocked can be transferred',
  'Once transfers are enabled, no operation is under way and no termination, the owner can transfer any amount up to the unlocked balance present on the account beyond the storage reserve, with the documented gas, to any existing account; after the end of all schedules everything beyond the reserve is movable.',
  LH, 'for every schedule and history, for exactly the liquid amount, one more and one less', ('lk', 'they sample one transfer per scenario.'),
  LK, [('transfer', LK[3]), ('get_liquid_owners_balance', LK[1])], LR + 'a transfer was made, or the end of the schedules was reached.', lv, LS)
p('C28', 'Lockup: termination takes exactly the unvested tokens for the foundation',
  'When the foundation terminates vesting, exactly the amount unvested at that moment becomes due to it: no more can ever be withdrawn by it, the vested part stays the owner\'s under the same lockup, and until it is settled the owner cannot move tokens. Fully vested or vesting-free lockups cannot be terminated.',
  LH, 'for every schedule and moment incl. just before and after cliff and end, any earlier spending and staking, and settlement in several parts', ('lk', 'they terminate at one or two moments.'),
  LK, [('terminate_vesting, termination_withdraw', LK[5]), ('get_unvested_amount', LK[1])], LR + 'vesting was terminated, or an owner call was refused because of it.', lv, LS)
p('C29', 'Lockup: the foundation can always bring a termination to its end',
  'From every state a terminated lockup can be in (idle, staked, unstaking, withdrawing, after failed steps), repeating the documented steps leads to the foundation receiving all the unvested tokens there are; a failed step can be repeated, stages are taken only in their order, and the owner cannot interfere.',
  LH + ['schedules', 'fault_sequences'], 'for every history of owner staking before, any failures of pool calls in between, any order of receipts', ('lk', 'failures of pool calls and their order relative to the termination are not explored.'),
  LK, [('termination_prepare_to_withdraw', LK[5]), ('foundation callbacks', LK[6])], LR + 'a termination went through its stages with a pool selected, or one of its steps failed.', lv, LS)
p('C30', 'Lockup: staking through a pool is accounted for and never gets stuck',
  'Every owner staking call sends exactly one matching call to the selected pool and no other runs until it has ended, whether it succeeds or fails; the known deposit changes exactly by what the pool took or returned, and is refreshed to the pool\'s figure. All tokens on an idle pool can be brought back.',
  LH + ['schedules', 'fault_sequences'], 'for every history of deposits, stakes, unstakes, withdrawals and refreshes with a real pool, rewards, epochs, failing pool calls and receipts in any order', ('lk', 'failing pools and receipts in other orders are not among them.'),
  LK, [('set_staking_pool_status', LK[2]), ('owner callbacks', LK[4])], LR + 'a pool operation was carried out, failed, or was refused because another was under way.', lv + ['balances of the lockup on the pool'], LS)
p('C31', 'Lockup: only a whitelisted pool can be selected, one at a time',
  'A lockup uses only a staking pool that the whitelist contained when it was selected, it has at most one, and a pool can be replaced only after it was unselected, which needs that no deposit is known to be on it.',
  LH + ['schedules'], 'for every order of selecting, unselecting, listing and delisting, incl. two selections under way at once', ('lk', 'the answer of the whitelist is mocked.'),
  LK, [('select_staking_pool, on_whitelist_is_whitelisted', LK[3])], LR + 'a pool was selected, or a selection refused.', ['get_staking_pool_account_id', 'receipts sent by the lockup'], LS)
p('C32', 'Lockup: each method obeys only its party',
  'Owner methods work only for the owner and foundation methods only for the foundation; any other caller, in any state, is refused without effect. After a termination is complete the foundation has no rights left.',
  LH, 'for every method, caller and state reached by any history', ('lk', 'one refused caller in one state per method.'),
  LK, [('assert_owner, assert_called_by_foundation', LK[2])], LR + 'a call by someone not entitled was refused.', ['outcome of each call', 'state afterwards'], LS)
p('C33', 'Lockup: a full access key only when nothing is locked any more',
  'The owner can add a full access key exactly when transfers are enabled, no tokens are locked, no termination is under way and no staking operation is running; then it is added. In any other state no key appears on the account.',
  LH, 'for every schedule and history, at every moment around the end of the schedules', ('lk', 'they try it in three states.'),
  LK, [('add_full_access_key', LK[3])], LR + 'a key was added, or refused.', ['access keys of the lockup account'], LS)
p('C34', 'Lockup: transfers stay disabled until the poll has decided',
  'A lockup created with transfers disabled releases nothing and transfers nothing until the owner has had the poll asked and it has answered with a time; that time then counts as the start, and can never be changed again.',
  LH + ['schedules'], 'for every poll time before and after the present, any order of asking, answering and other calls', ('lk', 'the answer of the poll is mocked once.'),
  LK, [('check_transfers_vote, on_get_result_from_transfer_poll', LK[3])], LR + 'transfers were enabled by the poll, or a call refused because they were not.', lv, LS)
p('C35', 'Lockup: private vesting is terminated only with the committed schedule',
  'A lockup with a hidden schedule can be terminated only by the foundation presenting exactly the schedule and salt behind the stored commitment; then the amount follows from that schedule. With any other schedule or salt, or none, nothing changes; a public schedule accepts none.',
  LH, 'for every schedule and salt, and every altered, missing or superfluous revelation', ('lk', 'one altered salt is tried.'),
  LK, [('assert_vesting', LK[2]), ('VestingScheduleWithSalt::hash', LK[7])], LR + 'a termination was tried on a lockup with a hidden schedule, or with a schedule given for a public one.', lv, LS)
LF = ['lockup-factory/src/lib.rs', 'lockup-factory/src/types.rs']
p('C36', 'Lockup factory: creates the lockup that was asked for',
  'A successful creation yields, at the address derived from the owner\'s name, a lockup holding the whole deposit with exactly the given terms, transfers enabled from the launch date, the given or default whitelist, no access keys, and the foundation as its counterpart exactly when there is vesting. The new lockup behaves accordingly.',
  ['inputs', 'histories', 'schedules'], 'for every owner, durations, times, schedule or commitment, whitelist, deposit and gas, several creations under way at once', ('fac', 'what comes into being is never looked at.'),
  LF + LK[:1], [('create', LF[0])],
  'A case is 2 to 10 (thorough: 20) creations, half of the cases with receipts delivered in a drawn order; every lockup made is then observed at later times. Non-trivial: a lockup was created.', fv)
p('C37', 'Lockup factory: a failed creation returns the deposit',
  'When a creation fails (the owner has a lockup already, invalid terms, too little deposit or gas), the whole attached deposit returns to the caller, nothing is left behind, and the factory never gains or loses tokens.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'as for creations, with every kind of invalid input and races between creations for one owner', ('fac', 'refunds of real failing receipts are out of their reach.'),
  LF, [('on_lockup_create', LF[0])],
  'As C36. Non-trivial: a creation that carried a deposit failed.', fv)
wv = ['ft_total_supply', 'ft_balance_of', 'storage_balance_of', 'NEAR balance of the contract and its users']
WS = [('ft.accounts / total_supply', 'token balances and their sum', WN[0])]
p('C38', 'Wrapped NEAR: every token is backed by NEAR and can be unwrapped',
  'Wrapping mints exactly the attached NEAR (less the one-time registration cost for a new account), unwrapping pays out exactly the amount burnt, balances add up to the total supply, and the contract always holds NEAR for the whole supply and all registrations. Everyone can always unwrap their whole balance.',
  HIST + ['schedules'], 'for every amount up to the extremes and every history of wraps, unwraps, transfers, transfer calls and registrations with receipts in any order', ('wn', 'backing is an invariant over all histories.'),
  WN, [('near_deposit, near_withdraw', WN[1])],
  'A case is 4 to 30 (thorough: 60) steps, half of the cases with receipts delivered in a drawn order. Non-trivial: NEAR was wrapped or unwrapped.', wv, WS)
p('C39', 'Wrapped NEAR: a transfer moves exactly the amount, or nothing',
  'A transfer with one yocto attached moves exactly the amount from the caller to another registered account and touches nobody else; one that is zero, more than the balance, to oneself, to an unregistered account or without the attached yocto is refused without effect.',
  HIST, 'for every caller, receiver, amount and attached deposit at any point of a history', ('wn', 'refusals are sampled once.'),
  WN, [('ft_transfer', WN[0])],
  'As C38. Non-trivial: a transfer was carried out.', wv, WS)
p('C40', 'Wrapped NEAR: a transfer call returns exactly what the receiver did not use',
  'After a transfer call the receiver keeps what it reports as used and the rest returns to the sender, everything if it fails or answers nonsense, never more than was sent or than the receiver still has; if the sender has left meanwhile the returned tokens are destroyed. The amount reported to the caller is what was used.',
  HIST + ['schedules', 'fault_sequences'], 'for every answer of the receiver (any number, nonsense, failure), what it does with the tokens before answering, and other calls in between', ('wn', 'transfer calls are not among them.'),
  WN, [('ft_transfer_call, ft_resolve_transfer', WN[0])],
  'As C38, with receivers that spend, unwrap or leave before they answer. Non-trivial: a transfer call was made or resolved.', wv, WS)
p('C41', 'All contracts: initialised once, unusable before',
  'No contract does anything before it was initialised, and none can be initialised again, whoever tries and whatever has happened since.',
  HIST, 'for every contract, caller and point of a history', ('x', 'a second initialisation at some later state is tried for few of them.'),
  ['staking-pool/src/lib.rs', 'lockup/src/lib.rs', 'multisig/src/lib.rs', 'multisig2/src/lib.rs', 'voting/src/lib.rs', 'whitelist/src/lib.rs', 'w-near/src/lib.rs', PF[0], MF[0], LF[0]], [('new', 'each contract')],
  'Histories of all the other scenarios, each of which tries the contract before it is initialised. Non-trivial: an initialisation was tried again along the way.', ['outcome of the calls', 'state afterwards'])
p('C42', 'All contracts: internal callbacks cannot be called from outside',
  'The callbacks a contract schedules for itself have no effect when anybody else calls them directly, with any arguments and in any state.',
  HIST, 'for every callback, caller, arguments and point of a history', ('x', 'one callback of one contract.'),
  ['staking-pool/src/lib.rs', LK[4], LK[6], 'multisig2/src/lib.rs', PF[0], MF[0], LF[0], WN[0]], [('assert_self, private', 'each contract')],
  'Histories of the staking pool, lockup, factory and wrapped NEAR scenarios. Non-trivial: a callback was called by an outsider.', ['outcome of the calls', 'state afterwards'])
p('C43', 'All contracts: no method takes a deposit it does not use',
  'A state-changing call with NEAR attached to a method that does not take deposits is refused and the NEAR returns.',
  HIST, 'for every such method of every contract at any point of a history', ('x', 'the mocked runtime returns nothing.'),
  ['staking-pool/src/lib.rs', LK[3], LK[5], 'multisig/src/lib.rs', 'multisig2/src/lib.rs', 'voting/src/lib.rs', 'whitelist/src/lib.rs', LF[0], WN[0]], [('payable', 'each contract')],
  'Histories of all scenarios whose contracts have such methods. Non-trivial: such a call was made with a deposit.', ['outcome of the calls', 'balances'])
p('C44', 'Wrapped NEAR: registration costs a fixed amount and is refunded',
  'An account is registered exactly once, for the advertised amount, with any excess returned; unregistering returns that amount, destroys the remaining tokens only if forced, and is refused otherwise. Registrations are reported truthfully.',
  HIST, 'for every order of registering, wrapping, transferring and unregistering, by oneself and for others, with any attached deposit', ('wn', 'unregistering is not among them.'),
  WN, [('storage_deposit, storage_unregister', WN[0]), ('near_deposit', WN[1])],
  'As C38, favouring registrations. Non-trivial: an account was registered or unregistered, or that was refused.', wv, WS)
SM = ['state-manipulation/src/lib.rs']
p('C45', 'State replacement: writes exactly the given entries, nothing else',
  'After a replacement every given key holds exactly its given bytes (the last one, if given twice), and every other entry of the account is unchanged; malformed input changes nothing at all.',
  ['inputs', 'histories', 'configurations'], 'for all keys and values of bytes, incl. empty ones, prefixes of each other and non-text, any earlier state, and every variant of the contract', ('st', 'arbitrary bytes and earlier states are not covered.'),
  SM, [('replace', SM[0])],
  'A case is an account with up to 25 entries (or another contract\'s state) and 1 to 10 calls. Non-trivial: a replacement of at least one entry.', ['storage of the account'])
p('C46', 'State cleaning: removes exactly the given keys, nothing else',
  'After a cleaning none of the given keys exists, whether or not they did, and every other entry of the account is unchanged; malformed input changes nothing at all. Cleaning all keys leaves no state.',
  ['inputs', 'histories', 'configurations'], 'for all keys of bytes, incl. empty ones, prefixes and extensions of existing ones, any earlier state, and every variant of the contract', ('st', 'arbitrary bytes and earlier states are not covered.'),
  SM, [('clean', SM[0])],
  'As C45. Non-trivial: a cleaning with at least one key.', ['storage of the account'])

p('C47', 'Lockup: what a call answers is what happened',
  'The answer the owner or the foundation gets to a call is that of its last step, given when the outcome is known: true if the staking operation, selection, vote or withdrawal took effect, false if it did not; it is never given early and never untrue.',
  LH + ['schedules', 'fault_sequences'], 'for every method, outcome of the pool and order of receipts', ('lk', 'the answers of the callbacks are hardly looked at.'),
  LK, [('callbacks of the owner', LK[4]), ('callbacks of the foundation', LK[6])], LR + 'a callback answered true or false.', ['answers of calls and callbacks'], LS)
p('C48', 'Lockup: the balances it reports add up',
  'At every moment the balances a lockup reports agree with each other and with its account: all there is, is the account and the known deposit; the owner\'s part is what exceeds the locked amount; the liquid part of it is limited by the account beyond the storage reserve; unvested and vested locked parts make up the locked amount; the deficit of a termination is what is due beyond the account.',
  LH, 'for every schedule, history and moment, incl. deposits on pools, rewards and terminations under way', ('lk', 'the views are compared with constants at a few moments.'),
  LK, [('views', LK[1])], LR + 'a deposit was on the pool or a termination was under way.', lv, LS)
p('C49', 'Multisigs: a request number means the same request to everyone',
  'In both versions a number is given to one request only, ever; what is shown for it (receiver, actions, confirmations) is exactly what was requested and who has confirmed, from when it is added until it is gone, and nothing is shown of it afterwards. So whoever confirms by number confirms what they were shown.',
  HIST + ['schedules'], 'for every history of adding, confirming, deleting and carrying out requests by keys and accounts', ('ms', 'numbers and contents are looked at once, right after adding.'),
  MS1 + MS2, [('add_request, get_request, list_request_ids', MS1[0]), ('add_request, get_request, list_request_ids', MS2[0])],
  'A case is a multisig of either version and a history as for C15 and C18. Non-trivial: several requests were open after others were gone.', ['get_request', 'list_request_ids', 'get_confirmations', 'get_request_nonce'])

p('C50', 'Together: from the poll to the last token, the parts work as one',
  'Set up as documented, the contracts understand each other: multisigs from the factory act as the foundation and as owners, the pools of the listed pool factory can be selected and staked with by every lockup, the votes of pools decide the poll that enables transfers of lockups, the foundation can terminate and collect exactly what is unvested, and in the end every party can take out all that is theirs.',
  ['inputs', 'configurations', 'histories'], 'for every combination of terms, confirmations, fees, members and histories of staking, voting, terminating, epochs with rewards, and time', ('lk', 'no test runs the contracts together.'),
  LK + SP + ['voting/src/lib.rs', 'whitelist/src/lib.rs', 'staking-pool-factory/src/lib.rs', 'multisig-factory/src/lib.rs'] + LF + MS1 + MS2,
  [('select_staking_pool, check_transfers_vote', LK[3]), ('vote', SP[0]), ('get_result', 'voting/src/lib.rs'), ('confirm, execute_request', MS2[0])],
  'A case is two pools, three lockups owned by an account and a multisig of either version, a multisig as foundation, a poll, and a history of 8 to 32 (thorough: 60) steps, ending with everyone taking out everything. Non-trivial: a lockup staked, was terminated to the end, or had its transfers enabled by the poll.', ['answers of calls', 'balances of all accounts', 'views of all contracts'])

p('C51', 'Upgrades: what a published build has stored, this tree\'s build understands',
  'When the code of an account is replaced by the build of this tree while it holds what a build published in the repository (the res directories, incl. the oldest wrapped NEAR) has stored, nothing changes or is lost: balances, stakes, votes, lists, members, open requests with their confirmations, terms and terminations under way read as before, and every later call behaves as if this build had run from the start.',
  HIST + ['configurations'], 'for wrapped NEAR, both multisigs, whitelist, voting, staking pool, pool factory and lockup, with the upgrade between any two calls of any history', ('x', 'one upgrade of one contract holding one balance is followed.'),
  ['w-near/src/lib.rs', 'w-near/src/legacy_storage.rs'] + MS1 + MS2 + ['whitelist/src/lib.rs', 'voting/src/lib.rs'] + SP + PF[:1] + LK[:1] + LK[7:], [('stored structures and their encoding', 'each contract'), ('storage_minimum_balance', 'w-near/src/legacy_storage.rs')],
  'Histories of the scenarios of these contracts on an account that starts with the published build and is upgraded before one of the steps; from then on every expectation counts. Non-trivial: something had been stored before the upgrade.', ['everything the scenarios of these contracts observe'])

p('C52', 'Scale: what others have stored makes no call dearer or different',
  'In the staking pool, wrapped NEAR, the whitelist, the pool factory and both multisigs, what a call comes to, and how much storage it reads and writes, does not depend on how many delegators, token holders, listed accounts, pools, members or open requests of others there are. So nobody can make a contract too costly to use by filling it. (Not meant: removing a member or key, which goes through all open requests, listing all requests or members, and voting, whose validators are few.)',
  HIST + ['configurations'], 'for every history of the users\' calls, run along with 6 and with 150 to 260 others, comparing call by call', ('x', 'no test has more than a handful of accounts, or looks at what is read.'),
  SP + WN + ['whitelist/src/lib.rs'] + PF + MS1 + MS2, [('accounts: UnorderedMap', SP[0]), ('token.accounts: LookupMap', WN[0]), ('whitelist: LookupSet', 'whitelist/src/lib.rs'), ('requests, confirmations: UnorderedMap', MS1[0])],
  'A case is one of the contracts in two worlds, with few and many others, and 3 to 24 (thorough: 40) steps carried out in both. Non-trivial: more than two of the calls were accepted.', ['answers of calls and views', 'storage accesses and bytes of each call'])
p('C53', 'What is over leaves nothing stored',
  'Storage a user\'s business has taken up (an account in the pool or in wrapped NEAR, a listing, a request with its confirmations, a member, a failed creation, dealings of a lockup with a pool) is free again when it is over: going through the same business again and again does not make the contract use more and more storage, whose cost would lock up its tokens.',
  HIST, 'for every history brought to its end (all withdrawn, unregistered, removed, carried out or deleted), repeated four times', ('x', 'no test looks at the storage used.'),
  SP + WN + ['whitelist/src/lib.rs'] + PF + MS1 + MS2 + LK[:1] + LK[3:5], [('internal_save_account', SP[1]), ('storage_unregister', WN[0]), ('remove_request, delete_member', MS2[0]), ('on_staking_pool_create', PF[0])],
  'A case is one of the contracts and 3 to 24 (thorough: 40) steps followed by what ends everything, four times over. Non-trivial: storage was used in the course of it and given back.', ['storage usage of the account of the contract'])

p('C54', 'Gas: what is handed on is enough for the work',
  'With 300 TGas attached to a call (to an owner\'s or foundation\'s call to a lockup: what its documentation asks for), and at the prices of the network the contracts were published for, the call and everything it sets off (calls of other contracts of the repository, callbacks, staking, refunds) never ends for want of gas: what a contract hands on is enough for the work it is for, and what is left is enough for its own.',
  HIST + ['configurations'], 'for every history', ('x', 'the unit tests run with unlimited gas; the simulation tests run published builds.'),
  SP + PF + ['lockup/src/gas.rs'] + LK + LF[:1] + MS1 + MS2 + MF + WN + VO + ['whitelist/src/lib.rs'], [('gas constants', 'lockup/src/gas.rs'), ('ON_STAKE_ACTION_GAS', SP[0]), ('mod gas', PF[0]), ('mod gas', LF[0])],
  'A case is a history of the scenario of one contract (see its other properties), or of all of them together, run with gas counted by instruction, runtime call, byte and receipt. Non-trivial: at least one callback ran. A failure counts when the same history passes without counting gas.', ['gas attached, handed on and used by every call'])

p('C55', 'Deployment scripts: what they set up works together',
  'scripts/deploy_core.sh sets up poll, whitelist and pool factory under the master account with 15, 15 and 50 NEAR and no access keys, all initialised, the whitelist obeying the given foundation, the factory using that whitelist and listed on it. scripts/deploy_lockup.sh then makes exactly the lockup that was answered for: new name, owner, balance, 3 days of lockup and 30 of release once the deployed poll has decided, pools from the deployed whitelist. Missing settings, unknown accounts, names that are invalid or taken and amounts below 35 NEAR send nothing at all.',
  ['inputs', 'histories', 'configurations'], 'for every master, foundation and lockup account, every setting left out and every list of answers, and what is done with the contracts afterwards', ('x', 'nothing tests the scripts; scripts/tests needs a local network and looks at voting only.'),
  ['scripts/deploy_core.sh', 'scripts/deploy/deploy_voting.sh', 'scripts/deploy/deploy_whitelist.sh', 'scripts/deploy/deploy_staking_pool_factory.sh', 'scripts/deploy_lockup.sh'], [('newArgs, signAndSendTransaction', 'each script')],
  'A case is a choice of accounts and settings, deploy_core.sh (sometimes first without something, sometimes twice), one or two runs of deploy_lockup.sh with generated answers, then pools, votes and 1 to 3 points of time. Non-trivial: a lockup was deployed.', ['transactions sent by the scripts', 'accounts, balances, code, keys', 'what the deployed contracts do'])

TECH = {'C55': 'property-based testing of the scripts against a stand-in for the command line client, what they send carried out on the simulated chain', 'C12': 'stateful property-based testing against a set model', 'C13': 'stateful property-based testing against an exact tally', 'C45': 'property-based testing against a byte map', 'C46': 'property-based testing against a byte map', 'C54': 'stateful differential property-based testing of the compiled contracts, with and without gas counted', 'C52': 'stateful metamorphic property-based testing: the same calls in a small and a large world', 'C53': 'stateful metamorphic property-based testing: the same history over and over'}
SIM = ' Trusted: the runtime model in sim/near.mjs (receipts, rollback, refunds, staking, keys), the reference model, fast-check and the wasm toolchain; gas is counted in full for C54 only (elsewhere a flat cost per call), storage costs always.'
P.sort(key=lambda x: x['id'])
rules = {}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in P:
        rules[q['id']] = q.pop('rule')
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
json.dump(rules, open(os.path.join(ROOT, 'checks/rules.json'), 'w'), indent=1, ensure_ascii=False)
m = dict(version=1, setup_cmd='bin/build-wasm.sh',
  checks=[dict(property=q['id'], quick_cmd=f"bin/check {q['id']}", thorough_cmd=f"VERIF_TIER=thorough bin/check {q['id']}",
    technique=TECH.get(q['id'], 'stateful model-based property testing of the compiled contracts'), level='exploration',
    level_note='Random histories with shrinking on the wasm built from /repo, against an independent exact model; finds what some generated history shows, proves no absence.' + SIM) for q in P],
  not_applicable=[], notes='No hooks are needed: the checks run the contracts as compiled, through their public interface.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(P), 'properties')

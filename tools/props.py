"""What is claimed, in one place: properties.jsonl and MANIFEST.json are generated from this by tools/gen.py."""
TECH = 'interprocedural dataflow over MIR: must-hold path facts and value numbering'
NOTES = ('Static analysis only. Every check compiles the two contracts of the current tree for wasm32 with the pinned rustc 1.69 and analyses the MIR it emits; '
         'nothing of the contracts is executed and no solver is used. See DESIGN.md.')
NOTE = ('Every exported entry point of the production build is analysed over all its paths (joins, loops to a fixpoint, calls followed); a fact counts only if it '
        'holds on every path. Trusted: rustc\'s MIR, the models of library calls in sa/interp.py, near-sdk and the host; sites that were confirmed by hand are '
        'anchored by field, collection and API names.')
PROPS = []


def P(id, title, statement, text, why, files, mech, obs, over=('inputs', 'histories'), **kw):
    d = dict(id=id, title=title, statement=' '.join(statement.split()), over=list(over), text=' '.join(text.split()), why=' '.join(why.split()),
             files=files if isinstance(files, list) else files.split(), mech=mech, obs=obs if isinstance(obs, list) else [obs], note=NOTE)
    d.update(kw)
    PROPS.append(d)


EX = 'ref-exchange/src/'
FA = 'ref-farming/src/'

# ------------------------------------------------------------------------------------------------ authority
P('A01', 'Only the owner changes ownership, guardians, admin fee, wNEAR id or limits',
  '''The exchange's owner, guardian set, admin fee and wNEAR account id change only in calls made by the owner, and the other owner-only administration calls (pool
  limits, removal of whitelists and of degen/rated tokens, degen oracle updates, retrieving unmanaged tokens, upgrading the code) fail for everybody else, guardians
  included. A paused contract is resumed only by the owner.''',
  'every caller, argument and prior contract state, for every exported function of the exchange',
  'The tests call a handful of these functions with one wrong caller; the claim is about every exported function and every path through it.',
  [EX + 'owner.rs', EX + 'lib.rs'], [('assert_owner / is_owner_or_guardians', EX + 'owner.rs')], 'any exported function of ref-exchange', over=['inputs', 'histories'])
P('A02', 'Configuration changes only through the owner or a guardian',
  '''Token whitelists, frozen tokens, referrals, automatic whitelist postfixes, burrowland and boost-farm ids, the running state and the TWAP recording interval
  change only in calls made by the owner or a guardian; creating stable, rated and degen pools, changing fees, ramping amplification, managing rated and degen tokens
  and pool limits, and moving the exchange's own fees likewise fail for everybody else.''',
  'every caller, argument and prior state, for every exported function of the exchange', 'A test samples single callers; no test shows that no other exported function reaches those fields.',
  [EX + 'owner.rs', EX + 'lib.rs'], [('is_owner_or_guardians', EX + 'owner.rs')], 'any exported function of ref-exchange')
P('A03', 'Callbacks and migration run only when the contract calls itself',
  '''Every promise callback of the exchange and the farming contract, and their state migration, fails unless the caller is the contract itself.''',
  'every caller, for every callback and the migration of both contracts', 'Tests reach callbacks through the contract only; none calls one from outside with every path covered.',
  [EX + 'account_deposit.rs', EX + 'multi_fungible_token.rs', EX + 'shadow_actions.rs', EX + 'owner.rs', FA + 'actions_of_reward.rs', FA + 'actions_of_seed.rs'],
  [('#[private] and assert_self', EX + 'owner.rs')], 'the callbacks and migrate')
P('A04', 'Value-moving and administrative calls need an attached deposit',
  '''The calls of both contracts that move a user's tokens or shares out, or change configuration, succeed only with exactly one yoctoNEAR attached, so that
  a function-call access key alone cannot make them; adding liquidity requires a non-zero deposit.''',
  'every caller, deposit and argument, for the 66 listed calls', 'Tests attach one yocto where required and hardly ever leave it out.',
  [EX + 'lib.rs', EX + 'owner.rs', EX + 'account_deposit.rs', EX + 'multi_fungible_token.rs', FA + 'actions_of_seed.rs', FA + 'owner.rs'],
  [('assert_one_yocto', 'near_sdk')], 'the listed exported functions')
P('A05', 'A paused exchange refuses user operations',
  '''While the exchange is paused, every user operation (swaps, actions, adding and removing liquidity, deposits by transfer, withdrawals, share transfers,
  registration, storage management, shadow actions, donations, claiming lost tokens) fails on every path.''',
  'every argument and state, for the 27 user operations', 'The tests pause once and try a few calls; the claim is about all operations and all their paths.',
  [EX + 'lib.rs', EX + 'owner.rs', EX + 'account_deposit.rs', EX + 'token_receiver.rs', EX + 'multi_fungible_token.rs', EX + 'storage_impl.rs'],
  [('assert_contract_running', EX + 'lib.rs')], 'the listed exported functions')
P('A07', 'Queries and predictions change nothing',
  '''The read-only functions of both contracts, including the predict_* and batch views, neither write storage, nor change persistent collections, nor create a promise, on any path.''',
  'every argument and state, for the 92 query functions', 'A test that calls a view does not look at what it wrote; views run against any state.',
  [EX + 'views.rs', EX + 'lib.rs', FA + 'view.rs'], [('&self receivers', EX + 'views.rs')], 'the query functions')
P('F01', 'Only the farming owner administers farms',
  '''In the farming contract the owner, the running state, new farms, forced clean-up of farms, minimum seed deposits and code upgrades are in the hands of the owner alone.''',
  'every caller, argument and state, for every exported function of the farming contract', 'Tests check single callers on single paths.',
  [FA + 'owner.rs', FA + 'lib.rs'], [('assert_owner', FA + 'owner.rs')], 'any exported function of ref-farming')
P('F02', 'A paused farming contract refuses farmer operations',
  '''While the farming contract is paused, staking, unstaking, claiming and withdrawing rewards and storage management fail on every path.''',
  'every argument and state, for the 10 farmer operations', 'The tests pause once and try a few calls.',
  [FA + 'lib.rs', FA + 'owner.rs', FA + 'token_receiver.rs'], [('assert_contract_running', FA + 'lib.rs')], 'the listed exported functions')

# ------------------------------------------------------------------------------------------------ pool shares
S_FILES = [EX + 'simple_pool.rs', EX + 'stable_swap/mod.rs', EX + 'rated_swap/mod.rs', EX + 'degen_swap/mod.rs', EX + 'pool.rs', EX + 'multi_fungible_token.rs', EX + 'lib.rs',
           EX + 'donation.rs', EX + 'shadow_actions.rs']
P('S01', 'The shares of a pool always add up to its total supply',
  '''For every pool of the exchange, of all four kinds, the balances in its share map (users, the exchange's own fees, referrals) add up to shares_total_supply at all
  times: adding and removing liquidity, minting fee and referral shares in swaps, transfers, donations and burns change both by the same amount, a transfer leaves the sum
  unchanged even from an account to itself, and a new pool starts with neither.''',
  'every sequence of calls, argument and pool state: all writes to share maps and totals on all paths of every exported function that changes state',
  'The tests compare a few balances after a few calls; a sum over all holders after an arbitrary history is never looked at.',
  S_FILES, [('mint_shares / burn_shares', EX + 'simple_pool.rs'), ('mint_shares / share_transfer', EX + 'stable_swap/mod.rs'), ('internal_share_transfer', EX + 'pool.rs')],
  'mft_total_supply against mft_balance_of over all holders')
P('S02', 'Nobody can spend another account\'s pool shares',
  '''An account's shares in a pool go down only in calls made by that account itself. The exceptions are the exchange's own shares (moved by the owner or a guardian), the
  receiver of a share transfer call returning what it did not use, and the liquidation of an account by burrowland.''',
  'every caller, argument and state, for all writes to share maps', 'Tests exercise the intended caller; the claim is about all callers and all functions that reach a share map.',
  S_FILES, [('predecessor_account_id as key', EX + 'lib.rs')], 'mft_balance_of of accounts other than the caller')
P('S03', 'Shares are credited only to suppliers, named receivers, fees and referrals',
  '''Pool shares are credited only to the account that supplies the liquidity (or the sender a token contract names), to the receiver a transfer names, back to the sender of a
  share transfer call, to the exchange as its fee, or as referral fee to an account that is registered as a referral at that moment. Adding liquidity credits the supplier exactly the number of shares it reports, the number min_shares limits.''',
  'every caller, argument and state, for all writes that raise a share balance', 'Tests look at the accounts they expect to be credited.',
  S_FILES, [('internal_swap / referral_info', EX + 'lib.rs')], 'mft_balance_of of any account')
P('S04', 'Shares locked by shadow records cannot leave the account',
  '''Shares that a user has lent to farming or burrowland through shadow records stay put: removing liquidity, transferring shares and donating them succeed only for an
  amount within balance minus the larger of the two locked amounts.''',
  'every history of shadow actions, callbacks and share operations; all paths on which a user\'s shares go down',
  'Tests lock shares and try one way of moving them; donations were forgotten (see known-findings.txt).',
  S_FILES, [('free_shares', EX + 'shadow_actions.rs')], 'mft_balance_of and shadow records of any account')

# ------------------------------------------------------------------------------------------------ token books
T_FILES = [EX + f for f in ('account_deposit.rs', 'token_receiver.rs', 'lib.rs', 'utils.rs', 'action.rs', 'multi_fungible_token.rs', 'shadow_actions.rs', 'donation.rs', 'owner.rs', 'storage_impl.rs')]
P('T01', 'Tokens the exchange owes users are neither created nor destroyed',
  '''In every call of the exchange each amount that leaves an account's token balance arrives somewhere, once: in another account's balance, in the pool as the amount a swap or
  added liquidity takes in, in lost-and-found, or in an outgoing transfer of the same token; and each amount credited comes from an incoming transfer, the pool as the amount
  a swap pays out or removed liquidity returns, lost-and-found, or another balance. What actions in a transfer call earn is paid out completely and once. Pool amounts are
  booked token by token for the tokens of that very pool. Tokens are never credited under the id of another token.''',
  'every argument, action list, pool kind and state: all writes to token balances and all outgoing transfers on all paths of every state-changing function',
  'A test compares a few balances around one call; that no path anywhere drops, doubles or misfiles an amount (chains of actions, refunds, empty amounts, legacy maps) is not sampled.',
  T_FILES, [('deposit / withdraw', EX + 'account_deposit.rs'), ('internal_execute_actions', EX + 'lib.rs'), ('TokenCache', EX + 'utils.rs')],
  'get_deposits of all accounts, lost-and-found and pool amounts against what was transferred in and out')
P('T02', 'Nobody can spend another account\'s tokens',
  '''An account's token balance in the exchange goes down only in calls made by that account itself, except for the return of unused tokens by the receiver of a transfer call,
  and for the exchange's own balance moved by the owner or a guardian. It goes up only for the caller, the sender a token contract names, the receiver a transfer names, the party a
  failed transfer or a liquidation is booked back to, or the owner for amounts nobody can be found for. Lost-and-found tokens are paid only to the account they are kept for.''',
  'every caller, argument and state, for all writes to token balances', 'Tests exercise the intended caller; the claim is about all callers and all functions that reach a balance.',
  T_FILES, [('internal_unwrap_account / internal_save_account', EX + 'account_deposit.rs')], 'get_deposits of accounts other than the caller')
P('T03', 'A failed outgoing transfer is booked back in full',
  '''Every transfer of a user's tokens out of the exchange (plain, with a message, or unwrapping NEAR) is followed by the exchange's own callback for the same token, account and
  amount. When the transfer failed the callback books exactly that amount back, to the account or, if it can no longer hold it, to lost-and-found or the owner; when it
  succeeded nothing is booked. Unwrapped NEAR is passed on to the withdrawing account once.''',
  'every way a promise can end, every argument and every state at the time of the callback, for all call sites that send tokens',
  'Unit tests cannot make the promise fail at each call site with the account in each possible state.',
  T_FILES, [('exchange_callback_post_withdraw', EX + 'account_deposit.rs')], 'get_deposits and lost-and-found after a failed transfer')
P('T04', 'A transfer to the exchange is booked in once, for the right token',
  '''ft_on_transfer keeps the whole amount or fails: it never asks for a refund, and books the amount received in exactly once, under the token contract that called. A transfer without
  a message is credited to the sender, who must be registered, and only if the token is whitelisted, matches an automatic whitelist postfix, or the account already has an
  entry for it.''',
  'every token, sender, amount and message', 'Tests send well-formed transfers of known tokens.', [EX + 'token_receiver.rs', EX + 'account_deposit.rs'],
  [('ft_on_transfer', EX + 'token_receiver.rs'), ('internal_deposit', EX + 'account_deposit.rs')], 'ft_on_transfer')
P('T05', 'Share transfer calls return exactly what was not used',
  '''mft_transfer_call and mft_transfer_all_call move the amount first, tell the receiver that amount, and are resolved by the exchange's own callback for the same token, sender, receiver
  and amount. What goes back is the least of the receiver's balance, the amount, and the unused amount the receiver reported (everything if its call failed or the report
  cannot be read), and it goes from the receiver to the sender, or to the exchange if the sender's account is gone. Transfers of nothing and to oneself are refused.''',
  'every answer or failure of the receiver and every state at the time of the callback', 'Tests use one cooperative receiver; replies that are malformed, too large, or failures with a spent balance are not sampled.',
  [EX + 'multi_fungible_token.rs'], [('mft_transfer_call / mft_resolve_transfer', EX + 'multi_fungible_token.rs')], 'mft_balance_of of sender and receiver')

# ------------------------------------------------------------------------------------------------ lost updates
P('U01', 'Changed account and pool records are written back and never overwrite newer ones',
  '''Whenever a state-changing function of the exchange loads an account or a pool and changes it, the changed record is stored again under the id it was loaded with before
  the call returns; and a record is never stored over a newer version of itself that was written between its loading and its storing (as when the same account appears
  in two roles of one call).''',
  'every argument (including one account in several roles, repeated tokens and repeated pools) and every state, for all loads and stores of accounts and pools',
  'Tests use distinct accounts and pools in each role; a stale or forgotten write shows only when two roles coincide or on a rare branch.',
  [EX + 'account_deposit.rs', EX + 'lib.rs', EX + 'shadow_actions.rs', EX + 'multi_fungible_token.rs', EX + 'owner.rs'],
  [('internal_unwrap_account / internal_save_account, pools.get / pools.replace', EX + 'account_deposit.rs')], 'get_deposits, get_pool and mft_balance_of after the call')

# ------------------------------------------------------------------------------------------------ shares locked elsewhere
H_FILES = [EX + 'shadow_actions.rs', EX + 'account_deposit.rs']
P('H01', 'Shares are locked and released in step with the farm and Burrowland',
  '''An account's lock records (shares of a pool shadowed in the boost farm or in Burrowland) change only by its own shadow_action, the callback of that action, and a liquidation by
  Burrowland. A lock request (ToFarming, ToBurrowland) records a positive amount of at most the caller's shares not yet locked in the same place and tells the partner contract of that
  place the same account, pool and amount; if the partner fails, exactly that amount is taken off the record again. A release request (FromFarming, FromBurrowland) asks the partner of that
  place for at most what is recorded, and lowers the record by exactly that amount only after the partner succeeded. The other place's record is not affected.''',
  'every action, amount, record and share balance, and both outcomes of the partner call',
  'Unit tests sample a few amounts with a cooperative mock partner; amounts at the edge, existing records of the other kind and failing partners are not covered for every action.',
  H_FILES, [('shadow_action / callback_on_shadow', EX + 'shadow_actions.rs'), ('update_shadow_record', EX + 'account_deposit.rs')], 'get_shadow_records and the calls made to boost_farm_id and burrowland_id',
  over=['inputs', 'histories', 'faults'])
P('H02', 'A liquidation takes exactly the liquidated shares and pays the liquidator',
  '''on_burrow_liquidation works only for Burrowland. It lowers the liquidated account's Burrowland record and its shares in the pool by exactly the liquidated amount, and
  credits the tokens received for them to the named liquidator. The farming record is lowered only by the part of the amount that the account's free shares (after the Burrowland
  record went down) do not cover, and the boost farm is then told that account and amount.''',
  'every liquidated amount, record, share balance and pool', 'Tests liquidate one account in one or two proportions of free to farmed shares.',
  H_FILES + [EX + 'pool.rs'], [('on_burrow_liquidation', EX + 'shadow_actions.rs')], 'get_shadow_records, mft_balance_of and get_deposits after a liquidation')

P('N01', 'NEAR is kept, returned and charged for storage exactly',
  '''storage_deposit keeps all the NEAR attached for the named account, or returns the part it does not keep to the caller. Creating a pool, adding liquidity, registering for shares and
  locking shares cost exactly the growth of storage times the price per byte: the rest of the NEAR attached goes back, and the call fails if too little was attached. A hot zap charges the
  growth to the sender's deposit. Otherwise an account's NEAR goes down only by what is sent to its owner, and up only by the storage freed on its behalf. A withdrawal leaves the storage in
  use covered; an account is removed only with no tokens and no locked shares, and all its NEAR is sent to it.''',
  'every amount attached, account, storage price and path, for all exported functions of the exchange',
  'Tests attach round amounts and register with the minimum; growth that happens not to occur, refunds of a few yocto and storage freed in callbacks are not sampled.',
  [EX + 'storage_impl.rs', EX + 'account_deposit.rs', EX + 'lib.rs', EX + 'token_receiver.rs', EX + 'shadow_actions.rs', EX + 'donation.rs'],
  [('internal_check_storage', EX + 'lib.rs'), ('internal_storage_withdraw', EX + 'account_deposit.rs')], 'storage_balance_of, and the NEAR transfers sent')

P('K01', 'No two collections share storage',
  '''Each collection of the contract state, the shares of each pool, the tokens, the locked shares and the lost-and-found tokens of each account, and each farmer's reward marks are kept under a storage prefix of
  their own, so that nothing written to one of them is ever read as part of another: a pool's share map is keyed by the index the pool gets (pools are never removed), an account's by the name under which
  the account is stored. Data kept under a raw key is read and written under that same key only. The contract is initialised only while it has no state.''',
  'every pool, account, key and history, for all constructions of storage collections in the exchange and the farming contract',
  'A collision shows only when two particular collections hold the same key at the same time; the tests hold a few accounts and pools.',
  [EX + 'lib.rs', EX + 'account_deposit.rs', EX + 'account_lostfound.rs', EX + 'client_echo_limit.rs', EX + 'pool_limit_info.rs', EX + 'legacy.rs', FA + 'lib.rs', FA + 'farmer.rs'],
  [('StorageKey', EX + 'lib.rs'), ('StorageKeys', FA + 'lib.rs')], 'the views of each collection')
P('K02', 'Stored data survives upgrades',
  '''Data stored by the present version is read back as it was meant: the Borsh layout of the contract state and of everything stored under it (order and types of fields and variants) is only extended by new
  variants. migrate keeps every field of the state, and an account stored in an older form (V1, V2) keeps its NEAR, its tokens and its storage when it is loaded.''',
  'every stored state and account form', 'The tests create all their data with the code under test, so a changed layout or a field dropped on conversion of old data does not show.',
  [EX + 'lib.rs', EX + 'legacy.rs', EX + 'account_deposit.rs', EX + 'pool.rs', EX + 'owner.rs', FA + 'lib.rs', FA + 'legacy.rs', FA + 'owner.rs'],
  [('migrate', EX + 'owner.rs'), ('into_current', EX + 'legacy.rs'), ('migrate', FA + 'owner.rs')], 'all views after an upgrade',
  over=['inputs', 'histories'])
P('A06', 'Frozen tokens cannot be traded, deposited, withdrawn or claimed',
  '''While a token is frozen, no swap takes it in or pays it out (in single swaps, action lists, instant swaps and hot zaps alike), no user adds or removes liquidity of a pool that holds it
  (liquidations included), and it cannot be deposited by a plain transfer, withdrawn, or claimed from lost-and-found: such calls fail on every path.''',
  'every frozen set, action list, pool and token, for the 12 functions that trade, deposit, withdraw or claim',
  'Tests freeze one token and try single calls with it in one position; lists with the token in another position, other pool kinds and zaps are not covered.',
  [EX + 'lib.rs', EX + 'token_receiver.rs', EX + 'account_deposit.rs', EX + 'account_lostfound.rs', EX + 'shadow_actions.rs', EX + 'action.rs'],
  [('assert_no_frozen_tokens', EX + 'lib.rs'), ('get_tokens_in_actions', EX + 'action.rs')], 'the listed exported functions')

P('O01', 'Rates and prices change only by fresh answers of their oracle',
  '''Outside the settings made by owner and guardians, the rate or price kept for a token changes only in a callback of the exchange to itself, after a successful answer; the record changed is the one
  kept for the token asked for, only its rate or price and its time of update change, and the time is the block time. A report of the price oracle counts only if it is recent enough, not from the
  future, not staler than set, and its price is that of the token (rates: both tokens, with equal decimals); a Pyth price counts only if positive and published no longer ago than set. What changed is stored.''',
  'every answer and failure of every oracle, every kind of rate and price, single and batch updates', 'Tests use mock oracles with a few well-formed answers; stale, future, foreign, zero and failed ones in every combination are not sampled.',
  [EX + 'rated_swap/rate.rs', EX + 'rated_swap/sfrax_rate.rs', EX + 'degen_swap/degen.rs', EX + 'degen_swap/price_oracle.rs', EX + 'degen_swap/pyth_oracle.rs', EX + 'oracle.rs', EX + 'lib.rs'],
  [('update_token_rate_callback', EX + 'lib.rs'), ('SfraxRate::set', EX + 'rated_swap/sfrax_rate.rs'), ('set_price', EX + 'degen_swap/pyth_oracle.rs')], 'list_rated_tokens, list_degen_tokens')
P('O02', 'No trade at expired rates or prices',
  '''A swap in a rated or degen pool, a withdrawal from one by token amounts, and the first provision to one go through only if every token of the pool that has a rate or price had it updated recently: a rate
  within a day, a price within the expiry set for its oracle. It makes no difference which two tokens are traded or by which call.''',
  'every pool, token, time and age of every rate and price', 'Tests let the rate of one token lapse and try one call; the other tokens, positions, kinds of oracle and ways to trade are not tried.',
  [EX + 'rated_swap/mod.rs', EX + 'rated_swap/rate.rs', EX + 'degen_swap/mod.rs', EX + 'degen_swap/degen.rs', EX + 'degen_swap/price_oracle.rs', EX + 'degen_swap/pyth_oracle.rs'],
  [('assert_rates_valid', EX + 'rated_swap/mod.rs'), ('assert_degens_valid', EX + 'degen_swap/mod.rs')], 'swap, swap_by_output, execute_actions, hot_zap, ft_on_transfer, remove_liquidity_by_tokens, add_stable_liquidity')

P('D01', 'The TWAP record of a pool misses no change of the pool',
  '''Where a pool keeps a record of what one of its shares is worth over time, no swap and no provision or user withdrawal of liquidity changes the pool before the record was brought up to the block's second,
  by whichever call it comes. Bringing it up to date adds, coin by coin, what one share of the pool as stored is worth times the seconds since the stored time; an entry of the history pairs the second with the
  amounts gathered, at most once per recording interval, and only the oldest of more than sixty is dropped. A record is begun afresh only where there is none. (The owner's and the lending contract's
  proportional removals leave a share's worth alone and are not bound by it.)''',
  'every pool, call, action list and hot-zap list, and every time between updates',
  'The test of the record makes one pool and a few swaps with the recording interval set to zero; hot zaps, lists of pools, other kinds of pool and intervals longer than the time between updates are not tried.',
  [EX + 'unit_lpt_cumulative_infos.rs', EX + 'lib.rs', EX + 'token_receiver.rs'],
  [('internal_update_unit_share_cumulative_info', EX + 'unit_lpt_cumulative_infos.rs'), ('UnitShareCumulativeInfo::update', EX + 'unit_lpt_cumulative_infos.rs')],
  'get_pool_twap_info_view, list_pool_twap_info_view, get_unit_share_twap_token_amounts')

P('P01', 'Shares buy and cost their part of the reserves, rounded for the pool',
  '''Giving up shares of a pool in proportion pays of each token its reserve x the shares given up / the shares outstanding before, rounded down, in simple, stable, rated and degen pools and by whichever call.
  Providing to a simple pool that has shares mints the least, over all its tokens, of (offered - 1) x shares outstanding / reserve, and takes of each token its reserve x the shares minted / shares outstanding
  plus one; the first provision takes what is offered and mints a fixed number of shares. (What the stable pools mint for an unbalanced provision is settled by their curve and not part of this.)''',
  'every pool, reserve, number of shares, amounts offered, and every call that removes or provides',
  'Tests provide and remove round amounts of pools of even reserves, where the order of multiplication and division, the direction of the rounding and which token is the scarcest make no difference.',
  [EX + 'simple_pool.rs', EX + 'stable_swap/mod.rs', EX + 'rated_swap/mod.rs', EX + 'degen_swap/mod.rs'],
  [('SimplePool::add_liquidity', EX + 'simple_pool.rs'), ('remove_liquidity', EX + 'simple_pool.rs'), ('remove_liquidity_by_shares', EX + 'stable_swap/mod.rs')],
  'add_liquidity, remove_liquidity, get_pool, get_pool_shares')

P('P02', 'A simple pool quotes by the constant product with its fee',
  '''A swap in a simple pool with reserves x of the token in and y of the token out, a fee of f of 10000 and an amount a pays a (10000 - f) y / (10000 x + a (10000 - f)), rounded down once at the end; a swap by
  output of amount b takes x b 10000 / ((y - b) (10000 - f)), rounded down, plus one. x, y and f are those of the very pool before the very swap, whichever call, list or cache the swap comes from.''',
  'every simple pool, reserve, fee, amount, and every call that swaps',
  'Tests compare a few outputs for even reserves and fees; a formula that differs in the order of rounding, or in where the fee enters, gives the same numbers on them.',
  [EX + 'simple_pool.rs', EX + 'pool.rs', EX + 'lib.rs'],
  [('SimplePool::internal_get_return', EX + 'simple_pool.rs'), ('SimplePool::internal_get_return_by_output', EX + 'simple_pool.rs')],
  'get_return, get_return_by_output, swap, swap_by_output')

P('P03', 'The exchange and the referral get exactly the admin part of a swap fee',
  '''A stable, rated or degen pool keeps from what a swap would pay its fee of that amount / 10000, and mints for fee x admin fee / 10000 of it what depositing this into the pool without fee would mint; a simple
  pool mints (growth of the root of the reserves' product) x shares outstanding / (root before x 10000 / admin fee). Nothing is minted only where that comes to nothing. A referral that is known to the exchange
  and holds an entry of the pool gets (these shares) x its rate / 10000, the exchange all the others, and nobody else any.''',
  'every pool kind, amount, admin fee, referral, referral rate, and every call that swaps',
  'Tests with a referral use one rate, one pool and one swap; a part of the fee lost or given twice shows in a fraction of the shares only.',
  [EX + 'simple_pool.rs', EX + 'stable_swap/mod.rs', EX + 'rated_swap/mod.rs', EX + 'degen_swap/mod.rs', EX + 'stable_swap/math.rs', EX + 'rated_swap/math.rs', EX + 'degen_swap/math.rs', EX + 'admin_fee.rs'],
  [('update_pool_and_distribute_fee', EX + 'simple_pool.rs'), ('distribute_admin_fee', EX + 'stable_swap/mod.rs'), ('swap_to', EX + 'stable_swap/math.rs'), ('Fees', EX + 'stable_swap/math.rs')],
  'get_pool_shares of the exchange and of the referral, get_pool, get_return')

# ------------------------------------------------------------------------------------------------ limits and parameters
P('X01', 'A user never gets less or pays more than the limits given',
  '''Every swap pays out at least the min_amount_out of the very action, and a swap by output takes at most its max_amount_in when one is given; adding liquidity to a simple pool uses at least
  min_amounts of each token when given, adding to a stable pool mints at least min_shares, removing liquidity returns at least min_amounts of each token, and removing by tokens burns at most
  max_burn_shares. Otherwise the call fails. This holds for direct calls, action lists, instant swaps and hot zaps, for each kind of pool.''',
  'every pool kind, amount, limit, list of actions and prior state, in the nine functions that trade or change liquidity',
  'Tests use a few limits per pool kind, mostly for the first token of a vector; nothing says that each token and each kind is compared with the limit of the request it belongs to.',
  [EX + 'simple_pool.rs', EX + 'stable_swap/mod.rs', EX + 'rated_swap/mod.rs', EX + 'degen_swap/mod.rs', EX + 'lib.rs', EX + 'token_receiver.rs'],
  [('ERR68_SLIPPAGE checks of the pools', EX + 'simple_pool.rs'), ('min_amounts of add_liquidity', EX + 'lib.rs')], 'the functions that swap or change liquidity')
P('X02', 'Fees stay below 100% and a pool keeps its tokens',
  '''The total fee of every pool, whenever a pool is stored, is below 10000 basis points; the admin fee and each referral fee are set only to values below 10000 (referral fees above zero).
  A new pool's tokens are counted and none occurs twice, and the token list and decimals of an existing pool never change.''',
  'every stored pool, fee argument and prior state, in every exported function that may change state',
  'Tests try one fee above the bound for one pool kind; that no other function of some kind stores a fee or token list outside the bounds cannot be sampled.',
  [EX + 'simple_pool.rs', EX + 'stable_swap/mod.rs', EX + 'rated_swap/mod.rs', EX + 'degen_swap/mod.rs', EX + 'lib.rs', EX + 'owner.rs'],
  [('modify_total_fee', EX + 'owner.rs'), ('new', EX + 'simple_pool.rs')], 'every exported function that stores a pool or sets a fee')
P('X03', 'Amplification starts in bounds and changes slowly and continuously',
  '''A new stable, rated or degen pool starts with an amplification between 1 and 1000000. It changes only by ramps that start at the current time from the amplification in force then, aim at a
  positive value below the maximum and at most ten times larger or smaller, last at least a day and start at least a day after the last one; stopping a ramp freezes the amplification
  in force. Nothing else changes these fields.''',
  'every ramp argument, ramp history and clock value, for each kind of pool, in every exported function that stores a pool',
  'Tests ramp one pool kind with a few values; a jump of the amplification at a boundary of the clock or for another kind is not sampled.',
  [EX + 'stable_swap/mod.rs', EX + 'stable_swap/math.rs', EX + 'rated_swap/mod.rs', EX + 'rated_swap/math.rs', EX + 'degen_swap/mod.rs', EX + 'degen_swap/math.rs', EX + 'owner.rs'],
  [('ramp_amplification', EX + 'stable_swap/mod.rs'), ('compute_amp_factor', EX + 'stable_swap/math.rs')], 'stable_swap_ramp_amp, stable_swap_stop_ramp_amp and pool creation')

# ------------------------------------------------------------------------------------------------ reserves
POOLS = [EX + 'simple_pool.rs', EX + 'stable_swap/mod.rs', EX + 'rated_swap/mod.rs', EX + 'degen_swap/mod.rs', EX + 'pool.rs']
P('R01', 'The reserves a pool records follow what goes in and out',
  '''In every pool operation the recorded reserve of a token changes by exactly the amount the operation takes from the caller or hands to the caller for that very token (in the pool's own
  precision for stable, rated and degen pools), in the right direction, and no other reserve changes; in a swap the reserve paid out of shrinks by at least what is paid. An operation that
  moves tokens never leaves the reserves as they were.''',
  'every pool kind, token order, number of tokens, decimals, amount and prior reserves, in swaps by input and by output, adding and removing liquidity in each form',
  'Tests compare a few reserves after single operations of two-token pools; that each reserve of each kind moves by the amount belonging to its own token cannot be sampled.',
  POOLS, [('swap / add_liquidity / remove_liquidity of each pool', EX + 'simple_pool.rs'), ('c_amounts', EX + 'stable_swap/mod.rs')], 'get_pool and get_pool_volumes after an operation, against the deposits of the caller')
P('R02', 'A swap never lowers the product, and stable pools keep a minimum reserve',
  '''After a swap in a simple pool, the product of the two reserves is not smaller than before. Whenever a stable, rated or degen pool pays a token out (by swap or by removing liquidity),
  at least the minimum reserve of that token remains. Otherwise the call fails.''',
  'every amount, fee and prior reserves, for each token paid out and each kind of pool',
  'Tests drain a pool in one or two ways; the guard must stand behind each way out of each kind and compare the reserve of the token really paid.',
  POOLS, [('ERR_INVARIANT_REDUCE', EX + 'simple_pool.rs'), ('MIN_RESERVE', EX + 'stable_swap/mod.rs')], 'reserves of the pool after a swap or removal of liquidity')
P('R03', 'Amounts are rounded in favour of the pool',
  '''An amount a pool takes from a user that results from a division is rounded up, and an amount it pays that results from a division is rounded down; a swap in a stable, rated or degen
  pool pays at least one unit less than the solution of the invariant would allow.''',
  'every amount and prior reserves, in swaps by input and by output and in adding and removing liquidity of simple pools',
  'A unit lost per call is invisible for the round numbers tests use, and can be repeated by an attacker.',
  POOLS, [('internal_get_amount_in / add_liquidity', EX + 'simple_pool.rs'), ('swap_to', EX + 'stable_swap/math.rs')], 'amounts returned by the pool operations')

# ------------------------------------------------------------------------------------------------ farming
SEED = FA + 'actions_of_seed.rs'
REW = FA + 'actions_of_reward.rs'
P('F03', 'A seed\'s total moves with the stakes of its farmers',
  '''In the farming contract, whenever the stake a farmer has in a seed changes, the total recorded for that seed changes by the same amount in the same direction, and a seed total
  changes in no other way. Each stake written belongs to one farmer.''',
  'every exported function, farmer, seed, amount and prior state, including failed withdrawals and repeated claims',
  'Rewards are shared out by the seed total; a path that moves one side only (a failed transfer, an emptied stake) distorts all later rewards and is not sampled by tests.',
  [SEED, FA + 'farmer.rs', FA + 'farm_seed.rs'], [('Farmer::add_seed / sub_seed', FA + 'farmer.rs'), ('FarmSeed::add_amount / sub_amount', FA + 'farm_seed.rs')],
  'get_user_rps, list_user_seeds and list_seeds_info')
P('F04', 'A deposit to the farming contract is booked exactly once, in full',
  '''Tokens that arrive at the farming contract are kept in full and booked exactly once or refused: as stake of the account that sent them, in the seed of the token that arrived and no less than
  that seed's minimum; or as reward of a farm that pays in just that token, together with the running total of that reward token.''',
  'every sender, token, message, amount and prior state of ft_on_transfer and mft_on_transfer',
  'Tests deposit one token with well-formed messages; a wrong seed, a double booking or a foreign reward token shows only for particular messages.',
  [FA + 'token_receiver.rs', SEED, FA + 'actions_of_farm.rs'], [('ft_on_transfer / mft_on_transfer', FA + 'token_receiver.rs')], 'list_user_seeds, get_farm and get_reward_info after the transfer')
P('F05', 'Stakes and rewards leave only to their owner, with the failure undone',
  '''What is taken out of a stake or out of a farmer's rewards is the caller's, and exactly that amount of that token is sent to the caller; nothing else is sent. Each transfer is followed by a
  callback which, when the transfer failed, books exactly that amount back to the same account as stake or reward, and books nothing when it succeeded.''',
  'every caller, token, amount and outcome of the transfer, in withdraw_seed, withdraw_reward and their callbacks',
  'Tests cannot sample failing transfers with each kind of seed and reward, nor see that no other path sends tokens.',
  [SEED, REW], [('withdraw_seed / callback_post_withdraw_ft_seed', SEED), ('withdraw_reward / callback_post_withdraw_reward', REW)], 'token transfers sent, and the stakes and rewards before and after')
P('F06', 'Rewards credited are exactly what the farms count as claimed',
  '''A reward credited to a farmer is what a farm of that reward token counts as claimed in the same step, and nothing is counted as claimed that is credited to nobody. A farm accounts for all the
  reward it received: what is undistributed, unclaimed, claimed and kept for the beneficiary always adds up to the deposits, which only deposits of reward tokens change.''',
  'every exported function that stores a farm or writes a reward, every farm state, clock value, stake and prior record',
  'A reward paid twice or lost at a boundary (the last session, an empty seed) needs a particular history to show.',
  [REW, FA + 'simple_farm.rs', FA + 'farmer.rs'], [('SimpleFarm::claim_user_reward / distribute', FA + 'simple_farm.rs')], 'get_farm and list_rewards')
P('F07', 'Rewards are settled at the old stake before a stake changes',
  '''Before the stake a farmer has in a seed changes, every farm of that seed is settled with the farmer at the stake held until then: the farmer is credited stake x (reward per seed now - reward
  per seed at the last settlement), and the mark of the last settlement becomes the reward per seed now. The reward per seed of a farm grows by the reward distributed divided by the seed total and is never
  reset by a claim; a farmer's mark is dropped only when the farm has left the seed or the stake is zero.''',
  'every seed, number of farms, stake, amount and history of claims, in staking, unstaking and claiming',
  'Claiming twice, or claiming with a stake that was just enlarged, pays out other farmers\' rewards; the tests follow a few fixed histories.',
  [REW, SEED, FA + 'simple_farm.rs'], [('internal_claim_user_reward_by_seed_id', REW), ('claim_user_reward / distribute', FA + 'simple_farm.rs')], 'get_unclaimed_reward and list_rewards')
P('F08', 'Farms move forward through their life and keep their terms',
  '''A farm starts Created, empty and listed by its seed under a number never used before; its state only goes from Created to Running to Ended, its terms never change (the start is set once, by the first
  reward), and reward is added only while it is Created or not all its reward has been distributed. It is taken out of the live farms only when it has ended or nothing is left to distribute, and is then kept among the
  outdated farms, which are never removed.''',
  'every exported function that writes a farm, every farm state, clock value, argument and history',
  'Tests follow a farm through one life; reuse of a number, or removal of a farm whose rewards are still unclaimed, needs a particular history.',
  [FA + 'actions_of_farm.rs', FA + 'simple_farm.rs', FA + 'owner.rs'], [('internal_add_farm / clean_farm_by_seed', FA + 'actions_of_farm.rs'), ('SimpleFarm::add_reward / distribute', FA + 'simple_farm.rs')],
  'get_farm, list_farms_by_seed and list_outdated_farms')
P('F09', 'NEAR left for storage in the farming contract is accounted for',
  '''All NEAR attached to storage_deposit is either kept for the account named or sent back to the caller. NEAR leaves only by being taken from the caller's own deposit and sent to the caller, in the same amount; what
  remains after a withdrawal covers the storage in use, and a farmer record is removed only with no stakes and no rewards.''',
  'every attached amount, account, prior record and argument, in every exported function of the farming contract that sends NEAR or changes a storage deposit',
  'Tests use the registration of fixed accounts with round amounts.',
  [FA + 'storage_impl.rs', FA + 'farmer.rs'], [('storage_deposit / storage_withdraw / storage_unregister', FA + 'storage_impl.rs')], 'storage_balance_of and the NEAR sent')
P('U02', 'Changed farmer, seed and farm records are written back and never stale',
  '''Whenever a state-changing function of the farming contract loads a farmer, a seed or a farm and changes it, the changed record is stored again under the key it was loaded with before the call (or the round of a loop)
  ends, and a record is never stored over a newer version of itself.''',
  'every argument and state, for all loads and stores of farmers, seeds and farms', 'A forgotten or stale write shows only on a rare branch or when two farms share a seed.',
  [SEED, REW, FA + 'actions_of_farm.rs', FA + 'owner.rs'], [('get_farmer / save, get_seed / farm_seeds.insert', FA + 'lib.rs')], 'the farming views after the call')

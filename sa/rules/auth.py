"""Who may do what: authority facts that must hold on every returning path of an entry point."""
from framework import Rule
from vocab import *  # noqa

OWNER_ONLY = '''extend_guardians remove_guardians modify_admin_fee modify_wnear_id remove_client_echo_sender_id_whitelist
remove_client_echo_token_id_whitelist remove_secure_sender_whitelist remove_pool_limit update_degen_pool_limit retrieve_unmanaged_token set_owner
unregister_degen_oracle_config unregister_degen_token unregister_rated_token update_degen_oracle_config update_degen_token upgrade'''.split()
OWNER_OR_GUARDIAN = '''add_degen_pool_limit add_degen_swap_pool add_rated_swap_pool add_stable_swap_pool change_state extend_auto_whitelisted_postfix
remove_auto_whitelisted_postfix extend_client_echo_sender_id_whitelist extend_client_echo_token_id_whitelist extend_secure_sender_whitelist
extend_frozenlist_tokens remove_frozenlist_tokens extend_whitelisted_tokens remove_whitelisted_tokens insert_referral update_referral remove_referral
modify_boost_farm_id modify_burrowland_id modify_cumulative_info_record_interval_sec modify_total_fee register_degen_oracle_config register_degen_token
register_rated_token register_pool_twap_record unregister_pool_twap_record remove_exchange_fee_liquidity withdraw_owner_token stable_swap_ramp_amp
stable_swap_stop_ramp_amp update_rated_token_extra_info'''.split()
FARM_OWNER = '''create_simple_farm force_clean_farm modify_seed_min_deposit pause_contract resume_contract set_owner upgrade'''.split()
PRIVATE = {
    'exchange': '''batch_update_degen_token_by_price_oracle_callback batch_update_degen_token_by_pyth_oracle_callback callback_on_burrow_liquidation
callback_on_shadow exchange_callback_post_withdraw exchange_callback_post_withdraw_near mft_resolve_transfer migrate update_degen_token_price_callback
update_token_rate_callback'''.split(),
    'farming': 'callback_post_withdraw_ft_seed callback_post_withdraw_mft_seed callback_post_withdraw_reward migrate'.split(),
}
# configuration fields of the contract and who may change them
FIELD_OWNER = {'owner_id', 'guardians', 'admin_fee_bps', 'wnear_id'}
FIELD_OG = {'boost_farm_id', 'burrowland_id', 'whitelisted_tokens', 'frozen_tokens', 'referrals', 'cumulative_info_record_interval_sec',
            'auto_whitelisted_postfix', 'state'}


class OwnerOnly(Rule):
    id = 'A01'
    crates = ('exchange',)
    rule = ('every returning path of each owner-only entry point has established predecessor == owner_id; so has every write to owner_id, guardians, '
            'admin_fee_bps, wnear_id anywhere, and every path on which the running state is set to Running')
    floors = {'entries': 17, 'field writes': 4, 'resume': 1}

    def required(self, crate):
        return OWNER_ONLY + ['change_state']

    def check(self, cx):
        own = any_of(owner('exchange'))
        if cx.name in OWNER_ONLY:
            cx.ob(entails(cx.I, cx.facts, own), 'owner', '%s returns only if the predecessor is the owner' % cx.name, count='entries')
        if cx.name in ('new', 'migrate'):
            return
        for e in cx.evs:
            f = field_of('exchange', e)
            if f in FIELD_OWNER and (self_write(e) or collection_write(e)):
                cx.ob(entails(cx.I, e.facts, own) or entails(cx.I, cx.facts, own), 'write:' + f,
                      'the write to %s happens only for the owner' % f, e, count='field writes')
            if f == 'state' and self_write(e):
                # the value written: Running only for the owner
                V = cx.I.assume_variant(e.facts, e.args[0], 'Running', True, 'RunningState')
                if V is None:
                    continue
                cx.ob(always(cx.I, e.facts | V, e.may, own) or always(cx.I, cx.facts | V, cx.alts, own), 'resume',
                      'the running state becomes Running only for the owner', e, count='resume')


class OwnerOrGuardian(Rule):
    id = 'A02'
    crates = ('exchange',)
    rule = ('every returning path of each owner-or-guardian entry point has established predecessor == owner_id or guardians.contains(predecessor); '
            'so has every write, anywhere, to the configuration fields')
    floors = {'entries': 31, 'field writes': 8}

    def required(self, crate):
        return OWNER_OR_GUARDIAN

    def check(self, cx):
        og = any_of(owner('exchange'), guardian())
        if cx.name in OWNER_OR_GUARDIAN:
            cx.ob(entails(cx.I, cx.facts, og), 'owner-or-guardian', '%s returns only if the predecessor is the owner or a guardian' % cx.name, count='entries')
        if cx.name in ('new', 'migrate'):
            return
        for e in cx.evs:
            f = field_of('exchange', e)
            if f in FIELD_OG and (self_write(e) or collection_write(e)):
                cx.ob(entails(cx.I, e.facts, og) or entails(cx.I, cx.facts, og), 'write:' + f,
                      'the write to %s happens only for the owner or a guardian' % f, e, count='field writes')


class Private(Rule):
    id = 'A03'
    crates = ('exchange', 'farming')
    rule = 'every returning path of each callback and of migrate has established predecessor == current account'
    floors = {'entries': 14}

    def required(self, crate):
        return PRIVATE[crate]

    def check(self, cx):
        if cx.name in PRIVATE[cx.crate]:
            cx.ob(entails(cx.I, cx.facts, any_of(PRIV)), 'private', '%s returns only if called by the contract itself' % cx.name, count='entries')


ONE_YOCTO = {
    'exchange': '''add_degen_pool_limit change_state claim_lostfound donation_share donation_token extend_auto_whitelisted_postfix
extend_client_echo_sender_id_whitelist extend_client_echo_token_id_whitelist extend_frozenlist_tokens extend_guardians extend_secure_sender_whitelist
extend_whitelisted_tokens insert_referral mft_transfer mft_transfer_all_call mft_transfer_call mft_unregister modify_admin_fee modify_boost_farm_id
modify_burrowland_id modify_cumulative_info_record_interval_sec modify_total_fee modify_wnear_id register_degen_oracle_config register_degen_token
register_pool_twap_record register_rated_token register_tokens remove_auto_whitelisted_postfix remove_client_echo_sender_id_whitelist
remove_client_echo_token_id_whitelist remove_exchange_fee_liquidity remove_frozenlist_tokens remove_guardians remove_liquidity remove_liquidity_by_tokens
remove_pool_limit remove_referral remove_secure_sender_whitelist remove_whitelisted_tokens retrieve_unmanaged_token set_owner stable_swap_ramp_amp
stable_swap_stop_ramp_amp storage_unregister storage_withdraw unregister_degen_oracle_config unregister_degen_token unregister_pool_twap_record
unregister_rated_token unregister_tokens update_degen_oracle_config update_degen_pool_limit update_degen_token update_rated_token_extra_info update_referral
withdraw withdraw_owner_token'''.split(),
    'farming': 'pause_contract resume_contract storage_unregister storage_withdraw withdraw_reward withdraw_seed'.split(),
}
AT_LEAST_ONE = {'exchange': ['add_liquidity', 'add_stable_liquidity'], 'farming': []}
ASSERT_ONE = mk('E', 'near_sdk::assert_one_yocto', ())


class OneYocto(Rule):
    id = 'A04'
    crates = ('exchange', 'farming')
    rule = ('every returning path of each listed entry point has established attached_deposit == 1 (or, for the two add-liquidity calls, > 0), directly or '
            'through assert_one_yocto')
    floors = {'entries': 65}

    def required(self, crate):
        return ONE_YOCTO[crate] + AT_LEAST_ONE[crate]

    def select(self, P, crate, name):
        return name in self.required(crate)

    def check(self, cx):
        if cx.name in ONE_YOCTO[cx.crate]:
            cx.ob(cx.always(any_of(YOCTO, ASSERT_ONE)), 'one-yocto', '%s returns only with exactly one yocto attached' % cx.name, count='entries')
        if cx.name in AT_LEAST_ONE[cx.crate]:
            cx.ob(cx.always(any_of(YOCTO, ASSERT_ONE, mk('T', mk('bin', 'Lt', C(0), DEPOSIT)), mk('F', eq(DEPOSIT, C(0))))), 'some-yocto',
                  '%s returns only with a non-zero deposit attached' % cx.name, count='entries')


PAUSED = '''add_liquidity add_simple_pool add_stable_liquidity claim_lostfound donation_share donation_token execute_actions execute_actions_in_va
ft_on_transfer mft_register mft_transfer mft_transfer_all_call mft_transfer_call mft_unregister register_tokens unregister_tokens
remove_exchange_fee_liquidity remove_liquidity remove_liquidity_by_tokens shadow_action storage_deposit storage_unregister storage_withdraw swap
swap_by_output withdraw withdraw_owner_token'''.split()
FARM_PAUSED = '''claim_reward_by_farm claim_reward_by_seed ft_on_transfer mft_on_transfer remove_user_rps_by_farm storage_deposit storage_unregister
storage_withdraw withdraw_reward withdraw_seed'''.split()


class Paused(Rule):
    id = 'A05'
    crates = ('exchange',)
    rule = 'every returning path of each user operation has established that the running state, as loaded, is Running'
    floors = {'entries': 27}

    def required(self, crate):
        return PAUSED

    def select(self, P, crate, name):
        return name in PAUSED

    def check(self, cx):
        cx.ob(cx.always(any_of(running(cx.crate))), 'running', '%s returns only while the contract is running' % cx.name, count='entries')


class FarmOwner(Rule):
    id = 'F01'
    crates = ('farming',)
    rule = ('every returning path of each owner entry point of the farming contract has established predecessor == owner_id; so has every write to '
            'owner_id and to the running state')
    floors = {'entries': 7, 'field writes': 2}

    def required(self, crate):
        return FARM_OWNER

    def check(self, cx):
        own = any_of(owner('farming'))
        if cx.name in FARM_OWNER:
            cx.ob(cx.always(own), 'owner', '%s returns only if the predecessor is the owner' % cx.name, count='entries')
        if cx.name in ('new', 'migrate'):
            return
        for e in cx.evs:
            f = field_of('farming', e)
            if f in ('owner_id', 'state') and self_write(e):
                cx.ob(cx.always(own, e=e), 'write:' + f, 'the write to %s happens only for the owner' % f, e, count='field writes')


class FarmPaused(Rule):
    id = 'F02'
    crates = ('farming',)
    rule = Paused.rule
    floors = {'entries': 10}

    def required(self, crate):
        return FARM_PAUSED

    def select(self, P, crate, name):
        return name in FARM_PAUSED

    def check(self, cx):
        cx.ob(cx.always(any_of(running(cx.crate))), 'running', '%s returns only while the contract is running' % cx.name, count='entries')


VIEWS = {
    'exchange': '''get_account_basic_info get_client_echo_sender_id_whitelist get_client_echo_token_id_whitelist get_deposit get_deposits
get_frozenlist_tokens get_guardians get_lostfound_token get_number_of_pools get_owner get_pool_fee get_pool_limit_by_pool_id get_pool_limit_paged
get_pool_shares get_pool_shares_batch get_pool_total_shares get_pool_twap_info_view get_pool_volumes get_pool_volumes_by_ids get_return_by_output
get_secure_sender_whitelist get_shadow_records get_stable_pool get_tokens_paged get_unit_share_token_amounts get_unit_share_twap_token_amounts
get_user_storage_state get_user_whitelisted_tokens get_whitelisted_tokens list_degen_oracle_configs list_lostfound_tokens list_pool_twap_info_view
list_pool_volumes list_rated_tokens list_referrals metadata mft_balance_of mft_has_registered mft_metadata mft_total_supply predict_add_simple_liquidity
predict_remove_liquidity storage_balance_bounds storage_balance_of token_register_of version batch_get_degen_tokens batch_predict_swap_actions batch_views
get_degen_pool get_degen_pool_tvl get_degen_return get_pool get_pool_by_ids get_pool_detail_info get_pool_detail_info_by_ids get_pool_detail_infos
get_pool_share_price get_pools get_rated_pool get_rated_return get_return get_unit_lpt_assets list_degen_tokens predict_add_degen_liquidity
predict_add_rated_liquidity predict_add_stable_liquidity predict_hot_zap predict_remove_degen_liquidity_by_tokens predict_remove_liquidity_by_tokens
predict_remove_rated_liquidity_by_tokens predict_swap_actions'''.split(),
    'farming': '''get_farm get_metadata get_number_of_farms get_number_of_outdated_farms get_outdated_farm get_reward get_seed_info get_unclaimed_reward
get_user_rps get_user_storage_state list_farms list_farms_by_seed list_outdated_farms list_rewards list_rewards_info list_seeds list_seeds_info
list_user_seeds storage_balance_bounds storage_balance_of'''.split(),
}


class ViewsPure(Rule):
    id = 'A07'
    crates = ('exchange', 'farming')
    rule = ('no path from a query or prediction entry point reaches a storage write, a persistent-collection mutator, a state write or a promise')
    floors = {'entries': 92}

    def required(self, crate):
        return VIEWS[crate]

    def select(self, P, crate, name):
        return name in VIEWS[crate]

    def check(self, cx):
        bad = [e for e in cx.evs if (collection_write(e) or storage_write(e) or promise(e) or state_write(e))]
        cx.ob(not bad, 'pure:' + (bad[0].name if bad else ''), '%s writes no storage and creates no promise' % cx.name, bad[0] if bad else None, count='entries')

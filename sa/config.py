"""Interpreter configuration shared by all rules."""
import books
import farmbooks
from ledger import may_be
from vocab import *  # noqa

_AUTH = {}
LOCKS = ('ToFarming', 'ToBurrowland', 'FromFarming', 'FromBurrowland')


def shadow(f, I=None):
    """about locked shares"""
    t = f.a[0]
    if f.op in ('V', 'NV'):
        if f.a[1] not in ('Some', 'None'):
            return False
        ts = may_be(I, t) if t.op == 'phi' and I is not None else (t,)
        return any(x.op == 'proj' and x.a[1] == 'shadow_records' for y in ts for x in subterms(y))
    return t.op == 'bin' and t.a[0] in ('Le', 'Lt') and any(x.op == 'proj' and x.a[1] in ('shadow_in_farm', 'shadow_in_burrow') for x in subterms(t))


def amount_zero(t):
    """about the amount received being zero"""
    return t.op == 'bin' and t.a[0] in ('Lt', 'Eq', 'Le') and any(is_c(x) and cval(x) == 0 for x in t.a[1:]) and \
        any(x.op == 'proj' and x.a[1] == 'amount' and x.a[0].op == 'proj' and x.a[0].a[0].op == 'as' for x in t.a[1:])


def claimed_zero(t):
    """about a computed reward being zero"""
    return t.op == 'bin' and t.a[0] in ('Lt', 'Eq', 'Le') and any(is_c(x) and cval(x) == 0 for x in t.a[1:]) and \
        any(x.op == 'call' and x.a[0].endswith('as_u128') for x in t.a[1:])


def storage_cover(f, I):
    """about a farmer's storage being paid for"""
    t = f.a[0]
    return f.op in ('T', 'F') and t.op == 'bin' and t.a[0] in ('Lt', 'Le') and I is not None and any(
        z.op == 'call' and z.a[0] == 'env::storage_byte_cost' for x in t.a[1:] for y, g in resolve(I, frozenset(), x, 12) for z in subterms(y))


def farm_over(f, I):
    """about a farm having nothing left to distribute"""
    t = f.a[0]
    if f.op in ('T', 'F') and t.op == 'bin':
        return any(is_c(x) and cval(x) == 0 for x in t.a[1:]) and any(x.op == 'proj' and x.a[1] == 'undistributed' for x in t.a[1:]) or \
            t.a[0] in ('Lt', 'Le') and any(x.op == 'call' and x.a[0] == 'env::block_timestamp' for x in t.a[1:])
    return f.op in ('V', 'NV') and f.a[1] in ('Some', 'None') and I is not None and t.op == 'phi' and any(
        y.op == 'ctor' and y.a[2] and any(x.op == 'proj' and x.a[1] in ('last_distribution', 'undistributed') for x in subterms(y.a[2][0])) for y in may_be(I, t))


def maxin(f):
    """about the most a user is willing to pay"""
    t = f.a[0]
    if f.op in ('V', 'NV'):
        return f.op == 'V' and f.a[1] == 'None' and any(x.op == 'proj' and x.a[1] == 'max_amount_in' for x in subterms(t))
    return f.op in ('T', 'F') and t.op == 'bin' and t.a[0] in ('Le', 'Lt') and any(x.op == 'proj' and x.a[1] == 'max_amount_in' for x in subterms(t))


PAID = {'storage_deposit', 'storage_withdraw', 'add_simple_pool', 'add_stable_swap_pool', 'add_rated_swap_pool', 'add_degen_swap_pool', 'add_liquidity', 'add_stable_liquidity',
        'mft_register', 'mft_unregister', 'shadow_action', 'callback_on_shadow', 'on_burrow_liquidation', 'donation_share', 'ft_on_transfer'}


def storage_test(t):
    """about storage used, or about what is left of the NEAR attached"""
    return t.op == 'bin' and any(x.op == 'call' and x.a[0] == 'env::storage_usage' or x is DEPOSIT for y in t.a[1:] for x in subterms(y))


def make(P, crate, name):
    if crate not in _AUTH:
        _AUTH[crate] = {owner(crate), guardian(crate), PRIV}
    auth = _AUTH[crate]

    out = name in ('swap', 'swap_by_output', 'execute_actions', 'execute_actions_in_va', 'ft_on_transfer')

    def track(f, I=None):
        if f.op in ('T', 'F'):
            return name in PAID and storage_test(f.a[0]) or mk('T', f.a[0]) in auth or f.a[0].op == 'call' and f.a[0].a[0].endswith('is_promise_success') or shadow(f, I) or name == 'ft_on_transfer' and amount_zero(f.a[0])
        if out and maxin(f):
            return True
        if f.op in ('V', 'NV'):
            return f.a[1] in ('Running', 'Paused', 'Failed', 'Successful') or shadow(f, I) or f.a[1] in LOCKS
        return False
    from auth import VIEWS
    cfg = {'track': track}
    if name == 'stable_swap_ramp_amp':
        cfg['track'] = lambda f, I=None: track(f, I) or f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt') and sum(
            any(x.op == 'proj' and x.a[1] == 'future_amp_factor' for x in subterms(t)) for t in f.a[0].a[1:]) == 1
    if name == 'ft_on_transfer':
        cfg['split'] = lambda f: f.op != 'V' and amount_zero(f.a[0])
    elif name in ('shadow_action', 'callback_on_shadow'):
        import shadow as sh
        cfg['split'] = lambda f: f.op == 'V' and f.a[1] in LOCKS
        cfg['note'] = sh.notes
    elif name == 'on_burrow_liquidation':
        import shadow as sh
        cfg['note'] = sh.notes
        tr = cfg['track']
        cfg['track'] = lambda f, I=None: tr(f, I) or f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Lt', 'Eq') and any(
            is_c(x) and cval(x) == 0 for x in f.a[0].a[1:]) and any(x.op in ('phi', 'bin') for x in f.a[0].a[1:])
    if name not in VIEWS[crate] and crate == 'exchange':
        cfg.update(hook_call=books.exchange_call, hook_write=books.exchange_write, derive=books.twap_derive)
    if name not in VIEWS[crate] and crate == 'farming':
        tr0 = cfg['track']
        cfg['track'] = lambda f, I=None: tr0(f, I) or f.op in ('T', 'F') and (claimed_zero(f.a[0]) or amount_zero(f.a[0])) or name == 'ft_on_transfer' and farm_over(f, I) or \
            name == 'storage_deposit' and f.op in ('T', 'F') and f.a[0].op == 'bin' and any(is_c(x) and cval(x) == 0 for x in f.a[0].a[1:]) and any(
                y is DEPOSIT for x in f.a[0].a[1:] for y in subterms(x)) or name in ('ft_on_transfer', 'mft_on_transfer', 'claim_reward_by_farm', 'claim_reward_by_seed') and storage_cover(f, I)
        cfg.update(hook_call=farmbooks.farm_call, hook_write=farmbooks.farm_write)
    return cfg

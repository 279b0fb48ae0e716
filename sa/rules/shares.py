"""Pool shares: conservation, who may spend them, what may not be spent."""
from framework import Rule
from base import *  # noqa


def pools_map(I, t):
    return any(m is books.POOLS_ for m in books.leaves(I, t))


def pools_store(cx):
    return [e for e in cx.calls('Vector::replace', 'Vector::push') if pools_map(cx.I, e.args[0])]


class ShareSupply(Rule):
    id = 'S01'
    rule = ('double-entry typestate over every path: each write to a pool\'s share map is the previous entry plus or minus an amount, and wherever a pool is stored '
            '(and at every return) the amounts booked in its share map since it was loaded equal those booked in shares_total_supply; new pools start at zero')
    floors = {'share writes': 60, 'pool stores': 20, 'new pools': 4, 'supply writes': 15}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['add_liquidity', 'add_stable_liquidity', 'remove_liquidity', 'remove_liquidity_by_tokens', 'swap', 'mft_transfer', 'mft_transfer_call', 'ft_on_transfer']

    def check(self, cx):
        I = cx.I
        bad = {}
        for e, what in I.__dict__.get('book_errors', {}).values():
            if what in ('share-write', 'unbalanced', 'share-replaced'):
                bad[id(e)] = (e, what)
        for e in share_events(I):
            cx.ob(id(e) not in bad, 'share-write', 'what is written to the share map is the entry read before plus or minus an amount', e, count='share writes')
        for e, what in bad.values():
            if what == 'unbalanced':
                cx.viol('unbalanced', 'a pool copy with unbooked share movements ends here', e)
            elif what == 'share-replaced':
                cx.viol('share-replaced', 'the share map of a pool is replaced as a whole', e)
        cx.count('supply writes', len(I.__dict__.get('supply_writes', {})))
        for e in pools_store(cx):
            i = 2 if e.name.endswith('replace') else 1
            base = e.locs[i][0] if len(e.locs) > i and e.locs[i] else None
            op = set()
            for a in e.may:
                if contradicts(e.facts, a):
                    continue
                op |= {f for f in a if f.op == 'pend' and f.a[0][0] == 'shares' and (base is None or f.a[0][1] == base)}
            cx.ob(not op, 'stored', 'at the store of the pool the share map and shares_total_supply have moved by the same amounts' +
                  (' (off by %s)' % '; '.join(sorted(pend_name(f) for f in op))[:300] if op else ''), e, count='pool stores')
            if e.name.endswith('push'):
                for v in pool_values(I, e.args[1]):
                    cx.ob(v[1] is not None and ledger.zero_const(v[1]), 'new-pool', 'a new pool starts with shares_total_supply 0', e, count='new pools')
        left = set()
        for a in cx.alts:
            left |= {f for f in a if f.op == 'pend' and f.a[0][0] == 'shares'}
        for d in I.dropped.values():
            left |= {f for f in d if f.op == 'pend' and f.a[0][0] == 'shares'}
        cx.ob(not left, 'open', 'no share movement stays booked on one side only' + (' (%s)' % '; '.join(sorted(pend_name(f) for f in left))[:300] if left else ''),
              next((I.pend_sites.get(f) for f in left if I.pend_sites.get(f) is not None), None), count='entries')


def pool_values(I, t):
    """(variant, initial shares_total_supply) of what is pushed"""
    out = []
    for k in ('SimplePool', 'StableSwapPool', 'RatedSwapPool', 'DegenSwapPool'):
        for l in books.leaves(I, t, (k, 0, 'shares_total_supply')):
            if l.op == 'ctor':
                continue
            out.append((k, l))
    return out


def debit_allowed(cx, e, facts):
    I = cx.I
    key = e.args[1]
    why = []
    for k in leafset(I, key):
        if k is PRED or same_person(facts, k, PRED):
            why.append('the caller\'s own')
        elif k is CURRENT and entails(I, facts, any_of(owner('exchange'), guardian())):
            why.append('the exchange\'s own, for the owner or a guardian')
        elif is_arg(k, 'receiver_id') and entails(I, facts, any_of(PRIV)):
            why.append('the receiver\'s, when a transfer call resolves')
        elif entails(I, facts, any_of(mk('T', eq(PRED, mk('proj', SELF, 'burrowland_id'))))):
            why.append('the liquidated account\'s, for burrowland')
        else:
            return None
    return why


class ShareDebits(Rule):
    id = 'S02'
    rule = ('every write that lowers an entry of a pool\'s share map is to the entry of the predecessor, or of the exchange itself under owner/guardian, or of the transfer '
            'receiver inside the private resolve callback, or happens only when the predecessor is burrowland')
    floors = {'share debits': 25}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['remove_liquidity', 'remove_liquidity_by_tokens', 'mft_transfer', 'mft_transfer_call']

    def check(self, cx):
        for e in share_events(cx.I):
            if not debit(e):
                continue
            cx.ob(debit_allowed(cx, e, e.facts) or debit_allowed(cx, e, e.facts | cx.facts), 'debit',
                  'shares of %s go down only by that account or on its behalf' % show(e.args[1], 4)[:80], e, count='share debits')


class ShareCredits(Rule):
    id = 'S03'
    rule = ('every write that raises an entry of a pool\'s share map is to the predecessor, the sender named by the token contract in ft_on_transfer, the receiver named in a '
            'transfer, the sender or the exchange in the private resolve callback, the exchange itself, or a referral for which referrals.get returned a value')
    floors = {'share credits': 30, 'referral credits': 5}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['add_liquidity', 'add_stable_liquidity', 'swap', 'mft_transfer']

    def check(self, cx):
        I = cx.I
        minted = set()
        for k, (o, vs) in I.__dict__.get('pool_calls', {}).items():
            if I.pool_val.get(k) is not None and 'add' in o.name.rsplit('::', 1)[-1]:
                minted |= set(may_be(I, I.pool_after[k][2]))
        for e in share_events(I):
            if not credit(e):
                continue
            if minted and leafset(I, e.args[1]) != {CURRENT} and not any(registered_referral(e.facts, k) for k in leafset(I, e.args[1])):
                fs = [{k: n for k, n in f.items() if n} for f in forms(e)]
                cx.ob(all(len(f) == 1 and set(f.values()) == {1} and set(f) <= minted for f in fs), 'minted', 'the supplier is credited the shares the operation says it minted, fee shares to the exchange or a referral', e)
            ok = True
            for k in leafset(I, e.args[1]):
                facts = e.facts | cx.facts
                if k is PRED or k is CURRENT:
                    continue
                if is_arg(k, 'sender_id') and (cx.name == 'ft_on_transfer' or entails(I, facts, any_of(PRIV))):
                    continue
                if is_arg(k, 'receiver_id') and cx.name.startswith('mft_transfer'):
                    continue
                if registered_referral(e.facts, k):
                    cx.count('referral credits')
                    continue
                ok = False
            cx.ob(ok, 'credit', 'shares are credited to the liquidity supplier, a named receiver, the exchange or a registered referral (here %s)' % show(e.args[1], 4)[:80],
                  e, count='share credits')


def registered_referral(facts, k):
    for f in facts:
        if f.op == 'V' and f.a[1] == 'Some' and f.a[0].op == 'call' and f.a[0].a[0].endswith('::get') and strip(f.a[0].a[1][1]) is strip(k):
            m = f.a[0].a[1][0]
            if m is mk('proj', SELF, 'referrals') or any(x is mk('proj', SELF, 'referrals') for x in subterms(m)):
                return True
    return False


# ---------------------------------------------------------------- locked shares
def shadow_records(I, t, key):
    """t is the shadow record map of the account `key`"""
    for l in books.leaves(I, t):
        if l.op == 'call' and l.a[0] == 'LookupMap::get' and strip(l.a[1][1]) is strip(key) and any(m is books.ACCOUNTS_ for m in books.leaves(I, l.a[1][0])):
            return True
    return False


def record_of(I, t, key):
    """t is a field of a shadow record of `key`: its name"""
    if t.op == 'proj' and t.a[1] in ('shadow_in_farm', 'shadow_in_burrow'):
        for l in books.leaves(I, t.a[0]):
            g = payload_call(l) or l
            if g.op == 'call' and g.a[0].endswith('::get') and shadow_records(I, g.a[1][0], key):
                return t.a[1]
    return None


def total_of(I, t, key):
    """t is the share balance of `key` (or zero)"""
    some = False
    for x in leafset(I, t):
        if ledger.zero_const(x):
            continue
        if x.op == 'call' and x.a[0] == 'Option::unwrap_or' and ledger.zero_const(x.a[1][1]):
            x = x.a[1][0]
        c = payload_call(x) or x
        if c.op == 'call' and c.a[0] == 'LookupMap::get' and strip(c.a[1][1]) is strip(key):
            some = True
            continue
        return False
    return some


def none_locked(I, facts, key):
    """there is no shadow record of `key` for this pool (or no account)"""
    for f in facts:
        if f.op == 'V' and f.a[1] == 'None' or f.op == 'NV' and f.a[1] == 'Some':
            g = f.a[0].a[0] if f.a[0].op == 'optmap' else f.a[0]
            if g.op != 'call' or not g.a[0].endswith('::get'):
                continue
            if g.a[0] == 'LookupMap::get' and strip(g.a[1][1]) is strip(key) and any(m is books.ACCOUNTS_ for m in books.leaves(I, g.a[1][0])):
                return True
            if shadow_records(I, g.a[1][0], key):
                return True
    return False


def locked_bound(I, facts, key, xs):
    """the facts say  x <= total - locked  for both kinds of lock"""
    got = set()
    for x in xs:
        got |= value_bound(I, facts, x, key)
    for f in facts:
        if f.op != 'T' or f.a[0].op != 'bin' or f.a[0].a[0] not in ('Le', 'Lt'):
            continue
        a, b = f.a[0].a[1], f.a[0].a[2]
        d = sub_lin(lin(b), lin(a))
        neg = [t for t, n in d.items() if n == -1]
        pos = [t for t, n in d.items() if n == 1]
        if len(neg) + len(pos) != len(d) or len(pos) != 1 or len(neg) != 2:
            continue
        if not total_of(I, pos[0], key):
            continue
        for x, l in (neg, neg[::-1]):
            if any(phi_eq(I, facts, x, y) for y in xs):
                ls = [l]
                if l.op == 'call' and l.a[0].rsplit('::', 1)[-1] == 'max':
                    ls = list(l.a[1])
                got |= {record_of(I, y, key) for y in ls}
    return {'shadow_in_farm', 'shadow_in_burrow'} <= got


def value_bound(I, facts, x, key, depth=0):
    """x itself is the balance less what is locked"""
    if x.op == 'phi' and depth < 4:
        info = I.phi_info.get(x)
        out = {'shadow_in_farm', 'shadow_in_burrow'} if info else set()
        for (o, pf, b) in (info or {}).values():
            if none_locked(I, pf, key):
                continue
            out &= value_bound(I, facts | pf, o, key, depth + 1) if not b else set()
        return out
    d = lin(x)
    neg = [t for t, n in d.items() if n == -1]
    pos = [t for t, n in d.items() if n == 1]
    if len(neg) == len(pos) == 1 and len(d) == 2 and total_of(I, pos[0], key):
        l = neg[0]
        ls = list(l.a[1]) if l.op == 'call' and l.a[0].rsplit('::', 1)[-1] == 'max' else [l]
        return {record_of(I, y, key) for y in ls} - {None}
    return set()


class LockedShares(Rule):
    id = 'S04'
    rule = ('every write that lowers the predecessor\'s entry of a share map by x (and the receiver\'s when a transfer call resolves) lies on paths that have established '
            'x <= share balance - max(shadow_in_farm, shadow_in_burrow), or that the account has no shadow record for the pool')
    floors = {'guarded debits': 20}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['remove_liquidity', 'remove_liquidity_by_tokens', 'mft_transfer', 'mft_transfer_call', 'donation_share']

    def check(self, cx):
        I = cx.I
        for e in share_events(I):
            if not debit(e) or e.name.endswith('::remove'):
                continue      # an entry taken out whole is either empty or off the books (S01)
            key = e.args[1]
            ks = leafset(I, key)
            if ks == {CURRENT}:
                continue
            if entails(I, e.facts, any_of(mk('T', eq(PRED, mk('proj', SELF, 'burrowland_id'))))):
                continue
            xs = [t for d in e.extra for t in d]

            def pred(facts):
                if none_locked(I, facts, key) or locked_bound(I, facts, key, xs):
                    return True
                return all(ledger.zero(facts, x) for x in xs)
            ok = always(I, e.facts, e.may, pred) or always(I, e.facts | cx.facts, cx.alts, pred)
            cx.ob(ok, 'locked', 'shares leave the account of %s only as far as they are not locked by shadow records' % show(key, 4)[:80], e, count='guarded debits')

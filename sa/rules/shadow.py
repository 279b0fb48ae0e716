"""Shares locked for farming and for Burrowland."""
from framework import Rule
from base import *  # noqa
import shares
from shares import record_of, shadow_records, total_of, none_locked

KINDS = {'ToFarming': ('shadow_in_farm', 1), 'ToBurrowland': ('shadow_in_burrow', 1), 'FromFarming': ('shadow_in_farm', -1), 'FromBurrowland': ('shadow_in_burrow', -1)}
FIELDS = ('shadow_in_farm', 'shadow_in_burrow')
PARTNER = {'shadow_in_farm': 'boost_farm_id', 'shadow_in_burrow': 'burrowland_id'}


def is_record_map(I, e):
    if not e.locs or e.locs[0] is None or not e.args:
        return False
    return books.last(e.locs[0]) == 'shadow_records' or any(l.op == 'proj' and l.a[1] == 'shadow_records' for l in books.leaves(I, e.args[0]))


def record_writes(cx):
    return [e for e in cx.evs if collection_write(e) and e.name.startswith(('UnorderedMap::', 'LookupMap::')) and is_record_map(cx.I, e)]


def notes(I, e, st, val):
    """what a path did to lock records, and what it told the partner contract"""
    if collection_write(e) and is_record_map(I, e):
        return [mk('note', 'record'), mk('note', 'on', e.args[0])]
    if e.name == 'Promise::then' and len(e.args) == 2 and partner_call(e.args[0]):
        return [mk('note', 'told', e.args[0], e.args[1])]
    return []


def partner_call(t):
    return t.op == 'call' and t.a[0].startswith('ext_shadow_receiver::') or ext_method(t) in ('on_cast_shadow', 'on_remove_shadow')


def ext_method(t):
    """name of the method a promise term calls"""
    if t.op == 'call' and t.a[0] == 'Promise::function_call':
        m = t.a[1][1]
        for x in subterms(m):
            if is_c(x) and isinstance(cval(x), (str, bytes)):
                s = cval(x)
                return s.decode() if isinstance(s, bytes) else s.strip('"')
    if t.op == 'call' and t.a[0].startswith('ext_'):
        return t.a[0].rsplit('::', 1)[-1]
    return None


def fn_call(t):
    """(account, method, {field: value}) of a promise made by a generated ext_ function of this crate"""
    if t.op != 'call' or t.a[0] != 'Promise::function_call':
        return None
    p = t.a[1][0]
    acct = p.a[1][0] if p.op == 'call' and p.a[0] == 'Promise::new' else None
    for x in subterms(t.a[1][2]):
        if x.op == 'ctor' and x.a[0].endswith('Input') and x.a[1]:
            return acct, ext_method(t), dict(zip(x.a[1], x.a[2]))
    return acct, ext_method(t), {}


def variants(fs):
    return {f.a[1] for f in fs if f.op == 'V' and f.a[1] in KINDS and is_arg(f.a[0], 'action')}


def zero_facts(fs):
    """terms that are zero"""
    for f in fs:
        if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq':
            for i in (1, 2):
                if is_c(f.a[0].a[i]) and cval(f.a[0].a[i]) == 0:
                    yield f.a[0].a[3 - i]


def rec_atom(I, form, fld, key, fs):
    """form minus the recorded amount it starts from, or None"""
    for t, n in form.items():
        if n == 1 and (record_field(I, t, key) == fld or empty_field(I, t) == fld and none_locked(I, fs, key)):
            return {k: v for k, v in form.items() if k is not t}
    return None


def record_field(I, t, key):
    """t is a field of the account's record for the pool, or of the empty record when there is none"""
    if t.op != 'proj' or t.a[1] not in FIELDS:
        return None
    some = False
    for l in books.leaves(I, t.a[0]):
        g = payload_call(l) or l
        if g.op == 'call' and g.a[0].endswith('::get') and shadow_records(I, g.a[1][0], key):
            some = True
        elif not (g.op == 'call' and 'efault' in g.a[0]):
            return None
    return t.a[1] if some else None


def empty_field(I, t):
    """a field of a record made afresh"""
    if t.op == 'proj' and t.a[1] in FIELDS and all(l.op == 'call' and 'efault' in l.a[0] for l in books.leaves(I, t.a[0])):
        return t.a[1]
    return None


def changes(I, e, fs, key):
    """per field: the forms the record is changed by at this write on the paths with facts fs; None when not recognised"""
    out = {}
    if e.name.endswith('::insert'):
        for fld in FIELDS:
            new = I.project(e.args[2], ('Current', 0, fld))
            vs = shallow(I, fs, new)
            if not vs:
                return INFEASIBLE
            ds = [rec_atom(I, lin(v), fld, key, f) for v, f in vs]
            if any(d is None for d in ds):
                return None
            out[fld] = ds
        return out
    if e.name.endswith('::remove'):
        for fld in FIELDS:
            ds = []
            for z in zero_facts(fs):
                vs = shallow(I, fs, z)
                if not vs:
                    return INFEASIBLE
                for v, f in vs:
                    d = rec_atom(I, lin(v), fld, key, f)
                    if d is not None:
                        ds.append(d)
            if not ds:
                return None
            out[fld] = ds
        return out
    return None


INFEASIBLE = {'infeasible': True}       # every way this value can come about contradicts the facts: no such path


def shallow(I, fs, t):
    """resolve joins at the top only"""
    return resolve(I, fs, t, deep=False)


def is_pm(I, fs, d, x, sign):
    """form d is sign * x"""
    return len(d) == 1 and all(n == sign and (phi_eq(I, fs, t, x) or t is x) for t, n in d.items()) or \
        d == {k: sign * n for k, n in lin(x).items()} and bool(d)


def feasible(e_facts, may):
    out = [e_facts | a for a in may if not contradicts(e_facts, a) and not contradicts(a, a)]
    return out or [e_facts]


def available(I, fs, y, key, fld):
    """every value y can have here is the account's shares in the pool less what is already recorded as fld"""
    for v, f in resolve(I, fs, y):
        d = {t: n for t, n in lin(v).items() if not ledger.zero_const(t)}
        pos = [t for t, n in d.items() if n == 1]
        neg = [t for t, n in d.items() if n == -1]
        if len(pos) + len(neg) != len(d) or len(pos) > 1 or pos and not total_of(I, pos[0], key):
            return False
        if len(neg) == 1 and record_field(I, neg[0], key) == fld:
            continue
        if none_locked(I, f, key) and (not neg or len(neg) == 1 and empty_field(I, neg[0])):
            continue
        return False
    return True


def recorded(I, fs, y, key, fld):
    """every value y can have here is what is recorded as fld (nothing when there is no record)"""
    for v, f in resolve(I, fs, y):
        if (ledger.zero_const(v) or empty_field(I, v)) and none_locked(I, f, key):
            continue
        d = lin(v)
        if len(d) == 1 and all(n == 1 and record_field(I, t, key) == fld for t, n in d.items()):
            continue
        return False
    return True


def positive(fs, x):
    for f in fs:
        if f.op in ('T', 'F') and f.a[0].op == 'bin':
            o, a, b = f.a[0].a
            if f.op == 'T' and o == 'Lt' and b is x or f.op == 'F' and o == 'Eq' and (a is x and ledger.zero_const(b) or b is x and ledger.zero_const(a)) or \
                    f.op == 'F' and o == 'Le' and a is x and ledger.zero_const(b) or f.op == 'T' and o == 'Le' and b is x and is_c(a) and cval(a) >= 1:
                return True
    return False


def uppers(fs, x):
    """terms x is known not to exceed"""
    for f in fs:
        if f.op in ('T', 'F') and f.a[0].op == 'bin':
            o, a, b = f.a[0].a
            if f.op == 'T' and o in ('Le', 'Lt') and a is x:
                yield b
            elif f.op == 'F' and o == 'Lt' and b is x:
                yield a


class ShadowLocks(Rule):
    id = 'H01'
    rule = ('path facts and value numbering per requested action: records change only in shadow_action (To*: up by the amount for the caller), its callback (From* after success, To* undone '
            'after failure, by the same amount) and the liquidation; the amount is positive and at most the shares not yet locked (To*) or the amount recorded (From*); the '
            'partner contract of that kind is told the same account, pool and amount, with the callback for the same action, account, pool and amount attached')
    floors = {'record writes': 5, 'requests': 2, 'bounds': 4, 'callback outcomes': 4}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['shadow_action', 'callback_on_shadow']

    def check(self, cx):
        I = cx.I
        ws = record_writes(cx)
        if cx.name == 'on_burrow_liquidation':
            return
        if cx.name == 'shadow_action':
            self.request(cx, ws)
        elif cx.name == 'callback_on_shadow':
            self.callback(cx, ws)
        else:
            for e in ws:
                l = e.locs[0] if e.locs else None
                if legacy_copy(I, e):
                    continue
                cx.ob(False, 'record', 'lock records are changed only by shadow actions, their callback and the liquidation', e, count='record writes')

    def request(self, cx, ws):
        I = cx.I
        for e in ws:
            for fs in feasible(e.facts, e.may):
                vs = variants(fs)
                ok = False
                if len(vs) == 1:
                    fld, sign = KINDS[list(vs)[0]]
                    ch = changes(I, e, fs, PRED)
                    if ch is INFEASIBLE:
                        continue
                    if ch is not None and sign == 1:
                        ok = all(any(not d for d in ch[o]) and (e.name.endswith('remove') or all(not d for d in ch[o])) for o in FIELDS if o != fld) and \
                            (len(ch[fld]) >= 1 and all(len(d) == 1 or d for d in ch[fld]))
                elif len(vs) > 1:
                    continue     # no such path
                cx.ob(ok, 'record:' + '/'.join(sorted(vs)), 'a lock request raises only the record of its own kind of the caller', e, count='record writes')
        told = {}
        for fs in feasible(cx.facts, cx.alts):
            vs = variants(fs)
            if len(vs) != 1:
                continue
            v = list(vs)[0]
            fld, sign = KINDS[v]
            ns = [f for f in fs if f.op == 'note']
            tl = [f for f in ns if f.a[0] == 'told']
            if not cx.ob(len(tl) == 1, 'told:' + v, 'the partner contract is called once', count='requests'):
                continue
            a, cb = tl[0].a[1], tl[0].a[2]
            want = 'on_cast_shadow' if sign == 1 else 'on_remove_shadow'
            cx.ob(ext_method(a) == want, 'method:' + v, '%s calls %s' % (v, want), count='requests')
            if a.a[0] == 'Promise::function_call':
                acct, meth, inp = fn_call(a)
                who, sid, amt = inp.get('account_id'), inp.get('shadow_id'), inp.get('amount')
            else:
                who, sid, amt, acct = a.a[1][0], a.a[1][1], a.a[1][2], a.a[1][4]
            x = amount_of(I, amt)
            told.setdefault(v, []).append((x, fs))
            cx.ob(who is not None and strip(who) is PRED, 'who:' + v, 'the partner is told the caller\'s account', count='requests')
            cx.ob(any(is_arg(t, 'pool_id') for t in subterms(sid)), 'pool:' + v, 'the partner is told the pool', count='requests')
            cx.ob(acct is not None and all(strip(y) is mk('proj', SELF, PARTNER[fld]) for y, _ in resolve(I, fs, strip(acct))), 'partner:' + v,
                  'requests of this kind go to %s' % PARTNER[fld], count='requests')
            cx.ob(positive(fs, x), 'positive:' + v, 'the amount is greater than zero', count='bounds')
            test = available if sign == 1 else recorded
            cx.ob(any(test(I, fs, y, PRED, fld) for y in uppers(fs, x)), 'bound:' + v,
                  'the amount is at most %s' % ('the shares not yet locked this way' if sign == 1 else 'what is recorded'), count='bounds')
            # the record was changed, by this amount
            rec = any(f.a[0] == 'record' for f in ns)
            cx.ob(rec == (sign == 1), 'changed:' + v, 'the record is %s' % ('raised before the partner is told' if sign == 1 else 'kept until the partner agreed'), count='requests')
            if sign == 1:
                for e in ws:
                    for g in feasible(e.facts, e.may):
                        if variants(g) == {v}:
                            ch = changes(I, e, g, PRED) or {}
                            if ch is INFEASIBLE:
                                continue
                            cx.ob(any(is_pm(I, g, d, x, 1) for d in ch.get(fld, [])), 'same:' + v, 'what is recorded is what the partner is told', e, count='record writes')
            fc = fn_call(cb)
            ok = fc is not None and fc[1] == 'callback_on_shadow' and fc[0] is not None and strip(fc[0]) is CURRENT
            if ok:
                i = fc[2]
                ok = is_arg(i.get('action', SELF), 'action') and strip(i.get('sender_id', SELF)) is PRED and is_arg(i.get('pool_id', SELF), 'pool_id') and amount_of(I, i.get('amount', SELF)) is x
            cx.ob(ok, 'callback:' + v, 'the callback is given the same action, account, pool and amount', count='requests')
        for v in KINDS:
            cx.ob(v in told, 'missing:' + v, '%s has a path' % v, count='requests')

    def callback(self, cx, ws):
        I = cx.I
        for e in ws:
            key = None
            for fs in feasible(e.facts, e.may):
                vs = variants(fs)
                won, lost = outcome(fs)
                ok = False
                if len(vs) == 1:
                    fld, sign = KINDS[list(vs)[0]]
                    ok = lost if sign == 1 else won
                    ch = changes(I, e, fs, sender_key(I, e))
                    if ch is INFEASIBLE:
                        continue
                    ok = ok and sender_key(I, e) is not None and ch is not None
                    if ok:
                        for o in FIELDS:
                            if o == fld:
                                good = [d for d in ch[o] if len(d) == 1 and all(n == -1 and is_arg(t, 'amount') for t, n in d.items())]
                                ok = ok and (len(good) == len(ch[o]) if e.name.endswith('insert') else bool(good))
                            else:
                                ok = ok and (all(not d for d in ch[o]) if e.name.endswith('insert') else any(not d for d in ch[o]))
                elif len(vs) > 1:
                    continue
                cx.ob(ok, 'undo:' + '/'.join(sorted(vs)), 'the record goes down by the amount after a confirmed release or a failed lock, and otherwise stays', e, count='record writes')
        for fs in feasible(cx.facts, cx.alts):
            vs = variants(fs)
            won, lost = outcome(fs)
            if len(vs) != 1 or not (won or lost):
                continue
            fld, sign = KINDS[list(vs)[0]]
            rec = any(f.op == 'note' and f.a[0] == 'record' for f in fs)
            want = lost if sign == 1 else won
            cx.ob(rec == want, 'outcome:%s:%s' % (list(vs)[0], 'ok' if won else 'failed'), 'the record is lowered exactly when a release succeeded or a lock failed', count='callback outcomes')


def sender_key(I, e):
    for l in books.leaves(I, e.args[0]):
        if l.op == 'call' and l.a[0] == 'LookupMap::get' and is_arg(l.a[1][1], 'sender_id'):
            return l.a[1][1]
    for l in books.leaves(I, e.args[0].a[0] if e.args[0].op == 'proj' else e.args[0]):
        if l.op == 'call' and l.a[0] == 'LookupMap::get' and is_arg(l.a[1][1], 'sender_id'):
            return l.a[1][1]
    return None


def success(t):
    return t.op == 'call' and t.a[0].rsplit('::', 1)[-1] == 'is_promise_success'


def outcome(fs):
    won = any(f.op == 'T' and success(f.a[0]) or f.op == 'V' and f.a[1] == 'Successful' or f.op == 'NV' and f.a[1] == 'Failed' for f in fs)
    lost = any(f.op == 'F' and success(f.a[0]) or f.op == 'V' and f.a[1] == 'Failed' or f.op == 'NV' and f.a[1] == 'Successful' for f in fs)
    return won and not lost, lost and not won


def legacy_copy(I, e):
    return False


def amount_of(I, t):
    """through the U128 wrapper"""
    if t is None:
        return None
    if t.op == 'ctor' and len(t.a[2]) == 1 and t.a[0].endswith('U128'):
        return t.a[2][0]
    if t.op == 'proj' and t.a[1] == 0:
        return t
    s = strip(t)
    if s.op == 'ctor' and len(s.a[2]) == 1:
        return s.a[2][0]
    return s


def liq(t):
    return is_arg(t, 'liquidate_share_amount')


class Liquidation(Rule):
    id = 'H02'
    rule = ('path facts, value numbering and the share and token ledgers over on_burrow_liquidation: only for burrowland; the Burrowland record of the liquidated account and its shares '
            'in the pool each go down by exactly the liquidated amount; the tokens go to the named liquidator; the farming record goes down only by what the free shares do not cover, '
            'and the farm is told that amount')
    floors = {'obligations': 8, 'share debits': 1, 'token credits': 1}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['on_burrow_liquidation']

    def check(self, cx):
        I = cx.I
        burrow = mk('T', eq(PRED, mk('proj', SELF, 'burrowland_id')))
        if cx.name != 'on_burrow_liquidation':
            # the liquidated amount must not be taken from anybody's lock by another door
            return
        cx.ob(entails(I, cx.facts, any_of(burrow)), 'caller', 'only burrowland liquidates')
        key = None
        for e in record_writes(cx):
            for l in I.events.values() and books.leaves(I, e.args[0]):
                if l.op == 'call' and l.a[0] == 'LookupMap::get' and is_arg(l.a[1][1], 'liquidation_account_id'):
                    key = l.a[1][1]
        if not cx.ob(key is not None, 'record', 'the lock records of the liquidated account are updated'):
            return
        down = set()
        for e in record_writes(cx):
            for fs in feasible(e.facts, e.may):
                ch = changes(I, e, fs, key)
                if ch is INFEASIBLE:
                    continue
                if not cx.ob(ch is not None, 'write', 'the record is changed by an amount', e):
                    continue
                for fld in FIELDS:
                    ds = [d for d in ch[fld] if d]
                    same = [d for d in ch[fld] if not d]
                    if fld == 'shadow_in_burrow':
                        hit = [d for d in ds if len(d) == 1 and all(n == -1 and liq(t) for t, n in d.items())]
                        cx.ob(bool(hit) or bool(same), 'burrow', 'the Burrowland record goes down by the liquidated amount', e)
                        if hit and not same:
                            down.add((e.ctx, e.bb))
                    else:
                        ok = bool(same)
                        for d in ds:
                            if len(d) == 1:
                                (t, n), = d.items()
                                ok = ok or n == -1 and uncovered(I, fs, t, key)
                            else:
                                ok = ok or uncovered_form(I, fs, {t: -n for t, n in d.items()}, key)
                        cx.ob(ok, 'farm', 'the farming record goes down only by what the free shares do not cover', e)
        cx.ob(bool(down), 'burrow-missing', 'the Burrowland record is lowered')
        for fs in feasible(cx.facts, cx.alts):
            cx.ob(any(f.op == 'note' and f.a[0] == 'record' for f in fs), 'unrecorded', 'every liquidation updates the lock records')
            told = any(f.op == 'note' and f.a[0] == 'told' for f in fs)
            # a farming record that was lowered is reported
            low = len([f for f in fs if f.op == 'note' and f.a[0] == 'on']) > 1
            cx.ob(told or not low, 'untold', 'the farm is told what was taken from the farming record')
        for e in cx.calls('Promise::then'):
            if partner_call(e.args[0]):
                self.told(cx, e, key)
        some = False
        for e in share_events(I):
            if debit(e):
                some = True
                ks = leafset(I, e.args[1])
                cx.ob(all(is_arg(k, 'liquidation_account_id') for k in ks) and any(len(d) == 1 and all(liq(t) and n == -1 for t, n in d.items()) for d in e.extra),
                      'shares', 'exactly the liquidated amount of shares leaves the liquidated account', e, count='share debits')
        cx.ob(some, 'shares-missing', 'shares are taken from the liquidated account')
        some = False
        for e in tok_events(I):
            token, form, own = e.extra
            if not form:
                continue
            some = True
            cx.ob(not negative(form) and all(o[0] == 'acct' and is_arg(o[1], 'liquidator_account_id') for o in own) and bool(own), 'tokens',
                  'what the shares were worth goes to the named liquidator', e, count='token credits')
        cx.ob(some, 'tokens-missing', 'the liquidator receives the tokens')

    def told(self, cx, e, key):
        I, fs, a = cx.I, e.facts, e.args[0]
        acct, meth, inp = fn_call(a) if a.a[0] == 'Promise::function_call' else (None, None, {})
        x = amount_of(I, inp.get('amount'))
        cx.ob(meth == 'on_remove_shadow' and acct is not None and strip(acct) is mk('proj', SELF, 'boost_farm_id') and inp.get('account_id') is not None and
              is_arg(inp['account_id'], 'liquidation_account_id') and x is not None and positive(fs, x) and uncovered(I, fs, x, key), 'told',
              'the farm is told the account and the amount the free shares did not cover', e)


def uncovered(I, fs, t, key):
    return all(uncovered_form(I, f, lin(v), key, v) for v, f in resolve(I, fs, t))


def uncovered_form(I, fs, d, key, v=None):
    """d is the liquidated amount less the free shares (not below zero)"""
    d = {t: n for t, n in d.items() if not ledger.zero_const(t)}
    pos = [t for t, n in d.items() if n == 1]
    neg = [t for t, n in d.items() if n == -1]
    if not d:
        return positive_cover(I, fs, key)
    # L - (total - max(farm, burrow)):   L + max - total
    if any(liq(t) for t in pos) and len(pos) + len(neg) == len(d):
        rest = [t for t in pos if not liq(t)]
        if not rest and not neg:
            return no_free(I, fs, key)
        if len(neg) <= 1 and all(total_of(I, t, key) for t in neg):
            if not rest:
                return none_locked_after(I, fs, key) and bool(neg)
            return len(rest) == 1 and locked_term(I, rest[0], key)
    return False


def locked_term(I, t, key):
    """the larger of the two records, read after the Burrowland record was lowered"""
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] == 'max':
        return {record_field(I, x, key) for x in t.a[1]} == set(FIELDS) and all(late(I, x) for x in t.a[1])
    return False


def late(I, t):
    """read from the map as it is after a write"""
    for l in books.leaves(I, t.a[0]):
        g = payload_call(l) or l
        if g.op == 'call' and g.a[0].endswith('::get'):
            m = g.a[1][0]
            return changed(I, m)
    return False


def changed(I, m, depth=0):
    if m.op == 'after':
        return True
    if m.op == 'phi' and depth < 4:
        return all(changed(I, o, depth + 1) for (o, pf, b) in (I.phi_info.get(m) or {}).values())
    return False


def free_forms(I, t, key):
    """t is the free shares of the account"""
    for v, f in resolve(I, frozenset(), t):
        d = {x: n for x, n in lin(v).items() if not ledger.zero_const(x)}
        for x, n in d.items():
            if n == 1 and total_of(I, x, key):
                continue
            if n == -1 and locked_term(I, x, key):
                continue
            return False
    return True


def no_free(I, fs, key):
    """the account has no free shares"""
    for f in fs:
        if f.op == 'V' and f.a[1] == 'None' and f.a[0].op == 'call' and total_of(I, f.a[0], key):
            return True
        if f.op == 'F' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Lt' and ledger.zero_const(f.a[0].a[1]) and free_forms(I, f.a[0].a[2], key):
            return True
        if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] in ('Eq', 'Le'):
            for i in (1, 2) if f.a[0].a[0] == 'Eq' else (2,):
                if ledger.zero_const(f.a[0].a[i]) and free_forms(I, f.a[0].a[3 - i], key):
                    return True
    return False


def positive_cover(I, fs, key):
    """the free shares cover the liquidated amount"""
    for f in fs:
        if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Lt', 'Le'):
            o, a, b = f.a[0].a
            if f.op == 'T' and liq(a) and free_forms(I, b, key):
                return True
            if f.op == 'F' and o == 'Lt' and liq(b) and free_forms(I, a, key):
                return True
    return False


def none_locked_after(I, fs, key):
    return none_locked(I, fs, key)

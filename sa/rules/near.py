"""NEAR in the exchange: what users attach or left for storage is kept, charged for storage, or sent back."""
import farmbooks
import nearbooks
from framework import Rule
from base import *  # noqa
from tokens import inevitable, after, inner, OWNER_ID
from farming import pends, left, live, site, PRIV
from terms import T, mk, C, is_c, cval, phis, subst, subterms, show

CHARGED = ('add_simple_pool', 'add_stable_swap_pool', 'add_rated_swap_pool', 'add_degen_swap_pool', 'add_liquidity', 'add_stable_liquidity', 'mft_register')
FREES = ('mft_unregister', 'donation_share', 'callback_on_shadow', 'on_burrow_liquidation')


def call(t, *names):
    return t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in names


def usage_at(t):
    return t.op == 'call' and t.a[0] == 'env::storage_usage'


def checked(t):
    """a checked subtraction, for its payload"""
    if t.op == 'proj' and t.a[1] == 0 and t.a[0].op == 'as' and t.a[0].a[1] in ('Some', 'Ok') and call(t.a[0].a[0], 'checked_sub'):
        return t.a[0].a[0].a[1]
    if call(t, 'unwrap', 'expect') and t.a[1] and call(t.a[1][0], 'checked_sub'):
        return t.a[1][0].a[1]
    return None


def flat(form):
    """checked subtractions taken apart"""
    out = {}
    for x, n in form.items():
        c = checked(x)
        for y, m in (flat(sub_lin(lin(c[0]), lin(c[1]))).items() if c else [(x, 1)]):
            out[y] = out.get(y, 0) + n * m
    return {x: n for x, n in out.items() if n}


class Near(Rule):
    id = 'N01'
    rule = ('double-entry over every path: what the accounts stored hold in NEAR and what is sent out changes together by nothing, by the NEAR attached (storage_deposit), by the NEAR attached '
            'less the growth of storage since the start of the operation at the price per byte (operations that charge for storage), by the storage freed or used at that price, or by the '
            'amount a private callback passes on; an account is removed only empty; a withdrawal leaves the storage in use covered')
    floors = {'paths': 60, 'moves': 8, 'charged': 6, 'deposits': 2, 'removals': 1, 'kept': 1}

    def select(self, P, crate, name):
        return crate == 'exchange' and nonview(P, crate, name)

    def required(self, crate):
        return ['storage_deposit', 'storage_withdraw', 'storage_unregister'] + list(CHARGED)

    def check(self, cx):
        I = cx.I
        for f in left(cx, 'dep', 'near'):
            cx.viol('loop', 'a loop goes on with NEAR booked on one side only (%s)' % pend_name(f), site(cx, f))
        for a in live(cx):
            facts = cx.facts | a
            ps = pends(a, 'dep', 'near')
            tot = {}
            for p in ps:
                for x, n in flat({p.a[1][0]: p.a[2]}).items():
                    tot[x] = tot.get(x, 0) + n
            tot = {x: n for x, n in tot.items() if n}
            why = None
            for form, f in self.expand(I, facts, tot):
                why = why or self.wrong(cx, form, f, ps)
            nm = '; '.join('%s %s' % (p.a[0][0], pend_name(p)) for p in ps)[:220]
            cx.ob(why is None, 'near', 'NEAR kept and sent adds up%s (%s)' % (': ' + why if why else '', nm), site(cx, ps[0]) if ps else None, count='moves' if ps else 'paths')
            if cx.name in CHARGED or cx.name == 'storage_deposit':
                cx.count('charged' if cx.name in CHARGED else 'deposits')
            for p in ps:
                if p.a[0][0] == 'near':
                    to = strip(p.a[0][1])
                    cx.ob(to is PRED or is_arg(to, 'sender_id') and PRIV in cx.facts, 'to', 'NEAR is sent to the caller, or by a callback to the account it acts for', site(cx, p))
        for e, key, d in I.__dict__.get('acct_events', {}).values():
            if e.name.endswith('::remove'):
                cx.ob(strip(key) is PRED, 'owner', 'only the caller\'s account is removed', e)
                for fld in ('tokens', 'legacy_tokens', 'shadow_records'):
                    cx.ob(always(I, e.facts, e.may, lambda fs: any(emptied(I, f, fld, 'acct', key) for f in fs)), 'empty', 'an account is removed only with no %s' % fld, e, count='removals')
            else:
                if strip(key) is not OWNER_ID and PRIV not in cx.facts:
                    cx.ob(always(I, e.facts, e.may, lambda fs: self.enough(I, fs, e.args[2])), 'covered', 'an account is stored only when its NEAR covers the storage in use', e, count='kept')
                for l in books.leaves(I, nearbooks.record(I, e.args[2])):
                    if l.op == 'ctor' and not books.roots(I, l):
                        cx.ob(ledger.zero_const(I.project(l, ('near_amount',))), 'new', 'a new account starts with no NEAR', e)
        for e in cx.calls('ext_self::callback_on_shadow'):
            fee = inner(e.args[4]) if len(e.args) > 4 else None
            cx.ob(fee is not None and (ledger.zero_const(fee) or all(ledger.zero_const(t) or self.cost(cx, f, t, 1) for t, f in farmbooks.values(I, e.facts, fee))), 'fee',
                  'the storage fee that goes back if the partner fails is what was charged', e, count='fees')
        if cx.name in CHARGED + ('shadow_action',) + FREES:
            for x in self.stamps(I):
                for w in self.grown(cx):
                    cx.ob(not (after(I, (w.ctx, w.bb), x) and not after(I, x, (w.ctx, w.bb))) or any(after(I, y, (w.ctx, w.bb)) for y in self.stamps(I)), 'span',
                          'the storage charged or returned is measured around the change', w, count='spans')

    def expand(self, I, facts, form):
        atoms = sorted(form, key=lambda t: t.id)
        for v, f in farmbooks.values(I, facts, mk('ctor', '(tuple)', None, tuple(atoms))):
            out = {}
            for x, y in zip(atoms, v.a[2]):
                for z, n in flat(lin(y)).items():
                    out[z] = out.get(z, 0) + n * form[x]
            yield {x: n for x, n in out.items() if n}, f

    def stamps(self, I):
        return [(e.ctx, e.bb) for e in I.events.values() if e.kind == 'call' and e.name == 'env::storage_usage']

    def grown(self, cx):
        """writes that may make the storage grow or shrink by an entry"""
        I = cx.I
        return [e for e in cx.evs if e.kind == 'call' and e.item is None and e.locs and e.locs[0] is not None and (
            books.last(e.locs[0]) in ('shares', 'shadow_records') and e.name.rsplit('::', 1)[-1] in ('insert', 'remove') or e.name == 'Vector::push' and books.last(e.locs[0]) == 'pools')]

    def order(self, I, facts, new, old):
        """new is the storage used at a later time than old"""
        if not (usage_at(new) and usage_at(old)):
            return False
        p, q = (tuple(t.a[1][0].a[:2]) if t.a[1] else None for t in (new, old))
        return p is not None and q is not None and after(I, q, p) and not after(I, p, q)

    def cost(self, cx, facts, t, sign):
        """the price of the storage used (1) or freed (-1) in between"""
        if not (t.op == 'bin' and t.a[0] == 'Mul'):
            return False
        g = [x for x in t.a[1:3] if not (x.op == 'call' and x.a[0] == 'env::storage_byte_cost')]
        if len(g) != 1:
            return False
        g = g[0]
        if g.op == 'cast':
            g = g.a[-1] if hasattr(g.a[-1], 'op') else g.a[0]
        if call(g, 'unwrap_or', 'unwrap_or_default') and g.a[1] and call(g.a[1][0], 'checked_sub') and (len(g.a[1]) == 1 or ledger.zero_const(g.a[1][1]) or call(g.a[1][1], 'default')):
            x, y = g.a[1][0].a[1]
        elif call(g, 'saturating_sub'):
            x, y = g.a[1]
        elif g.op == 'bin' and g.a[0] == 'Sub':
            x, y = g.a[1:3]
        elif checked(g):
            x, y = checked(g)
        else:
            return False
        return self.order(cx.I, facts, x, y) if sign > 0 else self.order(cx.I, facts, y, x)

    def nothing(self, facts, form):
        """the facts say that the amount is zero"""
        neg = {x: -n for x, n in form.items()}
        for f in facts:
            if f.op not in ('T', 'F') or f.a[0].op != 'bin' or f.a[0].a[0] not in ('Le', 'Lt', 'Eq'):
                continue
            o, x, y = f.a[0].a[:3]
            if not (o == 'Eq' and f.op == 'T' or o == 'Le' and f.op == 'T' and ledger.zero_const(y) or o == 'Lt' and f.op == 'F' and ledger.zero_const(x)):
                continue
            if flat(sub_lin(lin(x), lin(y))) in (form, neg):
                return True
        return False

    def still(self, I, facts, sign):
        """the facts say that the storage did not grow (1) or shrink (-1)"""
        for f in facts:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                x, y = f.a[0].a[1:3]
                lo, hi = (x, y) if f.op == 'T' else (y, x)
                if self.order(I, facts, *((hi, lo) if sign < 0 else (lo, hi))):
                    return True
        return False

    def wrong(self, cx, form, facts, ps):
        I = cx.I
        form = {x: n for x, n in form.items() if not ledger.zero(facts, x)}
        gone = [x for x in form if x.op == 'left']
        for g in gone:
            m = [x for x in form if form[x] == -form[g] and nearbooks.near_of(I, x, g.a[0])]
            if len(m) != 1:
                return 'the NEAR of the account removed is not what is sent'
            del form[g], form[m[0]]
        if cx.name == 'storage_deposit':
            rest = {x: n for x, n in sub_lin(form, {DEPOSIT: 1}).items() if n}
            return None if not rest or self.nothing(facts, rest) else 'not all the NEAR attached'
        locks = any(f.op == 'V' and f.a[1] in ('ToFarming', 'ToBurrowland') or f.op == 'NV' and f.a[1] == 'FromFarming' and mk('NV', f.a[0], 'FromBurrowland') in facts and not any(mk('V', f.a[0], v) in facts for v in ('FromFarming', 'FromBurrowland')) for f in facts)
        charged = cx.name in CHARGED or cx.name == 'shadow_action' and locks
        if charged:
            rest = {x: n for x, n in form.items() if x is not DEPOSIT}
            if form.get(DEPOSIT) == 1 and len(rest) == 1 and all(n == -1 and self.cost(cx, facts, x, 1) for x, n in rest.items()):
                return None
            if not form and any(self.spent(cx, f) for f in facts):
                return None
            return 'not the NEAR attached less the price of the storage used'
        if not form:
            if cx.name in ('mft_unregister', 'donation_share', 'on_burrow_liquidation') and not self.still(I, facts, -1):
                return 'storage may be freed for nothing'
            if cx.name == 'callback_on_shadow' and not locks and not self.failed(facts) and not self.still(I, facts, -1):
                return 'storage may be freed for nothing'
            if any(f.op == 'V' and f.a[1] == 'HotZap' for f in facts) and not self.still(I, facts, 1):
                return 'the storage used is not charged'
            return None
        if len(form) == 1:
            x, n = next(iter(form.items()))
            if n == 1 and self.cost(cx, facts, x, -1):
                return None
            if n == -1 and self.cost(cx, facts, x, 1) and all(p.a[0][0] == 'dep' for p in ps):
                return None
            if n == 1 and PRIV in cx.facts and all(p.a[0][0] == 'near' for p in ps):
                if cx.name == 'callback_on_shadow':
                    return None if is_arg(x, 'storage_fee') and self.failed(facts) and locks else 'a storage fee goes back although the partner did not fail'
                if is_arg(x, 'amount'):
                    return None if any(f.op == 'V' and f.a[1] == 'Successful' for f in facts) or self.worked(facts) else 'NEAR is passed on although the unwrapping may have failed'
        return 'something is left over'

    def spent(self, cx, f):
        """the fact says that all the NEAR attached went into storage"""
        if f.op not in ('T', 'F') or f.a[0].op != 'bin' or f.a[0].a[0] not in ('Le', 'Lt', 'Eq'):
            return False
        o, x, y = f.a[0].a[:3]
        d = flat(sub_lin(lin(x), lin(y)))
        rest = [z for z in d if z is not DEPOSIT]
        return len(rest) == 1 and abs(d.get(DEPOSIT, 0)) == 1 and d[rest[0]] == -d[DEPOSIT] and self.cost(cx, (), rest[0], 1) and (
            o == 'Eq' and f.op == 'T' or o == 'Le' and f.op == 'T' and d[DEPOSIT] == 1 or o == 'Lt' and f.op == 'F' and d[DEPOSIT] == -1)

    def failed(self, facts):
        return any(f.op == 'V' and f.a[1] == 'Failed' or f.op == 'F' and f.a[0].op == 'call' and f.a[0].a[0].endswith('is_promise_success') for f in facts)

    def worked(self, facts):
        return any(f.op == 'T' and f.a[0].op == 'call' and f.a[0].a[0].endswith('is_promise_success') for f in facts)

    def enough(self, I, fs, v):
        new = lin(I.project(nearbooks.record(I, v), ('near_amount',)))
        for f in fs:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                x, y = f.a[0].a[1:3]
                lo, hi = (x, y) if f.op == 'T' else (y, x)
                if lin(hi) == new and self.usage(I, lo):
                    return True
        return False

    def usage(self, I, t):
        xs = set(subterms(t))
        return any(x.op == 'call' and x.a[0] == 'env::storage_byte_cost' for x in xs) and all(any(
            x.op == 'proj' and x.a[1] == f for x in deep(I, t)) for f in ('tokens', 'legacy_tokens'))

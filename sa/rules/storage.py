"""Where data is stored: prefixes of collections, raw keys, layout of what is stored, migrations."""
import json
import os
import re
from framework import Rule
from base import *  # noqa
import interp

KINDS = ('LookupMap', 'UnorderedMap', 'UnorderedSet', 'Vector', 'LookupSet', 'TreeMap', 'LazyOption', 'LegacyTreeMap')
# the prefix of each collection: byte written for the variant of the key
FIELDS = {
    'exchange': ((), {'pools': 0, 'accounts': 1, 'whitelisted_tokens': 3, 'guardians': 4, 'frozen_tokens': 6, 'referrals': 7, 'unit_share_cumulative_infos': 9}),
    'farming': (('data', 'V0110', 0), {'seeds': 0, 'farms': 1, 'outdated_farms': 2, 'farmers': 3, 'reward_info': 4}),
}
RAW = {'pl': 10, 'ce_tw': 11, 'ce_sw': 12, 'ce_ssw': 13}
SHARES, TOKENS, LOCKS, LOST, LOST_TOKENS = 2, 5, 8, 14, 15
USER_RPS = 5
RAWKEYS = {'custom_rate_key', 'custom_degen_key', 'custom_degen_oracle_config_key', 'pl', 'ce_tw', 'ce_sw', 'ce_ssw', 'sv'}


def made(t):
    """the storage key of a collection constructed here, or None"""
    if t.op == 'call' and t.a[0].endswith('::new') and t.a[0].split('::')[0] in KINDS and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


class Where(Rule):
    id = 'K01'
    crates = ('exchange', 'farming')
    rule = ('every construction of a storage collection (map, set, vector) names the prefix that belongs to the place it is kept in: each field of the contract state its own, '
            'each pool its index, each account its own name (tokens, locks and lost-and-found apart), each raw storage key its own; data read under a raw key is written back under the same key; '
            'the state is initialised only while there is none; pools are only appended')
    floors = {'fields': 12, 'accounts': 3, 'raw': 12, 'pools': 4, 'lostfound': 3}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['new', 'storage_deposit', 'migrate'] + (['add_simple_pool', 'withdraw', 'claim_lostfound', 'ft_on_transfer'] if crate == 'exchange' else [])

    def tag(self, cx, t):
        """(number of the prefix, its parameters, raw text)"""
        k = made(t)
        k = strip(k) if k is not None else None
        if k is None:
            return None
        if is_c(k):
            return ('raw', text(k), ())
        if k.op == 'ctor' and '::' in k.a[0]:
            enum, v = k.a[0].rsplit('::', 2)[-2:]
            vs = cx.P.enums.get(enum, [])
            if v in vs:
                return ('key', vs.index(v), k.a[2])
        if k.op == 'call' and k.a[0].endswith('as_bytes') and is_c(k.a[1][0]):
            return ('raw', text(k), ())
        return ('?', None, ())

    def leaves(self, cx, t):
        return [x for x in may_be(cx.I, t) if x.op != 'phi']

    def root(self, cx, t):
        """the collection a version of it goes back to"""
        out = set()
        for x in self.leaves(cx, t):
            n = 0
            while n < 60 and x.op in ('after', 'mutvia'):
                x = x.a[2][x.a[1]] if x.op == 'after' else x.a[0]
                n += 1
            out |= set(self.leaves(cx, x))
        return {x for x in out if x.op not in ('after', 'phi')}

    def check(self, cx):
        I = cx.I
        if cx.name == 'new':
            self.initial(cx)
        for e in [e for e in cx.evs if e.kind == 'call' and e.item is None and e.args]:
            op = e.name.rsplit('::', 1)[-1]
            if e.name.split('::')[0] in KINDS and op == 'new':
                self.constructed(cx, e)
            elif e.name == 'env::storage_write' and len(e.args) == 2:
                self.raw_write(cx, e)
            elif e.name in ('LookupMap::insert', 'UnorderedMap::insert') and cx.crate == 'exchange':
                if any((self.tag(cx, r) or (0, 0))[:2] == ('key', LOST) for r in self.root(cx, e.args[0])):
                    self.kept(cx, e, 'lostfound', e.args[1], e.args[2], LOST_TOKENS)
            elif e.name == 'Vector::push' and e.locs and e.locs[0] and books.last(e.locs[0]) == 'pools':
                self.pool(cx, e)
            elif e.name.startswith('Vector::') and op in ('pop', 'swap_remove', 'clear', 'drain', 'truncate') and e.locs and e.locs[0] and books.last(e.locs[0]) == 'pools':
                cx.viol('pools', 'a pool is removed: the storage of the next pool is shared with an old one', e)
        for e, kind, key, *_ in I.__dict__.get('saves', {}).values():
            if e.name.rsplit('::', 1)[-1] != 'insert':
                continue
            if kind == 'acct':
                self.kept(cx, e, 'tokens', key, (e.args[2], ('Current', 0, 'tokens')), TOKENS)
                self.kept(cx, e, 'locks', key, (e.args[2], ('Current', 0, 'shadow_records')), LOCKS)
            elif kind == 'farmer':
                self.kept(cx, e, 'user rps', key, (e.args[2], ('V101', 0, 'user_rps')), USER_RPS)

    def initial(self, cx):
        I = cx.I
        cx.ob(cx.always(lambda fs: any(f.op == 'F' and f.a[0].op == 'call' and f.a[0].a[0] == 'env::state_exists' for f in fs)), 'init-once', 'the contract is initialised only while it has no state')
        ws = [e for e in cx.evs if e.name == 'env::state_write' and e.args]
        pre, fields = FIELDS[cx.crate]
        for e in ws:
            for f, n in fields.items():
                for x in self.leaves(cx, I.project(e.args[0], pre + (f,))):
                    cx.ob((self.tag(cx, x) or ())[:2] == ('key', n), 'field-' + f, 'the collection %s has its own prefix, the one it has always had' % f, e, count='fields')
        cx.ob(bool(ws), 'initial', 'the initial state is written')

    def constructed(self, cx, e):
        """a construction where nothing was stored under a raw key yet"""
        t = self.tag(cx, e.ret if made(e.ret) is not None else mk('call', e.name, tuple(e.args)))
        if t[0] == '?':
            cx.ob(False, 'key', 'the prefix of a collection is one of the storage keys', e)
            return
        if t[0] == 'raw':
            cx.ob(t[1] in RAWKEYS and t[1] not in RAW, 'raw-' + str(t[1]), 'a collection under a raw prefix has one of its own', e, count='raw')
            return
        for f in e.facts:
            if f.op == 'V' and f.a[1] == 'None' and f.a[0].op == 'call' and f.a[0].a[0] == 'env::storage_read':
                k = text(f.a[0].a[1][0])
                if k in RAW:
                    cx.ob(t[1] == RAW[k], 'raw-' + k, 'the collection kept under the key %s has its own prefix' % k, e, count='raw')

    def raw_write(self, cx, e):
        k = text(e.args[0])
        cx.ob(k in RAWKEYS, 'rawkey', 'raw data is written under one of the known keys', e, count='raw')
        for x in subterms(e.args[1]):
            if x.op == 'call' and x.a[0] == 'env::storage_read' and text(x.a[1][0]) is not None:
                cx.ob(text(x.a[1][0]) == k, 'back-' + str(k), 'data read under a raw key is written back under it', e, count='raw')
            if made(x) is not None and k in RAW:
                cx.ob(self.tag(cx, x)[1] == RAW[k], 'raw-' + k, 'the collection kept under the key %s has its own prefix' % k, e, count='raw')

    def kept(self, cx, e, what, key, val, n):
        """a collection stored for an account is the one stored before or has the prefix of that account"""
        ks = leafset(cx.I, key)
        vals = books.leaves(cx.I, *val) if isinstance(val, tuple) else [val]
        for x in {r for v in vals for r in self.root(cx, v)}:
            t = self.tag(cx, x)
            if t is None:
                continue
            ok = t[:2] == ('key', n) and len(t[2]) == 1 and leafset(cx.I, t[2][0]) <= ks
            cx.ob(ok, 'own-' + what.replace(' ', '-'), 'the %s of an account are stored under its own name and apart from all else' % what, e,
                  count='lostfound' if n == LOST_TOKENS else 'accounts')

    def pool(self, cx, e):
        """the share map of a new pool is keyed by the index the pool gets"""
        I = cx.I
        for kind in ('SimplePool', 'StableSwapPool', 'RatedSwapPool', 'DegenSwapPool'):
            if I.variant_of(e.args[1]) not in (None, kind):
                continue
            for x in self.root(cx, I.project(e.args[1], (kind, 0, 'shares'))):
                t = self.tag(cx, x)
                if t is None:
                    cx.ob(I.variant_of(e.args[1]) != kind, 'shares-' + kind, 'a new pool has a new share map', e, count='pools')
                    continue
                p = t[2][0] if len(t[2]) == 1 else mk('none')
                while p.op == 'cast':
                    p = p.a[-1]
                ok = t[:2] == ('key', SHARES) and p.op == 'call' and p.a[0] == 'Vector::len' and p.a[1][0] is e.args[0]
                cx.ob(ok, 'shares-' + kind, 'the shares of a new pool are stored under the index it gets', e, count='pools')


def text(t):
    t = strip(t)
    while t.op == 'call' and len(t.a[1]) == 1 and t.a[0].rsplit('::', 1)[-1] in ('as_bytes', 'deref', 'as_ref', 'as_slice'):
        t = t.a[1][0]
    return str(cval(t)).strip('"') if is_c(t) else None


def same(x, src, f):
    """x is the field f of src"""
    x = strip(x)
    if x.op != 'proj' or x.a[1] != f:
        return False
    y = x.a[0]
    while y.op in ('deref', 'ref', 'load') or y.op == 'proj' and y.a[1] == '*':
        y = y.a[0]
    return y is src or src in list(subterms(y)) and not any(z.op == 'proj' for z in subterms(y))


ROOTS = {
    'exchange': ['Contract', 'HashMap<String,Rate>', 'HashMap<String,Degen>', 'HashMap<String,DegenOracleConfig>', 'UnorderedMap<u64,VPoolLimitInfo>',
                 'UnorderedSet<AccountId>', 'LookupMap<AccountId,LostfoundAccount>', 'Vec<SwapVolumeU256>'],
    'farming': ['Contract'],
}


class Layout(Rule):
    id = 'K02'
    crates = ('exchange', 'farming')
    rule = ('the Borsh layout (order, types and variants) of the contract state and of all data stored under it or under raw keys, read from the declarations, extends the recorded one; '
            'the state written by a migration holds every field of the state read, and an account stored in an old form keeps its NEAR, its tokens and its storage')
    floors = {'types': 9, 'migrated': 9, 'olds': 8}

    def select(self, P, crate, name):
        return name in ('migrate', 'withdraw')

    def required(self, crate):
        return ['migrate']

    def program(self, P, crate, out):
        import layout
        D = layout.Decls(P)
        old = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'layout.json')))[crate]
        for r in ROOTS[crate]:
            d = layout.differs(old[r], json.loads(json.dumps(D.type(r, ''))), r)
            out.ob(d is None, 'layout-' + r, 'stored data keeps its layout' + ('' if d is None else ': ' + d), count='types')

        if crate == 'exchange':
            self.old_accounts(P, out)

    def old_accounts(self, P, out):
        """every function that makes an account of one stored in an old form"""
        for it in P.items:
            if not it.body or len(it.args) < 1 or not re.search(r'\bAccount$', it.ret or ''):
                continue
            old = re.search(r'\bAccount(V[12])$', it.args[0][1].strip())
            if not old:
                continue
            I = interp.run_item(P, it)
            ret, st = I.result[0], I.result[1]
            if not hasattr(ret, 'op'):
                ret, st = st, ret
            src = mk('param', it.args[0][0])
            for f in ('near_amount', 'storage_used', 'tokens', 'legacy_tokens'):
                g = f
                if old.group(1) == 'V1':
                    g = {'legacy_tokens': 'tokens', 'tokens': None}.get(f, f)
                v = I.project(ret, (f,))
                ok = all(same(x, src, g) for x in may_be(I, v)) if g else all(made(x) is not None for x in may_be(I, v))
                out.ob(ok, 'old-%s-%s' % (old.group(1), f), 'an account stored in the form %s keeps its %s' % (old.group(1), g or f), count='olds')

    def check(self, cx):
        I = cx.I
        if cx.name == 'migrate':
            ws = [e for e in cx.evs if e.name == 'env::state_write' and e.args]
            cx.ob(bool(ws), 'migrate', 'the migrated state is written')
            for e in ws:
                self.migrated(cx, e)

    def migrated(self, cx, e):
        I = cx.I
        v = e.args[0]
        me = [x for x in subterms(v) if x.op == 'self']
        if cx.crate == 'exchange':
            cx.ob(v.op == 'self', 'state', 'the state after a migration is the state before', e, count='migrated')
            return
        for f in sorted(FIELDS['farming'][1].keys() | {'owner_id', 'farmer_count', 'state'}):
            got = set()
            for x, g in resolve(I, e.facts, I.project(v, ('data', 'V0110', 0, f)), 30):
                old = next((o for o in ('V0104', 'V0110') if x.op == 'proj' and any(y.op == 'as' and y.a[1] == o and y.a[0].op == 'proj' and y.a[0].a[0].op == 'self' for y in subterms(x))), None)
                ok = old is not None and x.a[1] == f or f == 'state' and x.op == 'ctor'
                got.add(old)
                cx.ob(ok, 'keep-' + f, 'a migration keeps the %s of the state' % f, e, count='migrated')
            cx.ob(f == 'state' or got >= {'V0104', 'V0110'}, 'forms-' + f, 'the state of each form is taken over', e, count='migrated')

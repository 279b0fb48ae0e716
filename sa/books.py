"""The hooks that book share movements while the analysis runs."""
import re

import ledger
from ledger import mk, C, is_c, cval, lin, sub_lin, deltas, old_value, zero_const, book
from query import *  # noqa


def last(loc):
    if not loc or not loc[1]:
        return None
    return loc[1][-1] if isinstance(loc[1][-1], str) else None


def bad(I, e, what):
    I.__dict__.setdefault('book_errors', {})[(e.ctx, e.bb, what)] = (e, what)


def share_call(I, e, st, args, val, dest, ctx):
    """a write to a pool's share map"""
    op = e.name.rsplit('::', 1)[-1]
    if not e.name.startswith('LookupMap::') or op not in ('insert', 'remove', 'remove_raw', 'insert_raw', 'extend', 'set'):
        return
    loc = e.locs[0]
    if last(loc) != 'shares':
        return
    tag = ('shares', loc[0], loc[1][:-1])
    facts = e.facts
    mp, key = e.args[0], e.args[1] if len(e.args) > 1 else None
    I.__dict__.setdefault('share_events', {})[(e.ctx, e.bb)] = e
    if op == 'insert':
        alts = [facts | a for a in e.may] if e.may else [facts]
        ds = deltas(I, facts, e.args[2], mp, key)
        if not ds:
            per = [deltas(I, f, e.args[2], mp, key) for f in alts]
            keys = None
            for p in per:
                ks = {tuple(sorted((k.id, v) for k, v in d.items())): d for d in p}
                keys = ks if keys is None else {k: v for k, v in keys.items() if k in ks}
            ds = list((keys or {}).values())
        if not ds:
            bad(I, e, 'share-write')
            return
        e.extra = ds
        if len(ds) == 1:
            book(I, st, tag, ds[0], e)
        else:
            book_best(I, st, tag, ds, e)
    elif op == 'remove':
        # the removed amount leaves the sum
        for fa in list(facts):
            pass
        x = mk('proj', mk('as', e.ret, 'Some'), 0)
        e.extra = [{x: -1}]
        book(I, st, tag, {x: -1}, e)
    else:
        bad(I, e, 'share-write')


def book_best(I, st, tag, ds, site):
    """several names for the same change: the one that cancels what is open, else the first"""
    sites = I.__dict__.setdefault('pend_sites', {})
    out = set()
    for a in st.may:
        if ledger.contradicts(st.facts, a) and len(st.may) > 1:
            continue
        cands = [ledger.apply(I, a, tag, d, st.facts | a, site, sites) for d in ds]
        n0 = len([f for f in a if f.op == 'pend'])
        cands.sort(key=lambda c: (len([f for f in c if f.op == 'pend']), min([0] + [f.id for f in c])))
        best = cands[0]
        if len([f for f in best if f.op == 'pend']) > n0:
            # keep every name of the amount
            als = set()
            ok = all(len(d) == 1 and abs(list(d.values())[0]) == 1 for d in ds) and len({list(d.values())[0] for d in ds}) == 1
            if ok:
                for d in ds:
                    als |= set(d)
                q = mk('pend', tag, tuple(sorted(als, key=lambda z: z.id)), list(ds[0].values())[0])
                sites.setdefault(q, site)
                best = frozenset(a | {q})
        out.add(best)
    st.may = frozenset(out)


def share_write(I, st, loc, v, stmt):
    if last(loc) != 'shares_total_supply':
        return
    old = I.read(st, loc)
    new = I.val(st, v)
    tag = ('shares', loc[0], loc[1][:-1])
    f = sub_lin(lin(new), lin(I.val(st, old)))
    f = {k: -n for k, n in f.items()}
    if f:
        book(I, st, tag, f, None)
        I.__dict__.setdefault('supply_writes', {})[(loc, new.id)] = (loc, new)



# ---------------------------------------------------------------- tokens
def leaves(I, t, path=(), out=None, seen=None):
    """where a container value comes from: through joins, later versions and field selection (`path`: what is selected from t)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    while True:
        if (t, path) in seen or len(path) > 12:
            return out
        seen.add((t, path))
        if t.op == 'phi':
            for (o, pf, b) in (I.phi_info.get(t) or {}).values():
                leaves(I, o, path, out, seen)
            return out
        if t.op == 'after':
            t = t.a[2][t.a[1]]
        elif t.op == 'mutvia':
            t = t.a[0]
        elif t.op == 'upd':
            rel = t.a[1]
            n = min(len(rel), len(path))
            if rel[:n] == path[:n] and n == len(rel):
                t, path = t.a[2], path[n:]
            else:
                t = t.a[0]
        elif t.op == 'as':
            t, path = t.a[0], (t.a[1],) + path
        elif t.op == 'branch':
            t, path = t.a[0], (t.a[1],) + path[1:]
        elif t.op == 'optmap':
            if path[:2] == ('Some', 0):
                path = path[2:]
            t = t.a[1]
        elif t.op == 'proj' and t.a[0].op != 'self':
            t, path = t.a[0], (t.a[1],) + path
        elif t.op == 'ctor':
            while path and isinstance(path[0], str) and path[0] == t.a[0].rsplit('::', 1)[-1]:
                path = path[1:]
            i = I.fidx(t, path[0]) if path else None
            if i is None:
                if not t.a[2] and path:
                    return out        # the empty variant
                out.add(t)
                return out
            t, path = t.a[2][i], path[1:]
        elif t.op == 'call' and t.a[0] == 'Option::unwrap_or' and t.a[1]:
            leaves(I, t.a[1][1], path, out, seen)
            t = t.a[1][0]
        else:
            out.add(t)
            return out


def owner_of(I, mp):
    """ids of the accounts a token map may belong to; ('?',) entries for what is not recognised"""
    out = set()
    for l in leaves(I, mp):
        if l.op == 'call' and l.a[0] == 'LookupMap::get':
            for m in leaves(I, l.a[1][0]):
                if m is mk('proj', SELF, 'accounts'):
                    out.add(('acct', l.a[1][1]))
                elif m.op == 'call' and m.a[0] == 'LookupMap::new' and m.a[1][0].op == 'ctor' and m.a[1][0].a[0].endswith('LostfoundAccounts'):
                    out.add(('lost', l.a[1][1]))
                else:
                    out.add(('?', m))
        elif l.op == 'call' and l.a[0] == 'UnorderedMap::new' and l.a[1][0].op == 'ctor':
            k = l.a[1][0]
            if k.a[0].endswith('::AccountTokens'):
                out.add(('acct', k.a[2][0]))
            elif k.a[0].endswith('::LostfoundAccountTokens'):
                out.add(('lost', k.a[2][0]))
            else:
                out.add(('?', l))
        elif l.op == 'call' and l.a[0] in ('HashMap::new', 'Default::default'):
            continue
        else:
            out.add(('?', l))
    return out


def token_map(I, e):
    loc = e.locs[0]
    if last(loc) in ('tokens', 'legacy_tokens'):
        return True
    if e.name.startswith('UnorderedMap::'):
        return any(o[0] == 'lost' for o in owner_of(I, e.args[0]))
    return False


def tok_note(I, e, st, token, form, own):
    """remember who was booked what"""
    I.__dict__.setdefault('tok_events', {})[(e.ctx, e.bb)] = e
    e.extra = (token, form, own)
    if token is PRED and any(n == 1 and x.op == 'proj' and x.a[1] == 'amount' for x, n in form.items()):
        # a token contract called: what it transferred is booked in
        st.may = frozenset((a - {mk('got', 1)}) | {mk('got', 2 if mk('got', 1) in a or mk('got', 2) in a else 1)} for a in st.may)
    st.facts = st.facts | {mk('E', '#tok', (token, tuple(sorted(((n, x) for x, n in form.items()), key=lambda z: z[1].id)), tuple(sorted(own, key=repr))))}


def token_call(I, e, st, args, val, dest, ctx):
    n = e.name
    if not n.startswith(('UnorderedMap::', 'HashMap::')):
        return
    op = n.split('::')[1]
    if op not in ('insert', 'remove', 'clear', 'extend', 'retain', 'drain', 'remove_entry', 'entry'):
        return
    if not token_map(I, e):
        return
    own = owner_of(I, e.args[0])
    if op == 'clear':
        I.__dict__.setdefault('tok_clears', {})[(e.ctx, e.bb)] = e
        e.extra = own
        st.may = frozenset(frozenset(f for f in a if not (f.op == 'dirty' and f.a[0] == 'va')) for a in st.may)
        return
    mp = e.args[0]
    if op == 'insert':
        token, new = e.args[1], e.args[2]
        ds = deltas(I, e.facts, new, mp, token)
        if not ds:
            per = [deltas(I, e.facts | a, new, mp, token) for a in e.may]
            keys = None
            for p in per:
                ks = {tuple(sorted((k.id, v) for k, v in d.items())): d for d in p}
                keys = ks if keys is None else {k: v for k, v in keys.items() if k in ks}
            ds = list((keys or {}).values())
        if not ds and zero_const(new) and registration(I, e):
            ds = [{}]
        if not ds:
            # what was in the other map of the same account (an entry lives in one of the two)
            f = lin(new)
            for fa in e.facts:
                if fa.op == 'V' and fa.a[1] in ('Some', 'None') and fa.a[0].op == 'call' and fa.a[0].a[0] in ('HashMap::remove',) and fa.a[0].a[1][1] is token:
                    ds = [f]
                    break
        if not ds and absent(I, e, mp, token):
            ds = [lin(new)]
        if not ds:
            bad(I, e, 'token-write')
            return
        d = ds[0]
        leg = {x: n for x, n in d.items() if legacy_payload(x, token)}
        d = {x: n for x, n in d.items() if x not in leg}
        leg = {x: n for x, n in leg.items() if owner_of(I, ledger.payload_call(x).a[1][0])}
        tok_note(I, e, st, token, d, own)
        if own and all(is_c(o[1]) for o in own):
            # the per-call virtual account
            st.may = frozenset(a | {mk('dirty', 'va', o[1], mk('none')) for o in own} for a in st.may)
        book(I, st, ('leg', token) + canon(own), leg, e)
        book(I, st, ('tok', token), d, e)
    elif op == 'remove':
        token = e.args[1]
        x = mk('proj', mk('as', e.ret, 'Some'), 0)
        m = mp
        if m.op == 'after' and m.a[0].endswith('::insert') and m.a[1] == 0 and m.a[2][1] is token:
            d = {k: -v for k, v in lin(m.a[2][2]).items()}
        else:
            d = {x: -1}
        if n.startswith('HashMap::'):
            if not own:
                return        # a map made here: there was nothing in it
            # leaves the legacy map of this account
            book(I, st, ('leg', token) + canon(own), d, e)
            return
        tok_note(I, e, st, token, d, own)
        book(I, st, ('tok', token), d, e)
    else:
        bad(I, e, 'token-' + op)


def canon(own):
    return tuple(sorted(own, key=repr))


def legacy_payload(x, token):
    c = ledger.payload_call(x)
    return c is not None and c.a[0] == 'HashMap::remove' and c.a[1][1] is token


def absent(I, e, mp, token):
    """no entry for the token in this map"""
    f = e.facts
    return any(mk('V', mk('call', n, (mp, token)), 'None') in f for n in ('UnorderedMap::get', 'HashMap::get', 'HashMap::get_mut'))


def registration(I, e):
    """inserting zero for a token that has no balance entry"""
    token = e.args[1]
    for f in e.facts:
        if f.op == 'V' and f.a[1] == 'None' and any(x.op == 'call' and x.a[0] in ('UnorderedMap::get',) and x.a[1][1] is token for x in ledger.may_be(I, f.a[0])):
            return True
    return absent(I, e, e.args[0], token)


def token_write(I, st, loc, v):
    """through a reference into the legacy balances"""
    base = loc[0]
    if base[0] != 'D' or loc[1]:
        return
    t = base[1]
    c = ledger.payload_call(t) or (t if t.op == 'call' else None)
    if c is None or c.a[0] not in ('HashMap::get_mut', 'HashMap::entry', 'Entry::or_insert'):
        return
    m = c.a[1][0]
    if not (m.op == 'proj' and m.a[1] == 'legacy_tokens' or any(x.op == 'proj' and x.a[1] == 'legacy_tokens' for x in ledger.may_be(I, m))):
        return
    token = c.a[1][1]
    old = I.val(st, I.read(st, loc))
    new = I.val(st, v)
    f = sub_lin(lin(new), lin(old))
    own = owner_of(I, m)
    if token is PRED and any(n == 1 and x.op == 'proj' and x.a[1] == 'amount' for x, n in f.items()):
        # a token contract called: what it transferred is booked in
        st.may = frozenset((a - {mk('got', 1)}) | {mk('got', 2 if mk('got', 1) in a or mk('got', 2) in a else 1)} for a in st.may)
    st.facts = st.facts | {mk('E', '#tok', (token, tuple(sorted(((n, x) for x, n in f.items()), key=lambda z: z[1].id)), tuple(sorted(own, key=repr))))}
    book(I, st, ('tok', token), f, None)


def is_pool_swap(e):
    """a call of the pool dispatcher that swaps: by its types, not by its name"""
    it = e.item
    if it is None or len(it.args) != 7:
        return None
    ts = [t.replace(' ', '') for _, t in it.args]
    if not (ts[0].startswith('&mut') and ts[0].endswith('pool::Pool') and ts[2] == 'u128' and ts[6] == 'bool'):
        return None
    if ts[4] == 'u128':
        return 'in'
    if 'Option<u128>' in ts[4]:
        return 'out'
    return None


def on_pool(e):
    """a call on a pool record, mutable: by its types"""
    it = e.item
    return it is not None and it.args and it.args[0][1].replace(' ', '').startswith('&mut') and it.args[0][1].replace(' ', '').endswith('pool::Pool')


def pool_call(I, e, st, val):
    if on_pool(e):
        vs = set(e.args[1:]) | {I.val(st, val)}
        for l in e.locs[1:]:
            if l is not None:
                vs.add(I.read(st, l))
        I.__dict__.setdefault('pool_calls', {})[(e.ctx, e.bb)] = (e, vs)
        after = [I.read(st, l) if l is not None else None for l in e.locs[1:]]
        I.__dict__.setdefault('pool_val', {})[(e.ctx, e.bb)] = I.val(st, I.read(st, e.locs[0])) if e.locs[0] is not None else None
        I.__dict__.setdefault('pool_after', {})[(e.ctx, e.bb)] = (st.facts, st.may, I.val(st, val), after)
        if any(is_c(a) and cval(a) is True for a in e.args[1:]):
            # a trial run on a copy (is_view): the copy is not meant to be written back
            had = {f for a in e.may for f in a if f.op == 'dirty'}
            st.may = frozenset(frozenset(f for f in a if f.op != 'dirty' or f.a[0] != 'pool' or f in had) for a in st.may)
    elif e.item.args and re.search(r'&mut .*\b(RatedSwapPool|DegenSwapPool)$', e.item.args[0][1].strip()):
        I.__dict__.setdefault('kind_calls', {})[(e.ctx, e.bb)] = (e, st.facts, st.may, I.val(st, I.read(st, e.locs[0])) if e.locs[0] is not None else None)
    k = is_pool_swap(e)
    if not k:
        return
    if is_c(e.args[6]) and cval(e.args[6]) is True:
        return
    tin, a, tout = e.args[1], e.args[2], e.args[3]
    ret = I.val(st, val)
    I.__dict__.setdefault('pool_swaps', {})[(e.ctx, e.bb)] = e
    gain, cost = (a, ret) if k == 'in' else (ret, a)
    book(I, st, ('tok', tin), lin(gain), e)
    book(I, st, ('tok', tout), {x: -n for x, n in lin(cost).items()}, e)


SENDS = {'ext_fungible_token::ft_transfer': (0, 1, 3), 'ext_fungible_token::ft_transfer_call': (0, 1, 4), 'ext_wrap_near::near_withdraw': (None, 0, 1)}


def send_of(e):
    """(receiver, amount, token) of an outgoing token transfer"""
    s = SENDS.get(e.name)
    if s is None:
        return None
    return tuple(e.args[i] if i is not None else None for i in s)


def send_call(I, e, st):
    s = send_of(e)
    if s is None:
        return
    I.__dict__.setdefault('sends', {})[(e.ctx, e.bb)] = e
    book(I, st, ('tok', s[2]), lin(s[1]), e)


# ---------------------------------------------------------------- loaded records that must be written back
POOLS = ('SimplePool', 'StableSwapPool', 'RatedSwapPool', 'DegenSwapPool', 'Pool')
ACCOUNTS_ = mk('proj', SELF, 'accounts')
POOLS_ = mk('proj', SELF, 'pools')
TYPES = {'Account': 'acct', 'VersionedFarmer': 'farmer', 'Farmer': 'farmer', 'VersionedFarmSeed': 'seed', 'FarmSeed': 'seed', 'Farm': 'farm', 'SimpleFarm': 'farm'}
TYPES.update((p, 'pool') for p in POOLS)
_FD = mk('proj', mk('as', mk('proj', SELF, 'data'), 'V0110'), 0)
RECORDS = {ACCOUNTS_: 'acct', POOLS_: 'pool', mk('proj', _FD, 'farmers'): 'farmer', mk('proj', _FD, 'seeds'): 'seed', mk('proj', _FD, 'farms'): 'farm',
           mk('proj', _FD, 'outdated_farms'): 'old', mk('proj', _FD, 'reward_info'): 'info'}


def coll_kind(I, t, depth=0, seen=None):
    """which collection of the contract a term is a version of"""
    seen = set() if seen is None else seen
    out = set()
    while True:
        if t in seen:
            return out
        seen.add(t)
        if t in RECORDS:
            out.add(RECORDS[t])
            return out
        if t.op == 'after':
            t = t.a[2][t.a[1]]
        elif t.op == 'mutvia':
            t = t.a[0]
        elif t.op == 'phi':
            for (o, pf, b) in (I.phi_info.get(t) or {}).values():
                out |= coll_kind(I, o, depth, seen)
            return out
        else:
            for m in leaves(I, t):
                if m in RECORDS:
                    out.add(RECORDS[m])
            return out


def local_kind(I, base):
    """is this local an account or a pool record"""
    if base[0] != 'L' or not isinstance(base[2], str) or not base[2].startswith('_'):
        return None
    k = (base[1], base[2])
    memo = I.__dict__.setdefault('_kinds', {})
    if k not in memo:
        it = I.ctx_info[base[1]][2]
        ty = it.body.locals.get(base[2], '') if it is not None and it.body is not None else ''
        n = ty.rsplit('::', 1)[-1]
        memo[k] = TYPES.get(n)
    return memo[k]


def roots(I, v, depth=0):
    """loads (kind, get-call) a record value comes from"""
    out = set()
    for l in leaves(I, v):
        if l.op == 'ctor' and depth < 3:
            # the stored form wraps the record, or an old form was rebuilt field by field
            for x in l.a[2]:
                out |= roots(I, x, depth + 1)
        elif l.op == 'call' and l.a[0] in ('LookupMap::get', 'UnorderedMap::get', 'Vector::get'):
            out |= {(k, l) for k in coll_kind(I, l.a[1][0])}
    return out


def mark(I, st, base, why):
    """the record loaded into this local was changed"""
    kind = local_kind(I, base)
    if kind is None:
        return
    v = I.read(st, (base, ()))
    new = {mk('dirty', k, g.a[1][1], why) for k, g in roots(I, v)}
    if new:
        st.may = frozenset(a | {f for f in new if not any(g.op == 'dirty' and g.a[:2] == f.a[:2] for g in a)} for a in st.may)


COLL = {'insert', 'remove', 'push', 'replace', 'clear', 'extend', 'swap_remove', 'remove_raw', 'insert_raw', 'pop', 'retain', 'drain'}


def record_call(I, e, st):
    n = e.name
    op = n.rsplit('::', 1)[-1]
    if op not in COLL or not e.locs or e.locs[0] is None:
        return
    loc = e.locs[0]
    kinds = coll_kind(I, e.args[0]) if n in ('LookupMap::insert', 'UnorderedMap::insert', 'Vector::replace', 'LookupMap::remove', 'UnorderedMap::remove') else ()
    if kinds:
        for k in kinds:
            if op == 'remove':
                clean(I, e, st, k, e.args[1])
            else:
                save(I, e, st, k, e.args[1], e.args[2])
    elif loc[0][0] == 'L' and loc[1]:
        if n == 'UnorderedMap::remove':
            m = e.args[0]
            if m.op == 'after' and m.a[0] == 'UnorderedMap::insert' and m.a[1] == 0 and m.a[2][1] is e.args[1]:
                # undone at once
                w = m.a[2][0]
                st.may = frozenset(frozenset(f for f in a if not (f.op == 'dirty' and f.a[2] is w)) for a in st.may)
                return
        mark(I, st, loc[0], e.args[0] if n == 'UnorderedMap::insert' else mk('none'))


def save(I, e, st, kind, key, val):
    rs = {g for k, g in roots(I, val) if k == kind}
    stale = [g for g in rs if g.a[1][1] is key and not fresh(I, e.facts, g.a[1][0], e.args[0], key)]
    other = [g for g in rs if g.a[1][1] is not key and not mk('T', eq(g.a[1][1], key)) in e.facts]
    I.__dict__.setdefault('saves', {})[(e.ctx, e.bb)] = (e, kind, key, rs, stale, other)
    clean(I, e, st, kind, key)


def clean(I, e, st, kind, key):
    st.may = frozenset(frozenset(f for f in a if not (f.op == 'dirty' and f.a[0] == kind and f.a[1] is key)) for a in st.may)


def fresh(I, facts, m0, now, key, seen=None):
    """nothing was written for this key between the load (map m0) and now"""
    seen = set() if seen is None else seen
    while now is not m0:
        if now in seen:
            return True
        seen.add(now)
        if now.op == 'after' and now.a[1] == 0:
            k = now.a[2][1] if len(now.a[2]) > 1 else None
            if k is None or not distinct(I, facts, k, key):
                return False
            now = now.a[2][0]
        elif now.op == 'phi':
            info = I.phi_info.get(now)
            return bool(info) and all(fresh(I, facts | pf if not b else facts, m0, o, key, seen) for (o, pf, b) in info.values())
        else:
            return False
    return True


def distinct(I, facts, a, b):
    return mk('F', eq(a, b)) in facts


# ---------------------------------------------------------------- amounts held in local lists and maps
LIST = re.compile(r'Vec<\((?:std::string::String|[\w:]*AccountId), u128\)>')
CACHE = re.compile(r'HashMap<(?:std::string::String|[\w:]*AccountId), u128')


def holder(I, loc):
    """a local list or map of token amounts: 'list', 'cache' or None"""
    if loc is None or loc[0][0] != 'L' or not isinstance(loc[0][2], str) or len(loc[1]) > 1:
        return None
    it = I.ctx_info[loc[0][1]][2]
    ty = it.body.locals.get(loc[0][2], '') if it is not None and it.body is not None else ''
    if ty.endswith('TokenCache') or CACHE.search(ty):
        return 'cache'
    return 'list' if LIST.search(ty) else None


def holder_call(I, e, st):
    n = e.name
    if n == 'Vec::push' and holder(I, e.locs[0]) == 'list':
        v = e.args[1]
        if v.op == 'ctor' and len(v.a[2]) == 2:
            I.__dict__.setdefault('held', {})[(e.ctx, e.bb)] = e
            book(I, st, ('cache', v.a[2][0]), lin(v.a[2][1]), e)
        else:
            bad(I, e, 'token-list')
        return
    if not n.startswith(('HashMap::', 'Entry::')):
        return
    op = n.split('::')[1]
    if n.startswith('HashMap::') and op in ('insert', 'remove', 'clear', 'extend', 'retain', 'drain', 'remove_entry'):
        if holder(I, e.locs[0]) != 'cache':
            return
        I.__dict__.setdefault('held', {})[(e.ctx, e.bb)] = e
        mp = e.args[0]
        if op == 'insert':
            key, new = e.args[1], e.args[2]
            d = None
            if mp.op == 'after' and mp.a[0] == 'HashMap::remove' and mp.a[1] == 0 and mp.a[2][1] is key:
                d = lin(new)         # what was there was booked when it was taken out
            elif absent(I, e, mp, key) or mk('F', mk('call', 'HashMap::contains_key', (mp, key))) in e.facts:
                d = lin(new)
            else:
                ds = deltas(I, e.facts, new, mp, key)
                d = ds[0] if ds else None
            if d is None:
                bad(I, e, 'token-cache')
            else:
                book(I, st, ('cache', key), d, e)
        elif op == 'remove':
            book(I, st, ('cache', e.args[1]), {mk('proj', mk('as', e.ret, 'Some'), 0): -1}, e)
        else:
            bad(I, e, 'token-cache')
    elif n == 'Entry::or_insert':
        t, k = e.args[0], None
        mod = False
        while t.op == 'call' and t.a[0] == 'Entry::and_modify':
            t, mod = t.a[1][0], True
        if t.op != 'call' or t.a[0] != 'HashMap::entry' or not cache_term(I, t):
            return
        I.__dict__.setdefault('held', {})[(e.ctx, e.bb)] = e
        ws = I.__dict__.get('entry_writes', {}).get(t, [])
        f = lin(e.args[1])
        if mod and (not ws or any(w != f for w in ws)):
            bad(I, e, 'token-cache')
        else:
            book(I, st, ('cache', t.a[1][1]), f, e)


def cache_term(I, t):
    """entry(map, token) of a local cache: seen when it was made"""
    for ev in I.events.values():
        if ev.kind == 'call' and ev.ret is t and holder(I, ev.locs[0]) == 'cache':
            return True
    return False


def entry_write(I, st, loc, v):
    base = loc[0]
    if base[0] != 'D' or loc[1]:
        return
    t = base[1]
    if t.op == 'elem' and t.a[0].op == 'call' and t.a[0].a[0] == 'HashMap::entry':
        ent = t.a[0]
        if cache_term(I, ent):
            f = sub_lin(lin(I.val(st, v)), lin(I.val(st, I.read(st, loc))))
            ws = I.__dict__.setdefault('entry_writes', {}).setdefault(ent, [])
            if f not in ws:
                ws.append(f)
    elif t.op == 'call' and t.a[0] in ('Entry::or_insert', 'Entry::or_default'):
        ent = t.a[1][0]
        if ent.op == 'call' and ent.a[0] == 'HashMap::entry' and cache_term(I, ent):
            f = sub_lin(lin(I.val(st, v)), lin(I.val(st, I.read(st, loc))))
            book(I, st, ('cache', ent.a[1][1]), f, None)


import nearbooks  # noqa: E402


def twap(key):
    """the record of the price per share of the pool, if it keeps one, is up to date"""
    return mk('E', 'twap', (key,))


def twap_derive(I, out):
    """a pool without a record, or with too few shares, has nothing to bring up to date"""
    new = set()
    for f in out:
        t = f.a[0] if f.op in ('V', 'NV', 'T', 'F') else None
        if t is None:
            continue
        if f.op in ('V', 'NV'):
            if f.a[1] == ('None' if f.op == 'V' else 'Some') and t.op == 'call' and t.a[0] == 'UnorderedMap::get' and named(I, t.a[1][0], 'unit_share_cumulative_infos'):
                new.add(twap(t.a[1][1]))
        elif t.op == 'bin' and t.a[0] in ('Lt', 'Le'):
            one, tot = t.a[1:] if f.op == 'F' else t.a[1:][::-1]
            if one.op == 'call' and one.a[0].endswith('::pow') and is_c(one.a[1][0]) and cval(one.a[1][0]) == 10 and not arith(one.a[1][1]) and (f.op == 'F' or t.a[0] == 'Le'):
                keys = pool_keys(I, tot)
                if len(keys) == 1:
                    new.add(twap(keys.pop()))
    return new


def arith(t):
    while t.op == 'cast':
        t = t.a[1]
    return t.op == 'bin'


def named(I, t, field, depth=12):
    """t is a version of the collection kept in the field"""
    while depth:
        depth -= 1
        if t.op == 'after':
            t = t.a[2][t.a[1]]
        elif t.op == 'mutvia':
            t = t.a[0]
        elif t.op == 'phi':
            if t.a[3] and t.a[3][-1] == field:
                return True
            ent = [o for o, _, b in (I.phi_info.get(t) or {}).values() if not b]
            if not ent:
                return False
            t = ent[0]
        else:
            return t.op == 'proj' and t.a[1] == field
    return False


def pool_keys(I, t):
    """the keys of the pools a term is computed from"""
    out, seen, todo = set(), set(), [t]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if s.op == 'call' and s.a[0] == 'Vector::get' and named(I, s.a[1][0], 'pools'):
            out.add(s.a[1][1])
        elif s.op == 'phi':
            todo += [o for o, _, _ in I.phi_info.get(s, {}).values()]
        else:
            todo += children(s)
    return out


def children(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif hasattr(x, 'op'):
            yield x


def exchange_call(I, e, st, args, val, dest, ctx):
    if e.kind != 'call':
        return
    if e.name == 'UnorderedMap::insert' and last(e.locs[0]) == 'unit_share_cumulative_infos':
        st.facts = st.facts | {twap(e.args[1])}
    nt = I.cfg.get('note')
    if nt is not None:
        for f in nt(I, e, st, val):
            st.may = frozenset(a | {f} for a in st.may)
    if e.item is not None and not e.name.startswith('ext_'):
        pool_call(I, e, st, val)
        return
    record_call(I, e, st)
    share_call(I, e, st, args, val, dest, ctx)
    token_call(I, e, st, args, val, dest, ctx)
    holder_call(I, e, st)
    send_call(I, e, st)
    nearbooks.near_call(I, e, st)


def exchange_write(I, st, loc, v, stmt):
    if loc[1]:
        if loc[0][0] == 'L':
            if stmt[0] == 'assign' and stmt[2][0] == 'use' and I.val(st, I.read(st, loc)) is I.val(st, v):
                pass
            else:
                mark(I, st, loc[0], mk('none'))
        share_write(I, st, loc, v, stmt)
    elif loc[0][0] == 'D':
        token_write(I, st, loc, v)
        entry_write(I, st, loc, v)

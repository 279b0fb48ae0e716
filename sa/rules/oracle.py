"""Rates and prices from oracles: who sets them, and what they may be used for."""
from framework import Rule
from auth import PRIV
from base import *  # noqa
import books
import tokens
import re
from query import *  # noqa

KINDS = {'RatedSwapPool': 'rate', 'DegenSwapPool': 'price'}
DAY = 24 * 3600 * 10 ** 9


def outermost(I, calls):
    """the sites of calls that are not made on behalf of another of them"""
    out = []
    for (ctx, bb) in calls:
        c, inner = ctx, False
        while c in I.ctx_info and I.ctx_info[c][0] is not None:
            p, pbb = I.ctx_info[c][:2]
            if (p, pbb) in calls:
                inner = True
                break
            c = p
        if not inner:
            out.append((ctx, bb))
    return out


def callers(I, ctx):
    while ctx in I.ctx_info and I.ctx_info[ctx][0] is not None:
        yield tuple(I.ctx_info[ctx][:2])
        ctx = I.ctx_info[ctx][0]


def cases(I, facts, t, truth=True, depth=8):
    """fact sets under which t is truth, one per way it came about (None where they are not known)"""
    if t.op == 'phi' and depth:
        info = I.phi_info.get(t)
        if not info or any(b for _, _, b in info.values()):
            yield None
            return
        for o, pf, b in info.values():
            if is_c(o):
                if cval(o) is truth or cval(o) == truth:
                    yield facts | pf
                continue
            for c in cases(I, facts | pf, o, truth, depth - 1):
                yield c
        return
    if t.op == 'un' and t.a[0] == 'Not':
        yield from cases(I, facts, t.a[1], not truth, depth)
        return
    yield I.assume(facts, t, truth) if True else None


def record(t):
    """the (map, key) terms of HashMap::get(map, key) that t is read from"""
    return [s for s in subterms(t) if s.op == 'call' and s.a[0].endswith('HashMap::get') and len(s.a[1]) == 2]


def element_of(I, k, src):
    """k speaks of the element a loop over src is at"""
    for s in subterms(k):
        if s.op == 'bound' and s.a[0] is src:
            return True
        if s.op == 'phi' and any(o is src for o, _, b in I.phi_info.get(s, {}).values() if not b):
            return True
    return False


def none(f, t):
    return mk('V', t, 'None') in f or mk('NV', t, 'Some') in f


def fresh_case(I, f, src, kind):
    """facts f establish that the rate or price of the element of src is not needed or not expired"""
    for g in f:
        if g.op in ('V', 'NV') and kind == 'RatedSwapPool':
            t = g.a[0]
            if t.op == 'call' and t.a[0].endswith('HashMap::get') and none(f, t) and element_of(I, t.a[1][1], src):
                return True
        if g.op != 'T' or g.a[0].op != 'bin' or g.a[0].a[0] not in ('Le', 'Lt'):
            continue
        _, a, b = g.a[0].a
        if not (a.op == 'call' and a.a[0] == 'env::block_timestamp'):
            continue
        parts = list(b.a[1:]) if b.op == 'bin' and b.a[0] == 'Add' else []
        for u, x in (parts, parts[::-1]) if len(parts) == 2 else ():
            name = fieldname(u)
            if name is None or 'updated' not in name:
                continue
            if not any(element_of(I, r.a[1][1], src) for r in record(u)):
                continue
            if kind == 'RatedSwapPool':
                if is_c(x) and cval(x) <= DAY:
                    return True
            elif fieldname(x) == 'expire_ts' and oracle_kind(x) == oracle_kind(u):
                return True
    return False


def fieldname(t):
    return t.a[1] if t.op == 'proj' and isinstance(t.a[1], str) else None


def oracle_kind(t):
    """the oracle a price record or an oracle's settings are of"""
    return {s.a[1] for s in subterms(t) if s.op == 'as' and s.a[1] in ('PriceOracle', 'PythOracle')}


def all_fresh(I, facts, pool, kind):
    """some fact of facts says of every token of the pool that its rate or price is fresh (or that it has none)"""
    src = mk('iter', I.project(pool, ('token_account_ids',)))
    for f in facts:
        if f.op != 'forall' or f.a[0] is not src:
            continue
        g = f.a[1]
        if g.op not in ('T', 'F'):
            continue
        ok, n = True, 0
        for c in cases(I, frozenset(), g.a[0], g.op == 'T'):
            if c is None:
                continue
            n += 1
            if not fresh_case(I, c, src, kind):
                ok = False
                break
        if ok and n:
            return True
    return False


class Expiry(Rule):
    id = 'O02'
    crates = ('exchange',)
    rule = ('must-hold facts about every token of the pool: wherever a swap, a withdrawal by token amounts or a first provision changes the reserves of a rated or degen pool, a '
            'loop over the tokens of that pool has established of each that it has no rate, or that the block time is at most the time its rate was updated plus a day (rates) or '
            'its price was updated plus the expiry set for that oracle (prices)')
    floors = {'swap': 8, 'withdrawal': 2, 'first': 2}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def check(self, cx):
        I = cx.I
        calls = I.__dict__.get('kind_calls', {})
        changed = {k: c for k, c in calls.items() if c[3] is not None and I.project(c[3], ('c_amounts',)) is not I.project(c[0].args[0], ('c_amounts',))}
        pools = I.__dict__.get('pool_calls', {})
        for k in outermost(I, changed):
            e, facts, may, v = changed[k]
            kind = re.search(r'(RatedSwapPool|DegenSwapPool)', e.item.args[0][1]).group(1)
            pool = e.args[0]
            what = 'the %ss of all tokens of the pool are fresh' % KINDS[kind]
            swaps = [c for c in callers(I, k[0]) if c in pools and books.is_pool_swap(pools[c][0])]
            if swaps:
                cx.ob(all_fresh(I, facts, pool, kind), 'swap-%s' % kind, what + ' when it is traded with', e, count='swap')
            elif cx.name == 'remove_liquidity_by_tokens':
                if 'Vec' in (e.item.ret or ''):
                    continue        # shares for tokens in proportion (here: of a copy, for the books of the price per share)
                cx.ob(all_fresh(I, facts, pool, kind), 'withdraw-%s' % kind, what + ' when tokens are withdrawn unevenly', e, count='withdrawal')
            elif cx.name == 'add_stable_liquidity':
                self.first(cx, e, facts, v, pool, kind, what)

    def first(self, cx, e, facts, v, pool, kind, what):
        I = cx.I
        old = I.project(pool, ('shares_total_supply',))
        empty = [mk('T', mk('bin', 'Eq', C(0), old)), mk('F', mk('bin', 'Lt', C(0), old)), mk('T', mk('bin', 'Le', old, C(0)))]
        found = 0
        for (s,), f in together(I, facts, [I.project(v, ('shares_total_supply',))]):
            for ph in [None] + sorted({x for x in subterms(s) if x.op == 'phi'}, key=lambda x: x.id):
                for ws, g in together(I, f, [ph]) if ph is not None else [((None,), f)]:
                    if any(x in g for x in empty):
                        found += 1
                        cx.ob(all_fresh(I, g, pool, kind), 'first-%s' % kind, what + ' when it gets its first tokens', e)
        if found:
            cx.count('first')


def deep(I, t, seen=None):
    """subterms of t, and of what its joins stand for"""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        for s in subterms(todo.pop()):
            if s in seen:
                continue
            seen.add(s)
            if s.op == 'phi':
                todo += [o for o, _, _ in I.phi_info.get(s, {}).values()]
    return seen


def leaf(f, name, t):
    """T Le/Lt facts with t on the given side -> the other side"""
    for g in f:
        if g.op == 'T' and g.a[0].op == 'bin' and g.a[0].a[0] in ('Le', 'Lt', 'Eq'):
            yield g.a[0].a[0], g.a[0].a[1], g.a[0].a[2]


def now(t):
    return t.op == 'call' and t.a[0] == 'env::block_timestamp'


def nano(t):
    """x of x * 10^9"""
    if t.op == 'bin' and t.a[0] == 'Mul':
        for u, x in (t.a[1:], t.a[1:][::-1]):
            if is_c(u) and cval(u) == 10 ** 9 or u.op == 'call' and u.a[0].endswith('::pow') and [cval(y) for y in u.a[1]] == [10, 9]:
                return x
    return None


def plain(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


def add_parts(t):
    return [plain(x) for x in t.a[1:]] if t is not None and t.op == 'bin' and t.a[0] == 'Add' else []


def comparisons(f):
    for g in f:
        if g.op == 'T' and g.a[0].op == 'bin' and g.a[0].a[0] in ('Le', 'Lt', 'Eq'):
            yield g.a[0].a


def price_source(t):
    """the price report (its prices are a list) a price term is read from, the element of the list, or None"""
    while t.op in ('proj', 'as'):
        if fieldname(t) == 'price':
            return t.a[0]
        t = t.a[0]
    return None


def report_of(I, el):
    """the report an element of its list of prices is read from"""
    for s in deep(I, el):
        if s.op == 'proj' and s.a[1] == 'prices':
            yield s.a[0]


class Prices(Rule):
    id = 'O01'
    crates = ('exchange',)
    rule = ('value numbering and must-hold facts at every write to the rates and prices kept: only in a private callback, only the record that was read under the same token is changed, and only its rate or '
            'price together with the time of the update, which is the block time; the new value comes from a successful promise result; a report of the price oracle is recent enough, not from the future, not '
            'stale, and its price is that of the token; a Pyth price is positive and was published no longer ago than allowed; what is changed is stored before the call returns')
    floors = {'writes': 4, 'reports': 3, 'pyth': 3, 'rates': 3, 'stored': 4}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def check(self, cx):
        I = cx.I
        for e in cx.evs:
            if e.name != 'HashMap::insert' or len(e.args) != 3:
                continue
            lits = [s for s in subterms(e.args[0]) if s.op == 'lit' and re.search(r'Mutex<.*HashMap<.*\b(Rate|Degen)>', str(s.a))]
            if not lits:
                continue
            static = lits[0]
            v, ups = e.args[2], []
            while v.op == 'upd':
                ups.append((v.a[1], v.a[2]))
                v = v.a[0]
            if any(s.op == 'call' and s.a[0] == 'Iterator::next' for s in subterms(v)) and not record(v) and not ups:
                continue        # filled from storage
            rec = record(v) or [r for r in deep(I, v) if r.op == 'call' and r.a[0].endswith('HashMap::get') and static in list(subterms(r))]
            ok = len(rec) == 1 and rec[0].a[1][1] is e.args[1] and static in list(subterms(rec[0].a[1][0]))
            cx.ob(ok, 'own-record', 'the record changed is the one kept for the token', e, count='writes')
            cx.ob(always(I, e.facts, e.may, any_of(PRIV)), 'private-write', 'rates and prices are written only in a callback of the contract itself', e)
            stores = [w for w in cx.evs if w.name == 'env::storage_write' and static in list(subterms(w.args[1]))]
            cx.ob(any(tokens.inevitable(I, (e.ctx, e.bb), (w.ctx, w.bb)) for w in stores), 'stored', 'the rate or price written is stored', e, count='stored')
            if ok:
                self.values(cx, e, v, ups)

    def values(self, cx, e, base, ups):
        I = cx.I
        got = {}
        for path, x in ups[::-1]:
            got[path] = x
        for path in list(got):
            if len(path) != 3 or path[2] not in ('stored_rates', 'rates_updated_at', 'price_info'):
                cx.ob(False, 'other-field', 'an update changes only the rate or price and its time (changed: %s)' % (path,), e)
        for path in sorted(p for p in got if len(p) == 3 and p[2] in ('stored_rates', 'price_info', 'rates_updated_at')):
            if path[2] == 'rates_updated_at':
                cx.ob(path[:2] + ('stored_rates',) in got, 'time-alone', 'the time of an update moves only with the rate', e)
                continue
            tp = path[:2] + ('rates_updated_at',)
            pair = path[2] == 'stored_rates'
            old = I.project(base, path)
            if pair and tp not in got:
                cx.ob(False, 'time', 'a new rate is given the time of the update', e)
                continue
            for vs, f in together(I, e.facts, [got[path], got[tp]] if pair else [got[path]]):
                if mk('NV', base, path[0]) in f:
                    continue
                if vs[0] is old:
                    if pair:
                        cx.ob(vs[1] is I.project(base, tp), 'time-alone', 'the time of an update moves only with the rate', e)
                    continue
                if pair:
                    val, t = vs
                else:
                    info = I.project(I.as_variant(vs[0], 'Some'), (0,)) if hasattr(I, 'as_variant') else I.project(vs[0], ('Some', 0))
                    val, t = I.project(info, ('stored_degen',)), I.project(info, ('degen_updated_at',))
                cx.ob(now(t), 'time', 'a new rate or price is given the block time', e)
                self.value(cx, e, val, f, base, path)

    def value(self, cx, e, val, f, base, path):
        I = cx.I
        src = deep(I, val)
        parsed = [s for s in src if s.op == 'call' and s.a[0].endswith('serde_json::from_slice') and not any(x.op == 'call' and x.a[0] == 'env::input' for x in subterms(s))]
        cx.ob(bool(parsed) and all(self.answer(I, s.a[1][0]) for s in parsed), 'from-promise', 'a new rate or price is what the oracle answered', e, count='rates')
        mult = {s for s in src if s.op == 'proj' and s.a[1] == 'multiplier'}
        pyth = {s for s in src if s.op == 'proj' and s.a[1] == 'expo'}
        pyth |= {s for s in src if s.op == 'proj' and s.a[1] == 'price' and mk('proj', s.a[0], 'expo') in src}
        for m in mult:
            el = price_source(m.a[0])
            if el is None:
                cx.ob(False, 'report', 'the price is one of a report of the oracle', e)
                continue
            reps = set(report_of(I, el))
            cx.ob(bool(reps) and all(self.report_ok(f, r, path) for r in reps), 'report', 'the report used is recent, not from the future and not stale', e, count='reports')
            asset = mk('proj', el, 'asset_id')
            den = self.below(val, m)
            names = ('base_contract_id',) if den else ('contract_id', 'token_id')
            ok = asset is e.args[1] or any(a[0] == 'Eq' and asset in a[1:] and fieldname(a[2] if a[1] is asset else a[1]) in names and base in list(subterms(a[2] if a[1] is asset else a[1]))
                                           for a in comparisons(f))
            cx.ob(ok, 'asset', 'the price used is that of the token', e)
        if len(mult) == 2:
            d = [mk('proj', m.a[0], 'decimals') for m in mult]
            cx.ob(any(a[0] == 'Eq' and set(a[1:]) == set(d) for a in comparisons(f)), 'decimals', 'prices put in proportion have the same decimals', e)
        for q in {s.a[0] for s in pyth}:
            cx.ob(self.pyth_ok(f, q), 'pyth', 'the Pyth price used is positive and not stale', e, count='pyth')

    def answer(self, I, t, depth=8):
        """t is, whichever way it was joined, (part of) a successful promise result"""
        if t.op == 'phi' and depth:
            info = I.phi_info.get(t)
            return bool(info) and all(b or self.answer(I, o, depth - 1) for o, _, b in info.values())
        return any(s.op == 'as' and s.a[1] == 'Successful' or s.op == 'call' and s.a[0].endswith('promise_result_as_success') for s in deep(I, t))

    def below(self, val, m):
        """m is (in) a divisor"""
        return any(s.op == 'call' and s.a[0].rsplit('::', 1)[-1] in ('div', 'checked_div') and m in list(subterms(s.a[1][1])) or s.op == 'bin' and s.a[0] == 'Div' and m in list(subterms(s.a[2])) for s in subterms(val))

    def report_ok(self, f, r, path):
        ts, rc = mk('proj', r, 'timestamp'), mk('proj', r, 'recency_duration_sec')
        past = recent = fresh = False
        for op, a, b in comparisons(f):
            if a is ts and now(b):
                past = True
            if a is rc and fieldname(b) == 'maximum_recency_duration_sec':
                recent = True
            if a.op == 'bin' and a.a[0] == 'Sub' and now(a.a[1]) and a.a[2] is ts and nano(b) is not None and fieldname(plain(nano(b))) == 'maximum_staleness_duration_sec':
                fresh = True
            if now(a) and b.op == 'bin' and b.a[0] == 'Add' and ts in b.a[1:] and any(nano(x) is not None and fieldname(plain(nano(x))) == 'maximum_staleness_duration_sec' for x in b.a[1:]):
                fresh = True
        return past and recent and fresh

    def pyth_ok(self, f, q):
        price, pub = mk('proj', q, 'price'), mk('proj', q, 'publish_time')
        pos = fresh = False
        for op, a, b in comparisons(f):
            if op == 'Lt' and is_c(a) and cval(a) == 0 and (b is price or b.op == 'proj' and b.a[0] is price):
                pos = True
            if op == 'Le' and is_c(a) and cval(a) == 1 and (b is price or b.op == 'proj' and b.a[0] is price):
                pos = True
            if now(a):
                parts = add_parts(nano(b))
                if len(parts) == 2 and pub in parts and any(fieldname(x) == 'pyth_price_valid_duration_sec' for x in parts):
                    fresh = True
        return pos and fresh

"""What a user gets or pays stays within the limits the user gave."""
from framework import Rule
from base import *  # noqa

TRADES = {'swap', 'swap_by_output', 'execute_actions', 'execute_actions_in_va', 'ft_on_transfer'}
LIQ = {'add_liquidity': 'min_amounts', 'add_stable_liquidity': 'min_shares', 'remove_liquidity': 'min_amounts', 'remove_liquidity_by_tokens': 'max_burn_shares'}
LIMITS = {'min_amounts', 'min_shares', 'max_burn_shares', 'min_amount_out', 'max_amount_in'}
SAFE_CALLS = ('Iterator::', 'Option::', 'serde_json::', 'env::input', '[slice]::', 'Vec::iter', 'Into::into', 'From::from', 'IntoIterator::', 'Deref::', 'Index::')


WRAP = {'map', 'unwrap', 'expect', 'iter', 'into_iter', 'next', 'index', 'get', 'enumerate', 'deref', 'as_slice', 'as_ref', 'collect', 'cloned', 'copied', 'to_vec', 'clone', 'into', 'from',
        'borrow', 'rev', 'to_owned', 'first', 'as_deref', 'into_boxed_slice', 'by_ref'}


def limit_of(I, t, names=LIMITS, seen=()):
    """the limit the user gave that t is (unchanged; or an element of it), or None"""
    if t in seen or not hasattr(t, 'op'):
        return None
    seen = seen + (t,)
    if t.op == 'proj':
        if t.a[1] in names:
            return t.a[1]
        if t.a[1] in (0, 1) and t.a[0].op not in ('as', 'phi'):
            z = zipped(I, t.a[0])
            if z is not None:
                return limit_of(I, z.a[1][t.a[1]], names, seen)
        return limit_of(I, t.a[0], names, seen)
    if t.op in ('as', 'iter', 'bound', 'cast', 'mapped', 'optmap', 'after'):
        ys = [y for y in t.a if hasattr(y, 'op')] if t.op != 'after' else [t.a[2][0]]
        for y in ys:
            r = limit_of(I, y, names, seen)
            if r:
                return r
        return None
    if t.op == 'arg' and t.a and t.a[-1] in names:
        return t.a[-1]
    if t.op == 'call':
        if t.a[0].rsplit('::', 1)[-1] in WRAP and t.a[1]:
            return limit_of(I, t.a[1][0], names, seen)
        return None
    if t.op == 'phi':
        got = set()
        for (o, pf, bk) in (I.phi_info.get(t) or {}).values():
            if bk or o.op == 'ctor' and o.a[0].endswith('None'):
                continue
            got.add(limit_of(I, o, names, seen))
        return got.pop() if len(got) == 1 else None
    return None


def zipped(I, t):
    """the call of zip whose element t is"""
    for x in deep_args(I, t):
        if x.op == 'call' and x.a[0] == 'Iterator::zip':
            return x
    return None


def deep_args(I, t):
    """subterms of t, not entering the iterators' positions nor the message itself"""
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == 'proj' and x.a[1] in LIMITS:
            continue
        if x.op == 'phi':
            for (o, pf, b) in (I.phi_info.get(x) or {}).values():
                stack.append(o)
        for y in x.a:
            flat(stack, y)
    return out


def flat(stack, y):
    if hasattr(y, 'op'):
        stack.append(y)
    elif isinstance(y, (tuple, list)):
        for z in y:
            flat(stack, z)


def les(facts):
    """(a, b) known a <= b"""
    out = []
    for f in facts:
        if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
            a, b = f.a[0].a[1], f.a[0].a[2]
            out.append((a, b) if f.op == 'T' else (b, a))
        elif f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq':
            out += [(f.a[0].a[1], f.a[0].a[2]), (f.a[0].a[2], f.a[0].a[1])]
    return out


def written(I, o, ph):
    """the element values one round of a loop leaves in the vector ph (last write per position)"""
    out = {}
    t = o
    while t is not ph and hasattr(t, 'op'):
        if t.op == 'upd':
            out.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        elif t.op == 'call' and t.a[1] and t.a[0].startswith('after[') and len(t.a[1]) == 2:
            out[('push', len(out))] = t.a[1][1]
            t = t.a[1][0]
        elif t.op == 'after':
            args = [y for y in t.a if isinstance(y, (tuple, list))]
            args = list(args[-1]) if args else [y for y in t.a if hasattr(y, 'op')]
            out[('push', len(out))] = args[-1]
            t = args[0]
        else:
            return None
    return list(out.values())


class Slippage(Rule):
    id = 'X01'
    rule = ('must-hold path facts at the end of every pool operation: the amount the pool returns is compared with the limit field of the very request, unchanged, and the call '
            'does not complete otherwise; for vectors of amounts, every round of the loop that fills them in makes the comparison')
    floors = {'swap limits': 8, 'liquidity limits': 4}

    def select(self, P, crate, name):
        return name in TRADES or name in LIQ

    def required(self, crate):
        return sorted(TRADES | set(LIQ))

    def check(self, cx):
        I = cx.I
        calls = I.__dict__.get('pool_calls', {})
        after = I.__dict__.get('pool_after', {})
        for k, (e, vs) in calls.items():
            if is_c(e.args[-1]) and cval(e.args[-1]) is True:
                continue
            facts, may, ret, vals = after[k]
            kind = books.is_pool_swap(e)
            if kind == 'in':
                cx.ob(self.at_least(cx, e, facts, may, ret, {'min_amount_out'}), 'swap-min', 'the amount swapped out is at least min_amount_out', e, count='swap limits')
            elif kind == 'out':
                cx.ob(self.at_most_opt(cx, e, facts, may, ret), 'swap-max', 'the amount swapped in is at most max_amount_in, if given', e, count='swap limits')
            else:
                self.liquidity(cx, e, facts, may, ret, vals)

    def liquidity(self, cx, e, facts, may, ret, vals):
        I = cx.I
        lim = LIQ.get(cx.name)
        ts = [t.replace(' ', '') for _, t in e.item.args]
        if lim is None:
            lim = 'min_amounts' if any('&mutstd::vec' in t or t.startswith('&mutVec') or '&mut[' in t for t in ts[1:]) else 'min_shares'
        if lim == 'min_shares':
            ok = self.at_least(cx, e, facts, may, ret, {'min_shares'})
        elif lim == 'max_burn_shares':
            ok = self.at_least(cx, e, facts, may, ret, {'max_burn_shares'}, most=True)
        elif cx.name == 'remove_liquidity':
            ok = self.each(cx, e, facts, ret)
        else:
            ok = self.each_of(cx, e)
        cx.ob(ok, 'limit-%s' % lim, 'what the pool gives or takes respects %s' % lim, e, count='liquidity limits')

    def later(self, cx, e):
        """facts by the time the changed pool is stored, or the call returns"""
        for (v, kind, key, rs, stale, other) in cx.I.__dict__.get('saves', {}).values():
            if v.seq > e.seq:
                yield v.facts
        yield cx.facts

    def at_least(self, cx, e, facts, may, ret, names, most=False):
        I = cx.I

        def met(fs, x):
            for a, b in les(fs):
                if most:
                    a, b = b, a
                if strip(b) is strip(x) and limit_of(I, a, names):
                    return True
            return False
        rs = resolve(I, facts, ret)
        if rs and all(met(f, x) or met(f, ret) for x, f in rs):
            return True
        if any(met(fs, ret) for fs in self.later(cx, e)):
            return True
        return False

    def at_most_opt(self, cx, e, facts, may, ret):
        I = cx.I
        leaves = [x for x, f in resolve(I, facts, ret)]

        def met(fs):
            for f in fs:
                if f.op == 'V' and f.a[1] == 'None' and limit_of(I, f.a[0], {'max_amount_in'}):
                    return True
            return any(limit_of(I, b, {'max_amount_in'}) and any(strip(a) is strip(x) for x in leaves + [ret]) for a, b in les(fs))
        return always(I, facts, may, met)

    def each(self, cx, e, facts, ret):
        """every element of the vector returned"""
        I = cx.I
        rs = resolve(I, facts, ret)
        for x, f in rs:
            m = [y for y in subterms(x) if y.op == 'mapped']
            if x.op == 'call' and x.a[0] == 'Iterator::collect' and m:
                had = [g.a[1] for g in m[0].a[2] if g.op == 'forall'] if len(m[0].a) > 2 else []
                if any(strip(c) is strip(m[0].a[1]) and limit_of(I, a, {'min_amounts'}) for a, c in les(had)):
                    continue
                return False
            info = I.phi_info.get(x) if x.op == 'phi' else None
            if not info:
                return False
            for (o, pf, b) in info.values():
                if not b:
                    if not (o.op == 'call' and (o.a[0].endswith('from_elem') or o.a[0] in ('Vec::new', 'Vec::with_capacity')) or o.op == 'ctor'):
                        return False
                    continue
                vals = written(I, o, x)
                if not vals:
                    return False
                for y in vals:
                    if not any(strip(c) is strip(y) and limit_of(I, a, {'min_amounts'}) for a, c in les(pf)):
                        return False
        return bool(rs)

    def each_of(self, cx, e):
        """a later loop compares the amounts with the limits, if limits were given"""
        I = cx.I
        for ph, info in I.phi_info.items():
            backs = [pf for (o, pf, b) in info.values() if b]
            first = [(o, pf) for (o, pf, b) in info.values() if not b]
            if not backs or len(first) != 1:
                continue
            o, pf0 = first[0]
            if not all(any(self.pair(I, a, b, ph, o) for a, b in les(pf)) for pf in backs):
                continue
            # reached whenever limits were given
            base = cx.facts | e.facts
            extra = [f for f in pf0 if f not in base and f.op in ('T', 'F', 'V', 'NV') and not self.about(I, f)]
            if not [f for f in extra if not self.afterwards(cx, e, f)]:
                return True
        return False

    def pair(self, I, a, b, ph, first):
        """a is the limit for b in this round"""
        def elem(t):
            return any(x.op == 'call' and x.a[0] == 'Iterator::next' and x.a[1][0] is ph for x in subterms(t))
        if not (elem(a) and elem(b)) or a is b:
            return False
        if limit_of(I, a, {'min_amounts'}):
            return True
        zs = [x for x in subterms(first) if x.op == 'call' and x.a[0] == 'Iterator::zip']
        return any(a.op == 'proj' and a.a[1] == i and limit_of(I, z.a[1][i], {'min_amounts'}) and limit_of(I, z.a[1][1 - i], {'min_amounts'}) is None for z in zs for i in (0, 1))

    def about(self, I, f):
        return any(x.op == 'proj' and x.a[1] == 'min_amounts' for x in subterms(f.a[0])) or f.a[0].op == 'discr' and any(
            x.op == 'proj' and x.a[1] == 'min_amounts' for x in subterms(f.a[0]))

    def afterwards(self, cx, e, f):
        """holds after the pool operation on every path"""
        facts = cx.I.pool_after[(e.ctx, e.bb)][0]
        return f in facts

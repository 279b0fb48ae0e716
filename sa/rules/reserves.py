"""The reserves a pool records follow the tokens that go in and out."""
from framework import Rule
from base import *  # noqa
from slippage import les, written

FIELD = {'SimplePool': 'amounts', 'StableSwapPool': 'c_amounts', 'RatedSwapPool': 'c_amounts', 'DegenSwapPool': 'c_amounts'}
RATE = 10 ** 24
RATED = ('RatedSwapPool', 'DegenSwapPool')


def arith_call(t):
    """(name, args) of (f(..) as Some).0 or f(..), or None"""
    x = t
    if x.op == 'proj' and x.a[0].op == 'as' and x.a[0].a[1] == 'Some':
        x = x.a[0].a[0]
    if x.op == 'call':
        return x.a[0].rsplit('::', 1)[-1], x.a[1]
    return None


def elem(t):
    """an element of a vector that another position was written of, is the element as before"""
    while t.op == 'proj' and hasattr(t.a[1], 'op') and t.a[0].op == 'upd' and len(t.a[0].a[1]) == 1 and isinstance(t.a[0].a[1][0], tuple):
        t = t.a[0].a[2] if t.a[0].a[1][0][1] is t.a[1] else mk('proj', t.a[0].a[0], t.a[1])
    return t


def rate_of(t):
    """what a conversion by a rate (precision 10^24) converts"""
    if t.op == 'call' and t.a[0].endswith('::as_u128') and t.a[1][0].op == 'call' and t.a[1][0].a[0].endswith('::div'):
        m, by = t.a[1][0].a[1]
        if m.op == 'call' and m.a[0].endswith('::mul'):
            x, y = m.a[1]
            if is_c(by) and cval(by) == RATE or is_c(y) and cval(y) == RATE:
                return x
            if is_c(x) and cval(x) == RATE:
                return y
    return None


def rated_elem(t):
    """an element of a vector made by converting each element of another: the element converted"""
    if t.op != 'proj' or not hasattr(t.a[1], 'op') or t.a[0].op != 'call' or t.a[0].a[0] != 'Iterator::collect':
        return None
    s = t.a[0].a[1][0]
    s = s.a[0] if s.op == 'iter' else s
    if s.op != 'mapped' or rate_of(s.a[1]) is None:
        return None
    y, ks = rate_of(s.a[1]), []
    while y.op == 'proj' and y.a[0].op == 'proj':
        ks.append(y.a[1])
        y = y.a[0]
    if not (y.op == 'proj' and y.a[0].op == 'as' and y.a[0].a[0].op == 'call' and y.a[0].a[0].a[0] == 'Iterator::next'):
        return None
    src = s.a[0]
    src = src.a[0] if src.op == 'iter' else src
    for k in reversed(ks):
        if src.op == 'call' and src.a[0] == 'Iterator::zip' and k in (0, 1):
            src = src.a[1][k]
            src = src.a[0] if src.op == 'iter' else src
        else:
            return None
    return mk('proj', src, t.a[1])


def line(t, n=1, out=None, rated=False):
    """linear form, checked additions included; rated: up to conversions by rates"""
    out = {} if out is None else out
    t = elem(t)
    c = arith_call(t)
    if rated and rate_of(t) is not None:
        return line(rate_of(t), n, out, True)
    if rated and rated_elem(t) is not None:
        return line(rated_elem(t), n, out, True)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        line(t.a[1], n, out, rated)
        line(t.a[2], n if t.a[0] == 'Add' else -n, out, rated)
    elif c and c[0] in ('checked_add', 'checked_sub', 'add', 'sub') and len(c[1]) == 2:
        line(c[1][0], n, out, rated)
        line(c[1][1], n if c[0].endswith('add') else -n, out, rated)
    elif is_c(t) and isinstance(cval(t), int):
        out[None] = out.get(None, 0) + n * cval(t)
    else:
        out[t] = out.get(t, 0) + n
    return out


def minus(f, g):
    out = dict(f)
    for k, n in g.items():
        out[k] = out.get(k, 0) - n
    return {k: n for k, n in out.items() if n}


def pow10(t):
    return any(x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('checked_pow', 'pow') and is_c(x.a[1][0]) and cval(x.a[1][0]) == 10 for x in subterms(t))


def shift(t, up):
    """(direction, position) of a conversion between the precision of a token and of the pool; up: by multiplication.
    The position is that of the decimals used, True when it cannot be told"""
    for p in subterms(t):
        if p.op == 'call' and p.a[0].rsplit('::', 1)[-1] in ('checked_pow', 'pow') and is_c(p.a[1][0]) and cval(p.a[1][0]) == 10:
            e = p.a[1][1]
            while e.op in ('cast', 'as') or arith_call(e) and arith_call(e)[0] in ('unwrap', 'into', 'from', 'deref'):
                e = e.a[0] if e.op in ('cast', 'as') else arith_call(e)[1][0]
            c = arith_call(e)
            sides = (e.a[1], e.a[2]) if e.op == 'bin' and e.a[0] == 'Sub' else c[1] if c and c[0] in ('sub', 'checked_sub', 'saturating_sub', 'wrapping_sub') else None
            if not sides:
                return 0, True
            at_ = next((x for x in subterms(e) if x.op == 'proj' and hasattr(x.a[1], 'op') or x.op == 'call' and x.a[0].endswith('::get') and len(x.a[1]) == 2), None)
            pos = True if at_ is None else at_.a[1] if at_.op == 'proj' else at_.a[1][1]
            if is_c(sides[0]) == is_c(sides[1]):
                return 0, True
            return (1 if is_c(sides[0]) == up else -1), pos
    return 0, True


def conv(I, facts, t, depth=6):
    """[(amount behind unit conversions, conversions)]"""
    out = []

    def more(f, x, s):
        out.extend((c, (s,) + n) for c, n in conv(I, f, x, depth - 1))
    for x, f in resolve(I, facts, t, 30):
        x = elem(x)
        c = arith_call(x)
        if x.op == 'bin' and x.a[0] in ('Mul', 'Div') and pow10(x.a[2]) and depth:
            more(f, x.a[1], shift(x.a[2], x.a[0] == 'Mul'))
        elif c and c[0] in ('checked_mul', 'checked_div') and pow10(c[1][1]) and depth:
            more(f, c[1][0], shift(c[1][1], c[0] == 'checked_mul'))
        elif x.op == 'proj' and hasattr(x.a[1], 'op') and x.a[0].op == 'call' and not x.a[0].a[0].startswith(('Iterator::', 'Vec::', 'vec::')) and depth:
            # a conversion of the whole vector
            vs = [a for a in x.a[0].a[1] if not is_pool(a)]
            if len(vs) == 1:
                more(f, I.project(vs[0], (('i', x.a[1]),)), (0, True))
            else:
                out.append((x, ()))
        else:
            out.append((x, ()))
    return out


def core(I, facts, t, depth=6):
    """the amounts behind unit conversions"""
    return [c for c, n in conv(I, facts, t, depth)]


def precise(booked, paid, i):
    """what is booked is what is paid, in the precision of the pool, with the decimals of the token at position i"""
    if {strip(c) for c, _ in booked} != {strip(c) for c, _ in paid}:
        return False
    for c, n in booked:
        for c2, n2 in paid:
            if strip(c) is not strip(c2):
                continue
            ss = list(n) + [(-d, p) for d, p in n2]
            if any(p is not True and strip(p) is not strip(i) for d, p in ss):
                return False
            if not any(p is True for d, p in ss) and sum(d for d, p in ss) != 1:
                return False
            if not ss:
                return False
    return True


def is_pool(t):
    return t.op == 'as' or t.op == 'proj' and t.a[1] == 0 and t.a[0].op == 'as' or t.op == 'upd' and is_pool(t.a[0])


LEAST = {'StableSwapPool': 10 ** 15, 'RatedSwapPool': 10 ** 21, 'DegenSwapPool': 10 ** 21}


def pool_ops(cx):
    """(event, kind, reserves after, before, value returned, vector of amounts, facts) of the pool operations that change reserves"""
    I = cx.I
    for k, (e, vs) in I.__dict__.get('pool_calls', {}).items():
        if is_c(e.args[-1]) and cval(e.args[-1]) is True or I.pool_val.get(k) is None:
            continue
        facts, may, ret, after = I.pool_after[k]
        pool, old = I.pool_val[k], e.args[0]
        for kind, fld in FIELD.items():
            if I.variant_of(old) not in (None, kind):
                continue
            v0 = I.project(old, (kind, 0, fld))
            for (v, r, a), f in together(I, facts, [I.project(pool, (kind, 0, fld)), ret, vec_of(e, after)]):
                if mk('NV', old, kind) in f and v is not v0:
                    continue
                yield e, kind, v, v0, r, a, f


def vec_of(e, after):
    """the vector of amounts handed to the operation, as it is afterwards"""
    for (n, t), a, l in zip(e.item.args[1:], e.args[1:], after):
        t = t.replace(' ', '')
        if t.startswith('&mut') and 'u128' in t and ('Vec' in t or '[' in t) and l is not None:
            return l
    for (n, t), a in zip(e.item.args[1:], e.args[1:]):
        t = t.replace(' ', '')
        if 'u128' in t and ('Vec' in t or '[' in t):
            return a
    return mk('none')


def chain(v, base):
    """[(index, value)] written to the vector since base, last write first"""
    out = []
    t = v
    while t is not base:
        if t.op != 'upd' or len(t.a[1]) != 1 or not isinstance(t.a[1][0], tuple):
            return None
        out.append((t.a[1][0], t.a[2]))
        t = t.a[0]
    return out


def at(i, tok):
    """the position is that of the token"""
    return any(strip(x) is strip(tok) for j in i for x in (subterms(j) if hasattr(j, 'op') else ()))


class Reserves(Rule):
    id = 'R01'
    rule = ('at the end of every pool operation, for each kind of pool: the recorded reserve of a token changed by exactly the amount the operation takes from or hands to the caller '
            '(in the pool\'s own precision for stable kinds), in the right direction, for the position of that token; on a swap the reserve paid out of shrinks by at least the amount paid')
    floors = {'swaps': 12, 'liquidity': 12}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['swap', 'add_liquidity', 'add_stable_liquidity', 'remove_liquidity', 'remove_liquidity_by_tokens', 'ft_on_transfer', 'execute_actions']

    def check(self, cx):
        I = cx.I
        for e, kind, v, v0, r, a, f in pool_ops(cx):
            if v is v0:
                if mk('V', e.args[0], kind) in f and (e.name.endswith('liquidity') or books.is_pool_swap(e)):
                    cx.viol('still-%s' % kind, 'the operation leaves the reserves as they were', e)
            elif books.is_pool_swap(e):
                self.swap(cx, e, kind, v, v0, r, f)
            else:
                self.liquidity(cx, e, kind, v, v0, r, a, f)

    def swap(self, cx, e, kind, v, v0, ret, facts):
        I = cx.I
        def ln(x):
            return line(x, rated=kind in RATED)
        tin, amount, tout = e.args[1], e.args[2], e.args[3]
        paid_in, paid_out = (amount, ret) if books.is_pool_swap(e) == 'in' else (ret, amount)
        ch = chain(v, v0)
        if not ch:
            cx.ob(False, 'swap-%s' % kind, 'the reserves after a swap are the old ones with two positions changed', e, count='swaps')
            return
        pos = {}
        for i, val in ch:
            pos.setdefault(i, val)
        ins = [i for i in pos if at(i, tin)]
        outs = [i for i in pos if at(i, tout)]
        cx.ob(len(ins) == 1 and len(outs) == 1 and len(pos) == 2, 'positions-%s' % kind, 'exactly the positions of the two tokens change', e, count='swaps')
        if len(ins) != 1 or len(outs) != 1:
            return
        for w, f in resolve(I, facts, pos[ins[0]], 30):
            d = minus(ln(w), ln(I.project(v0, (ins[0],))))
            ok = kind == 'SimplePool' and d == line(paid_in)
            if not ok and len(d) == 1 and list(d.values()) == [1] and None not in d:
                a, b = conv(I, f, list(d)[0]), conv(I, f, paid_in)
                ok = precise(a, b, ins[0][1]) if kind != 'SimplePool' else {strip(x) for x, n in a if not n} == {strip(x) for x, n in b}
            cx.ob(ok, 'in-%s' % kind, 'the reserve of the token taken in grows by what is taken', e, count='swaps')
        for (w, r), f in together(I, facts, [pos[outs[0]], paid_out]):
            for x, g in resolve(I, f, w, 30):
                oks = []
                for y, n in conv(I, g, r) if kind != 'SimplePool' else [(r, ())]:
                    oks.append((kind == 'SimplePool' or precise([(y, ())], [(y, n)], outs[0][1])) and all(n > 0 for n in minus(minus(ln(I.project(v0, (outs[0],))), ln(x)), ln(y)).values()))
                cx.ob(bool(oks) and all(oks), 'out-%s' % kind, 'the reserve of the token paid out shrinks by at least what is paid', e, count='swaps')

    def liquidity(self, cx, e, kind, v, v0, ret, vec, facts):
        I = cx.I
        takes = self.takes(e)
        for x, f in resolve(I, facts, v):
            if x is v0:
                continue
            info = I.phi_info.get(x) if x.op == 'phi' else None
            if not info:
                cx.ob(False, 'loop-%s' % kind, 'each reserve is changed once, in one loop over the tokens', e, count='liquidity')
                continue
            for k, (o, pf, b) in info.items():
                if not b:
                    cx.ob(o is v0, 'base-%s' % kind, 'the reserves change once per operation', e, count='liquidity')
                    continue
                tied = ret if takes == 'ret' else vec
                inner = I.phi_info[tied][k][0] if tied.op == 'phi' and tied.a[:2] == x.a[:2] and set(I.phi_info.get(tied) or {}) == set(info) else None
                for (oo, tt), g in together(I, pf, [o, inner if inner is not None else mk('none')]):
                    self.round(cx, e, kind, takes, oo, x, tied, tt if inner is not None else None, vec, g)

    def round(self, cx, e, kind, takes, o, x, tied, inner, vec, pf):
        """one way through one round of the loop over the reserves"""
        I = cx.I
        ch = chain(o, x)
        if ch is None or len({i for i, _ in ch}) != 1:
            # nothing changes in this round: only when the amount is zero
            cx.ob(ch is not None and not ch and self.zero(pf, vec), 'round-%s' % kind, 'each round of the loop changes the reserve of its token', e, count='liquidity')
            return
        i, val = ch[0]
        d = minus(line(val), line(I.project(x, (i,))))
        other = self.element(I, tied, inner, i)
        sign = -1 if takes in ('ret', 'out') else 1
        ok = False
        if other is not None:
            if kind == 'SimplePool':
                ok = d == {t: sign * n for t, n in line(other).items()}
            elif len(d) == 1 and None not in d and list(d.values()) == [sign]:
                ok = precise(conv(I, pf, list(d)[0]), conv(I, pf, other), i[1])
        cx.ob(ok, 'delta-%s' % kind, 'each reserve changes by what the caller puts in or gets', e, count='liquidity')

    def takes(self, e):
        """'ret': the caller gets the amounts returned; 'out': the amounts asked for; 'in': the caller puts the amounts in"""
        ts = [t.replace(' ', '') for _, t in e.item.args]
        if 'Vec<u128>' in (e.item.ret or '').replace(' ', '') or 'Vec<' in (e.item.ret or '').replace(' ', '') and 'u128' in e.item.ret:
            return 'ret'
        if e.name.rsplit('::', 1)[-1].startswith('remove'):
            return 'out'
        return 'in'

    def element(self, I, vec, inner, i):
        """the element of the vector of amounts that belongs to this round"""
        if inner is None:
            return I.project(vec, (i,))
        t = inner
        while t is not vec:
            if t.op == 'upd' and t.a[1] == (i,):
                return t.a[2]
            if t.op == 'upd':
                t = t.a[0]
            elif t.op == 'after':
                return t.a[2][1]
            else:
                return None
        return I.project(vec, (i,))

    def zero(self, pf, vec):
        """the facts of the round say that the amount of its token is zero"""
        for f in pf:
            if f.op not in ('T', 'F') or f.a[0].op != 'bin':
                continue
            o, a, b = f.a[0].a
            x = None
            if f.op == 'F' and o == 'Lt' and is_c(a) and cval(a) == 0:
                x = b
            elif f.op == 'T' and o in ('Eq', 'Le') and is_c(b) and cval(b) == 0:
                x = a
            elif f.op == 'T' and o == 'Eq' and is_c(a) and cval(a) == 0:
                x = b
            if x is not None and x.op == 'proj' and hasattr(x.a[1], 'op') and (x.a[0] is vec or x.a[0].op == 'call' and vec in x.a[0].a[1]):
                return True
        return False


class Floors(Rule):
    id = 'R02'
    rule = ('must-hold path facts at the end of every pool operation: after a swap in a simple pool the product of the two reserves (or its root) was compared with the one before and is not smaller; '
            'wherever a stable, rated or degen pool pays out, the reserve left of that token was compared with the minimum reserve')
    floors = {'products': 5, 'minimums': 8}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['swap', 'remove_liquidity', 'remove_liquidity_by_tokens', 'ft_on_transfer', 'execute_actions']

    def check(self, cx):
        I = cx.I
        for e, kind, v, v0, r, a, f in pool_ops(cx):
            if v is v0:
                continue
            if books.is_pool_swap(e):
                ch = chain(v, v0) or []
                if kind == 'SimplePool':
                    pos = {}
                    for i, val in ch:
                        pos.setdefault(i, val)
                    ok = len(pos) == 2 and any(self.product(I, x, {I.project(v0, (i,)) for i in pos}) and self.product(I, y, set(pos.values())) for x, y in les(f))
                    cx.ob(ok, 'product', 'the product of the reserves of a simple pool is not smaller after a swap', e, count='products')
                else:
                    outs = [val for i, val in ch if at(i, e.args[3])]
                    cx.ob(bool(outs) and any(self.least(f | cx.facts, w, kind) for w in outs), 'least-%s' % kind,
                          'a swap leaves at least the minimum reserve of the token paid out', e, count='minimums')
                continue
            if kind == 'SimplePool' or not (Reserves.takes(None, e) in ('ret', 'out')):
                continue
            for x, g in resolve(I, f, v):
                for k, (o, pf, b) in (I.phi_info.get(x) or {}).items():
                    if not b:
                        continue
                    for (oo,), h in together(I, pf, [o]):
                        ch = chain(oo, x)
                        if not ch:
                            continue
                        cx.ob(any(self.least(h, val, kind) for i, val in ch), 'least-%s' % kind,
                              'removing liquidity leaves at least the minimum reserve of each token', e, count='minimums')

    def product(self, I, t, want):
        """t is made from the product of exactly these"""
        for x in subterms(t):
            a = None
            if x.op == 'bin' and x.a[0] == 'Mul':
                a = set(x.a[1:3])
            elif x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('mul', 'checked_mul') and len(x.a[1]) == 2:
                a = set(x.a[1])
            if a and {elem(y) for y in a} == {elem(y) for y in want}:
                return True
        return False

    def least(self, facts, w, kind):
        return any(is_c(a) and isinstance(cval(a), int) and cval(a) >= LEAST[kind] and strip(b) is strip(w) for a, b in les(facts))


def whole(t, n=1, out=None):
    """linear form through conversions between integer types"""
    out = {} if out is None else out
    t = elem(t)
    if rate_of(t) is not None:
        return whole(rate_of(t), n, out)
    c = arith_call(t)
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('as_u128', 'from', 'into', 'as_u64', 'low_u128') and len(t.a[1]) == 1:
        return whole(t.a[1][0], n, out)
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('one', 'zero') and not t.a[1]:
        out[None] = out.get(None, 0) + (n if t.a[0].endswith('one') else 0)
    elif t.op == 'call' and t.a[0] == 'Option::unwrap_or' and is_c(t.a[1][1]) and cval(t.a[1][1]) == 0:
        return whole(mk('proj', mk('as', t.a[1][0], 'Some'), 0), n, out)
    elif t.op == 'bin' and t.a[0] in ('Add', 'Sub') or c and c[0] in ('checked_add', 'checked_sub', 'add', 'sub') and len(c[1]) == 2:
        x, y = t.a[1:3] if t.op == 'bin' else c[1]
        plus = t.a[0] == 'Add' if t.op == 'bin' else c[0].endswith('add')
        whole(x, n, out)
        whole(y, n if plus else -n, out)
    elif is_c(t) and isinstance(cval(t), int):
        out[None] = out.get(None, 0) + n * cval(t)
    else:
        out[t] = out.get(t, 0) + n
    return out


def divides(t):
    c = arith_call(t)
    return t.op == 'bin' and t.a[0] == 'Div' or c is not None and c[0] in ('div', 'checked_div')


class Rounding(Rule):
    id = 'R03'
    rule = ('shape of the amounts computed, at the end of every pool operation: an amount taken from the caller that comes from a division is the quotient plus at least one; an amount paid out that '
            'comes from a division is at most the quotient; in stable kinds the amount paid out of a swap is at least one unit below the change of the invariant\'s solution')
    floors = {'taken': 3, 'paid': 6}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['swap', 'swap_by_output', 'add_liquidity', 'remove_liquidity', 'ft_on_transfer', 'execute_actions']

    def check(self, cx):
        I = cx.I
        for e, kind, v, v0, r, a, f in pool_ops(cx):
            if v is v0:
                continue
            how = books.is_pool_swap(e)
            if how == 'out':
                for x, g in resolve(I, f, r, 30):
                    cx.ob(self.up(x), 'in-%s' % kind, 'what a swap by output takes is rounded up', e, count='taken')
            elif how == 'in' and kind == 'SimplePool':
                for x, g in resolve(I, f, r, 30):
                    cx.ob(self.down(x), 'out-%s' % kind, 'what a swap pays is rounded down', e, count='paid')
            elif how == 'in':
                for x in {strip(y) for y in core(I, f, r)}:
                    d = whole(x)
                    big = {t: n for t, n in d.items() if t is not None and n > 0}
                    # new reserve as solved from the invariant: minus that, minus one, minus fees
                    cx.ob(d.get(None, 0) <= -1 and all(n == 1 for n in big.values()) and len(big) == 1, 'out-%s' % kind, 'what a swap pays is below the change of the reserve by at least one', e, count='paid')
            elif kind == 'SimplePool' and Reserves.takes(None, e) == 'ret':
                for x in self.rounds(I, r):
                    cx.ob(self.down(x), 'remove-%s' % kind, 'what removing liquidity pays is rounded down', e, count='paid')
            elif kind == 'SimplePool' and Reserves.takes(None, e) == 'in' and a.op == 'phi':
                for x in self.rounds(I, a):
                    cx.ob(self.up(x), 'add-%s' % kind, 'what adding liquidity takes is rounded up', e, count='taken')

    def rounds(self, I, v):
        """the elements written in the rounds of the loop that fills the vector"""
        out = []
        for k, (o, pf, b) in (I.phi_info.get(v) or {}).items():
            if b:
                for (oo,), g in together(I, pf, [o]):
                    out += written(I, oo, v) or []
        return out

    def up(self, x):
        c = arith_call(x)
        if c and c[0] in ('max', 'min'):
            return all(self.up(y) for y in c[1])
        d = whole(x)
        if any(arith_call(t) and arith_call(t)[0] in ('max', 'min') and not self.up(t) for t in d if t is not None) and d.get(None, 0) < 1:
            return False
        q = [t for t in d if t is not None and divides(t) and not self.ceiling(t)]
        return not q or d.get(None, 0) >= 1

    def ceiling(self, t):
        """(n + d - 1) / d"""
        c = arith_call(t)
        n, by = (t.a[1], t.a[2]) if t.op == 'bin' else c[1][:2]
        w = whole(n)
        return w.get(None, 0) == -1 and w.get(by, 0) == 1

    def down(self, x):
        d = whole(x)
        q = [t for t in d if t is not None and divides(t)]
        return not q or d.get(None, 0) <= 0

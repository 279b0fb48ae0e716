"""What a swap costs, and who gets the fee."""
from framework import Rule
from base import *  # noqa
import books
from query import *  # noqa
from reserves import RATE, Reserves, pool_ops, chain, at, elem, rate_of, conv, whole
from prorata import bare, arith
from slippage import les

BPS = 10000


class Q:
    """a quotient, rounded down; the same quotients are the same object"""
    made = {}

    def __new__(cls, num, den):
        k = (num, den)
        if k not in cls.made:
            q = object.__new__(cls)
            q.num, q.den = num, den
            cls.made[k] = q
        return cls.made[k]


def add(p, q, n=1):
    out = dict(p)
    for k, c in q.items():
        out[k] = out.get(k, 0) + n * c
    return {k: c for k, c in out.items() if c}


def mul(p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b, key=id))
            out[k] = out.get(k, 0) + x * y
    return {k: c for k, c in out.items() if c}


def quot(num, den):
    if not num:
        return {}
    return {(Q(frozenset(num.items()), frozenset(den.items())),): 1}


POLY = {}


def poly(t):
    if t not in POLY:
        POLY[t] = poly_(t)
    return POLY[t]


def poly_(t):
    """a polynomial over what the expression is made of; quotients rounded down are atoms"""
    t = bare(t)
    if t.op == 'call' and t.a[0] == 'Option::unwrap_or' and is_c(t.a[1][1]) and cval(t.a[1][1]) == 0:
        return poly(mk('proj', mk('as', t.a[1][0], 'Some'), 0))
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('one', 'zero') and not t.a[1]:
        return {(): 1} if t.a[0].endswith('one') else {}
    o, xs = arith(t)
    o = (o or '').replace('unchecked', '').replace('withoverflow', '')
    if o in ('add', 'sub'):
        return add(poly(xs[0]), poly(xs[1]), 1 if o == 'add' else -1)
    if o == 'mul':
        return mul(poly(xs[0]), poly(xs[1]))
    if o == 'div':
        return quot(poly(xs[0]), poly(xs[1]))
    if is_c(t) and isinstance(cval(t), int):
        return {(): cval(t)} if cval(t) else {}
    return {(t,): 1}


def atoms(p):
    """the terms a polynomial is made of, within quotients too"""
    out, todo = set(), [p]
    while todo:
        for k in todo.pop():
            for a in k:
                if isinstance(a, Q):
                    todo += [dict(a.num), dict(a.den)]
                else:
                    out.add(a)
    return out


def const(n):
    return {(): n}


def same(p, q):
    """equal as quotients rounded down: p = q, or two quotients of the same ratio"""
    if p == q:
        return True
    (a, x), (b, y) = lead(p), lead(q)
    if a is None or b is None or x != y:
        return False
    return mul(dict(a.num), dict(b.den)) == mul(dict(b.num), dict(a.den))


def lead(p):
    """(the only quotient, the rest)"""
    qs = [(k[0], c) for k, c in p.items() if len(k) == 1 and isinstance(k[0], Q)]
    if len(qs) != 1 or qs[0][1] != 1:
        return None, None
    return qs[0][0], {k: c for k, c in p.items() if k != (qs[0][0],)}


ZEROS = {}


def zeros(facts):
    """polynomials known to be 0"""
    out = []
    for f in facts:
        if f.op in ('T', 'F'):
            if f not in ZEROS:
                ZEROS[f] = zeros_({f})
            out += ZEROS[f]
    return out


def zeros_(facts):
    out = []
    for a, b in les(facts):
        if is_c(b) and cval(b) == 0 or b.op == 'call' and b.a[0].endswith('::zero'):
            out.append(poly(a))
    for f in facts:
        if f.op in ('T', 'F') and f.a[0].op == 'call' and len(f.a[0].a[1]) == 2:
            n, (x, y) = f.a[0].a[0].rsplit('::', 1)[-1], f.a[0].a[1]
            z = not poly(y)
            if z and (n, f.op) in (('gt', 'F'), ('eq', 'T'), ('ne', 'F'), ('le', 'T')):
                out.append(poly(x))
            if not poly(x) and (n, f.op) in (('lt', 'F'), ('eq', 'T'), ('ne', 'F'), ('ge', 'T')):
                out.append(poly(y))
        if f.op == 'T' and f.a[0].op == 'call' and f.a[0].a[0].endswith('::is_zero'):
            out.append(poly(f.a[0].a[1][0]))
    return out


def swaps(cx):
    """every way out of a swap of a pool: (event, how, kind, {the two reserves before}, value returned, supply before, supply after, facts)"""
    I = cx.I
    for key, (e, vs) in I.__dict__.get('pool_calls', {}).items():
        how = books.is_pool_swap(e)
        if not how:
            continue
        for ee, kind, v, v0, r, a, f in pool_ops(cx):
            if ee is not e or v is v0:
                continue
            pos = {}
            for i, val in chain(v, v0) or []:
                pos.setdefault(i, val)
            ins, outs = [[i for i in pos if at(i, e.args[n])] for n in (1, 3)]
            if len(pos) != 2 or len(ins) != 1 or len(outs) != 1:
                cx.viol('positions', 'a swap changes the reserves of its two tokens', e)
                continue
            yield key, e, how, kind, v0, ins[0], outs[0], pos, r, f


class SimplePrice(Reserves):
    id = 'P02'
    rule = ('at every swap of a simple pool: what is paid out, as a rational function of the reserves before the swap, the amount and the pool\'s own fee, is in (1 - fee) x out / (in + in (1 - fee)), one '
            'division rounded down; what is taken by a swap by output is the quotient in x out amount / ((out - out amount) (1 - fee)), rounded down, plus one. Compared as rational functions in normal form')
    floors = {'in': 4, 'out': 2}

    def required(self, crate):
        return ['swap', 'swap_by_output', 'ft_on_transfer', 'execute_actions']

    def check(self, cx):
        I = cx.I
        seen = set()
        for key, e, how, kind, v0, i, o, pos, r, f in swaps(cx):
            if kind != 'SimplePool':
                continue
            x, y = poly(I.project(v0, (i,))), poly(I.project(v0, (o,)))
            left = add(const(BPS), poly(I.project(e.args[0], (kind, 0, 'total_fee'))), -1)
            amt = poly(e.args[2])
            if how == 'in':
                part = mul(amt, left)
                want = quot(mul(part, y), add(mul(const(BPS), x), part))
            else:
                want = add(quot(mul(mul(x, amt), const(BPS)), mul(add(y, amt, -1), left)), const(1))
            for z, g in resolve(I, f, r, 30):
                if (e.seq, z) in seen:
                    continue
                seen.add((e.seq, z))
                cx.ob(same(poly(z), want), how, 'the price is that of the constant product with the pool\'s fee', e, count=how)


class FeeSplit(Reserves):
    id = 'P03'
    rule = ('at the end of every swap of a pool, on every way: the exchange\'s and the referral\'s new shares come to exactly the admin part of the fee (simple: growth of the root of the product x supply / '
            '(root x 10000 / admin fee); stable kinds: what the deposit of fee x admin fee / 10000 of the token paid out mints, fee being the pool\'s fee on the amount before it), nothing is minted only where '
            'that is 0; a referral gets that x its rate / 10000, and only when it holds an entry of the pool; the exchange all the rest')
    floors = {'ends': 12, 'none due': 4, 'exchange': 4, 'referral': 4, 'fees': 3}

    def required(self, crate):
        return ['swap', 'swap_by_output', 'ft_on_transfer', 'execute_actions']

    def check(self, cx):
        I = cx.I
        seen = set()
        totals = {}
        self.memo = {}
        for key, e, how, kind, v0, i, o, pos, r, f in swaps(cx):
            fee_bps = I.project(e.args[5], ('admin_fee_bps',))
            s0 = I.project(e.args[0], (kind, 0, 'shares_total_supply'))
            sup = I.project(I.pool_val[key], (kind, 0, 'shares_total_supply'))
            for s, g in self.lin(I, f, sup):
                d = add(self.poly_of(s), poly(s0), -1)
                due = self.due(cx, e, how, kind, v0, i, o, pos, r, g, fee_bps)
                if due is None:
                    continue
                k = (e.seq, kind, frozenset(d.items()))

                def pred(facts):
                    return self.settled(I, facts, d, due, totals.setdefault(key, set()))
                ok = pred(g) or not d and self.parts(I, g, pred, 2) or bool(I.pool_after[key][1]) and all(contradicts(g, a) or pred(g | a) for a in I.pool_after[key][1])
                if (k, ok) in seen:
                    continue
                seen.add((k, ok))
                cx.ob(ok, 'total-%s' % kind, 'the shares minted on a swap are the admin part of the fee, and none only when that is none', e, count='ends' if d else 'none due')
        self.credits(cx, totals)

    def settled(self, I, facts, d, due, totals):
        """the shares minted are the total due, given what is known to be nothing"""
        zf = frozenset(f for f in facts if f.op in ('T', 'F') and (zeros({f}) or zeros({mk('T' if f.op == 'F' else 'F', f.a[0])}) or f.a[0].op == 'call' and f.a[0].a[0].endswith('contains_key'))
                       or f.op == 'is' or f.op in ('V', 'NV') and (f.a[0] is due['ref'] or f.a[0].op == 'call' and f.a[0].a[0] == 'LookupMap::get'))
        k = (due['key'], frozenset(d.items()), zf)
        if k not in self.memo:
            self.memo[k] = self.settle(I, zf, zeros(zf), d, due, totals)
        return self.memo[k]

    def parts(self, I, facts, pred, depth):
        """a condition made of several: it holds whichever of them decides"""
        if pred(facts):
            return True
        for f in facts if depth else ():
            if f.op in ('T', 'F') and f.a[0].op in ('phi', 'not'):
                cs = cases(I, f, facts)
                if cs and all(self.parts(I, c | facts, pred, depth - 1) for c in cs):
                    return True
        return False

    def settle(self, I, facts, zs, d, due, totals, depth=4):
        """zs: polynomials that are 0 here"""
        zs = [z for z in zs if z and len(z) <= 3]
        if not d and any(due['zero'](p) for p in zs):
            return True
        for z in zs:
            for k in z:
                if len(k) == 1 and not isinstance(k[0], Q) and k[0].op in ('phi', 'proj') and depth:
                    rs = [r for f in facts if f.op == 'is' and f.a[0] is k[0] for r in self.lin(I, facts, f.a[1])] or self.lin(I, facts, k[0])
                    if len(rs) != 1 or self.poly_of(rs[0][0]) != {k: 1}:
                        def put(p, by):
                            return add(add(p, {k: p.get(k, 0)}, -1), by, p.get(k, 0))
                        return all(self.settle(I, g | facts, [put(y, self.poly_of(lf)) for y in zs] + zeros(f for f in g if f not in facts), d, due, totals, depth - 1) for lf, g in rs)
        us = [z for z in zs if any(len(k) == 1 and (isinstance(k[0], Q) or k in d) for k in z)]
        cands = [d] + [add(d, z, n) for z in us for n in (1, -1)]
        cands += [add(c, z, n) for c in cands[1:] for z in us for n in (1, -1)]
        for c in cands:
            if len(c) == 1 and due['is'](c, facts):
                totals.add(frozenset(c.items()))
                return True
        return False

    def poly_of(self, lf):
        out = {}
        for k, c in lf.items():
            out = add(out, poly(k) if k is not None else const(1), c)
        return out

    def lin(self, I, facts, t):
        """[(linear form, facts)] with all joins resolved"""
        out, todo, n = [], [(((t, 1),), facts)], 0
        while todo:
            n += 1
            p, f = todo.pop()
            acc = {}
            split = None
            for x, c in p:
                if x is None:
                    acc[None] = acc.get(None, 0) + c
                    continue
                for y, k in whole(x, c).items():
                    acc[y] = acc.get(y, 0) + k
            acc = {k: c for k, c in acc.items() if c}
            for x in acc:
                if x is not None and n < 400:
                    rs = resolve(I, f, x, 30)
                    if len(rs) != 1 or rs[0][0] is not x:
                        split = x
                        break
            if split is None:
                out.append((acc, f))
                continue
            for y, g in rs:
                todo.append((tuple((y if x is split else x, c) for x, c in acc.items()), f | g | {mk('is', split, y)}))
        return out

    def due(self, cx, e, how, kind, v0, i, o, pos, ret, facts, fee_bps):
        I = cx.I
        b = poly(fee_bps)
        if kind == 'SimplePool':
            sup = poly(I.project(e.args[0], (kind, 0, 'shares_total_supply')))

            prod0 = mul(poly(I.project(v0, (i,))), poly(I.project(v0, (o,))))
            prod1 = mul(poly(pos[i]), poly(pos[o]))

            def growth(p):
                rs = [x for x in atoms(p) if x.op == 'call' and x.a[0].rsplit('::', 1)[-1] == 'integer_sqrt']
                old = [x for x in rs if poly(x.a[1][0]) == prod0]
                new = [x for x in rs if poly(x.a[1][0]) == prod1]
                if not old or not new:
                    return None, None
                return {(old[0],): 1}, add({(new[0],): 1}, {(old[0],): 1}, -1)

            def isit(p, g):
                old, grown = growth(p)
                return old is not None and same(p, quot(mul(grown, sup), quot(mul(old, const(BPS)), b)))

            def zero(p):
                old, grown = growth(p)
                return p in (b, sup) or grown is not None and (p in (grown, mul(grown, sup)) or isit(p, None))
            return {'ref': I.project(e.args[5], ('referral_info',)), 'is': isit, 'zero': zero, 'key': (e.seq, kind)}
        # stable kinds: the fee is part of what the taker would have got
        fee = poly(I.project(e.args[0], (kind, 0, 'total_fee')))
        forms = []
        for x, g in resolve(I, facts, ret, 30):
            for y, n in conv(I, g, x):
                w = {(k,) if k is not None else (): c for k, c in self.flat(y).items()}
                q = [k for k, c in w.items() if c == -1 and len(k) == 1 and k[0].__class__ is not Q and poly(k[0]) and lead(poly(k[0]))[0] is not None]
                hit = None
                for k in q:
                    gross = add(w, {k: -1}, -1)
                    part = poly(k[0])
                    if same(part, quot(mul(self.expand(gross), fee), const(BPS))):
                        hit = part
                cx.ob(hit is not None, 'fee-%s' % kind, 'the fee of a swap is the pool\'s fee on what would have been paid out', e, count='fees')
                if hit is None:
                    return None
                forms.append(quot(mul(hit, b), const(BPS)))

        def isit(p, g):
            k = list(p)[0] if len(p) == 1 else ()
            if len(k) != 1 or p[k] != 1 or isinstance(k[0], Q):
                return False
            t = k[0]
            if not (t.op == 'proj' and t.a[0].op == 'proj' and t.a[0].a[0].op == 'as'):
                return False
            c = t.a[0].a[0].a[0]
            if t.a[1] != 0 or c.op != 'call' or not c.a[0].endswith('compute_lp_amount_for_deposit'):
                return False
            vec, cur, sup, fees = [[a for a in c.a[1]][n] for n in (1, 2, 3, 4)]
            if strip(sup) is not strip(I.project(e.args[0], (kind, 0, 'shares_total_supply'))):
                return False
            if any(not is_c(x) or cval(x) != 0 for x in (I.project(fees, (n,)) for n in ('trade_fee', 'admin_fee'))):
                return False
            if not (vec.op == 'upd' and vec.a[1][0] == o and vec.a[0].op == 'call' and vec.a[0].a[0].endswith('from_elem') and is_c(vec.a[0].a[1][0]) and cval(vec.a[0].a[1][0]) == 0):
                return False
            for x, h in resolve(I, g, vec.a[2], 30):
                x = rate_of(x) if rate_of(x) is not None else x
                if poly(x) not in forms:
                    return False
            return True
        def zero(p):
            q = lead(p)[0]
            return p == b or p in forms or q is not None and any(dict(q.num) == mul(y, const(RATE)) for y in forms) or isit(p, facts)
        return {'ref': I.project(e.args[5], ('referral_info',)), 'is': isit, 'zero': zero, 'key': (e.seq, kind, tuple(map(id, forms and forms[0])))}

    def flat(self, t):
        return whole(t)

    def expand(self, w):
        """a linear form over terms, as a polynomial"""
        out = {}
        for k, c in w.items():
            out = add(out, poly(k[0]) if k else const(1), c)
        return out

    def inside(self, I, ctx, key):
        while ctx in I.ctx_info:
            info = I.ctx_info[ctx]
            if (info[0], info[1]) == key:
                return True
            if info[0] == ctx:
                break
            ctx = info[0]
        return False

    def credits(self, cx, totals):
        I = cx.I
        for e in share_events(I):
            for key, ts in totals.items():
                if not self.inside(I, e.ctx, key):
                    continue
                op = I.pool_calls[key][0]
                ref = I.project(op.args[5], ('referral_info',))
                who, bps = I.project(ref, ('Some', 0, 0)), I.project(ref, ('Some', 0, 1))
                for fm in forms(e):
                    todo = [({}, e.facts)]
                    for k, c in fm.items():
                        todo = [(add(acc, self.poly_of(p), c), g) for acc, f in todo for p, g in (self.lin(I, f, k) if k is not None else [({None: 1}, f)])]
                    for d, g in todo:
                        if strip(e.args[1]) is strip(who):
                            cx.ob(not d or any(same(d, quot(mul(dict(t), poly(bps)), const(BPS))) for t in ts) and self.held(g, who), 'referral',
                                  'a referral holding an entry of the pool gets its rate of the admin part', e, count='referral')
                        elif e.args[1] is CURRENT:
                            ok = not d
                            for t in ts:
                                rest = add(dict(t), d, -1)
                                if rest and same(rest, quot(mul(dict(t), poly(bps)), const(BPS))):
                                    ok = ok or self.held(g, who)
                                elif not rest:
                                    ok = ok or self.unheld(g, ref, who, bps)
                            cx.ob(ok, 'exchange', 'the exchange gets what the referral does not', e, count='exchange')
                        else:
                            cx.viol('stranger', 'the fee goes to the exchange and the referral', e)

    def held(self, facts, who):
        return any(f.op == 'T' and f.a[0].op == 'call' and f.a[0].a[0].endswith('contains_key') and strip(f.a[0].a[1][1]) is strip(who) or
                   f.op == 'V' and f.a[1] == 'Some' and f.a[0].op == 'call' and f.a[0].a[0] == 'LookupMap::get' and strip(f.a[0].a[1][1]) is strip(who) for f in facts)

    def unheld(self, facts, ref, who, bps):
        if any(p == poly(bps) for p in zeros(facts)):
            return True
        return any(f.op == 'V' and f.a[0] is ref and f.a[1] == 'None' or f.op == 'NV' and f.a[0] is ref and f.a[1] == 'Some' or
                   f.op == 'F' and f.a[0].op == 'call' and f.a[0].a[0].endswith('contains_key') and strip(f.a[0].a[1][1]) is strip(who) or
                   f.op == 'V' and f.a[1] == 'None' and f.a[0].op == 'call' and f.a[0].a[0] == 'LookupMap::get' and strip(f.a[0].a[1][1]) is strip(who) for f in facts)

"""What a share of a pool buys and costs."""
from framework import Rule
from base import *  # noqa
import books
from query import *  # noqa
from reserves import Reserves, pool_ops, chain, line, minus, elem


def bare(t):
    """without casts, unwraps of checked arithmetic and changes of width"""
    while True:
        t = elem(t)
        if t.op == 'cast':
            t = t.a[1]
        elif t.op == 'proj' and t.a[0].op == 'as' and t.a[0].a[1] == 'Some':
            t = t.a[0].a[0]
        elif t.op == 'call' and len(t.a[1]) == 1 and t.a[0].rsplit('::', 1)[-1] in ('as_u128', 'from', 'into', 'low_u128', 'try_into', 'unwrap'):
            t = t.a[1][0]
        elif t.op == 'deref':
            t = t.a[0]
        else:
            return strip(t)


def arith(t):
    t = bare(t)
    if t.op == 'bin':
        return t.a[0].lower(), t.a[1:]
    if t.op == 'call' and len(t.a[1]) == 2:
        n = t.a[0].rsplit('::', 1)[-1]
        return n[8:] if n.startswith('checked_') else n, t.a[1]
    return None, ()


def share_of(t):
    """({factors}, divisor) of a product divided"""
    o, xs = arith(t)
    if o != 'div':
        return None
    p, ys = arith(xs[0])
    if p != 'mul':
        return None
    return {bare(y) for y in ys}, bare(xs[1])


class ProRata(Reserves):
    id = 'P01'
    rule = ('at every pool operation that gives out tokens for a number of shares, on every way through a round of the loop over the reserves: the reserve goes down by '
            'reserve x shares / total supply, with the reserve as it was, the very number of shares the caller gives up and the total supply before they are burned (in this order: '
            'product first, then the division). At every operation that takes tokens for shares in proportion (simple pools): the reserve goes up by one more than reserve x minted / '
            'supply, where what is minted is the least, over all the tokens, of (offered - 1) x supply / reserve; the first provision mints a fixed number')
    floors = {'removals': 12, 'additions': 2, 'least': 2}

    def required(self, crate):
        return ['add_liquidity', 'remove_liquidity', 'ft_on_transfer']

    def check(self, cx):
        I = cx.I
        for e, kind, v, v0, r, a, f in pool_ops(cx):
            if v is v0 or books.is_pool_swap(e):
                continue
            self.key = I.project(e.args[0], (kind, 0, 'shares_total_supply'))
            self.ret, self.facts = r, f
            if self.takes(e) == 'ret' or kind == 'SimplePool' and self.takes(e) == 'in':
                self.liquidity(cx, e, kind, v, v0, r, a, f)

    def liquidity(self, cx, e, kind, v, v0, ret, vec, facts):
        I = cx.I
        for x, f in resolve(I, facts, v):
            info = I.phi_info.get(x) if x.op == 'phi' else None
            for k, (o, pf, b) in (info or {}).items():
                if b:
                    for oo, g in resolve(I, pf, o):
                        ch = chain(oo, x)
                        if not ch:
                            cx.ob(False, 'share-%s' % kind, 'the reserve changes by the share', e)
                            continue
                        i = ch[0][0]
                        d = minus(line(ch[0][1]), line(I.project(x, (i,))))
                        self.delta(cx, e, kind, d, I.project(x, (i,)), v0, i, f, vec)

    def delta(self, cx, e, kind, d, old, v0, i, f, vec):
        I = cx.I
        if self.takes(e) == 'ret':
            ok = len(d) == 1 and list(d.values()) == [-1]
            s = share_of(list(d)[0]) if ok else None
            cx.ob(s is not None and s == ({bare(old), bare(e.args[2])}, bare(self.key)), 'out-%s' % kind,
                  'the tokens given out are the reserve x the shares given up / the total supply', e, count='removals')
            return
        zero = any(g in f for g in (mk('F', mk('bin', 'Lt', C(0), self.key)), mk('T', mk('bin', 'Eq', self.key, C(0))), mk('T', mk('bin', 'Eq', C(0), self.key)), mk('T', mk('bin', 'Le', self.key, C(0)))))
        if zero:
            for r, g in resolve(I, f, self.ret):
                cx.ob(is_c(bare(r)), 'first', 'the first provision mints a fixed number of shares', e, count='additions')
            return
        d = dict(d)
        one = d.pop(None, 0)
        ok = len(d) == 1 and list(d.values()) == [1]
        s = share_of(list(d)[0]) if ok else None
        cx.ob(s is not None and one == 1 and bare(old) in s[0] and s[1] is bare(self.key), 'in', 'the tokens taken are the reserve x the shares minted / the total supply, and one', e, count='additions')
        if s is None:
            return
        for fair in s[0] - {bare(old)} or s[0]:
            for r, g in resolve(I, f, self.ret):
                cx.ob(bare(r) is fair, 'minted', 'the shares minted are those the tokens were taken for', e, count='additions')
            self.least(cx, e, fair, v0, vec)

    def least(self, cx, e, fair, v0, vec):
        I = cx.I
        info = I.phi_info.get(fair) if fair.op == 'phi' else None
        ok = bool(info)
        for o, pf, b in (info or {}).values():
            if not b:
                x = bare(o)
                ok = ok and (is_c(x) or 'max' in show(x, 3).lower())
                continue
            for oo, g in resolve(I, pf, o):
                xs = oo.a[1] if oo.op == 'call' and oo.a[0].rsplit('::', 1)[-1] == 'min' else ()
                rest = [y for y in xs if bare(y) is not fair]
                if len(xs) != 2 or len(rest) != 1:
                    # the comparison written out
                    rest = [] if oo is fair else [oo]
                    lt = [t for t in g if t.op in ('T', 'F') and t.a[0].op == 'bin' and t.a[0].a[0] in ('Lt', 'Le') and fair in (bare(t.a[0].a[1]), bare(t.a[0].a[2]))]
                    ok = ok and bool(lt)
                    if not rest:
                        continue
                ok = ok and self.buys(cx, rest[0], v0)
        if info is None and fair.op == 'call' and fair.a[0] == 'Iterator::min':
            s = fair.a[1][0]
            s = s.a[0] if s.op == 'iter' else s
            ok = s.op == 'mapped' and self.buys(cx, s.a[1], v0)
        cx.ob(ok, 'least', 'the shares minted are the least any of the tokens offered would buy', e, count='least')

    def buys(self, cx, t, v0):
        """(offered - 1) x supply / reserve, both at the same place of their lists"""
        I = cx.I
        q = share_of(t)
        if q is None or bare(self.key) not in q[0]:
            return False
        at = place(I, q[1])
        off = [y for y in q[0] if y is not bare(self.key)]
        l = line(off[0]) if len(off) == 1 else {}
        if at is None or at[0] is not v0 or len(l) != 2 or l.get(None) != -1:
            return False
        t, n = [x for x in l.items() if x[0] is not None][0]
        p = place(I, bare(t))
        return n == 1 and p is not None and p[0] is not v0 and p[1] is at[1]


def place(I, t):
    """(list, place) of an element, by its index or by a walk over lists side by side"""
    ks = []
    while t.op in ('proj', 'deref') and (t.op == 'deref' or t.a[1] in (0, 1) and not hasattr(t.a[1], 'op')):
        if t.op == 'proj':
            if t.a[0].op == 'as' and t.a[0].a[0].op == 'call' and t.a[0].a[0].a[0] == 'Iterator::next':
                nx = t.a[0].a[0]
                src = nx.a[1][0]
                first = {o for o, _, b in I.phi_info.get(src, {}).values() if not b} if src.op == 'phi' else ()
                if first:
                    if len(first) > 1 or any(b and not (o is src or o.op == 'after' and o.a[2][0] is src and o.a[0] == 'Iterator::next') for o, _, b in I.phi_info[src].values()):
                        return None
                    src, = first
                for k in reversed(ks):
                    src = whole(src)
                    if src.op == 'call' and src.a[0] == 'Iterator::enumerate' and k == 1:
                        src = src.a[1][0]
                    elif src.op == 'call' and src.a[0] == 'Iterator::zip':
                        src = src.a[1][k]
                    else:
                        return None
                return whole(src), nx
            ks.append(t.a[1])
        t = t.a[0]
    if t.op == 'proj' and hasattr(t.a[1], 'op') and not ks:
        return t.a[0], t.a[1]
    return None


def whole(t):
    while t.op in ('iter', 'bound') or t.op == 'call' and t.a[0] in ('Vec::iter', 'Iterator::copied', 'Iterator::cloned'):
        t = t.a[0] if t.op != 'call' else t.a[1][0]
    return t

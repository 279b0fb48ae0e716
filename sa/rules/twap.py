"""The record of what a share of a pool is worth over time."""
from framework import Rule
from base import *  # noqa
import books
from query import *  # noqa
from terms import *  # noqa
from reserves import pool_ops

PROPORTIONAL = {'remove_exchange_fee_liquidity', 'on_burrow_liquidation'}
INFOS = 'unit_share_cumulative_infos'
ADDS = ('Add', 'add', 'overflowing_add', 'wrapping_add', 'checked_add', 'saturating_add')
MULS = ('Mul', 'mul', 'overflowing_mul', 'wrapping_mul', 'checked_mul', 'saturating_mul')
SUBS = ('Sub', 'sub', 'overflowing_sub', 'wrapping_sub', 'checked_sub', 'saturating_sub')


def opn(t):
    """(operation, operands) of an arithmetic term, whichever way it is written"""
    if t.op == 'bin':
        return t.a[0], t.a[1:]
    if t.op == 'call' and len(t.a[1]) == 2:
        return t.a[0].rsplit('::', 1)[-1], t.a[1]
    return None, ()


def bare(t):
    while t.op == 'cast' or t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('from', 'into', 'clone') and len(t.a[1]) == 1:
        t = t.a[1] if t.op == 'cast' else t.a[1][0]
    return t


def is_now(t):
    """the block's time in seconds"""
    t = bare(t)
    o, xs = opn(t)
    if o not in ('Div', 'div'):
        return False
    d = bare(xs[1])
    return bare(xs[0]).op == 'call' and bare(xs[0]).a[0] == 'env::block_timestamp' and (
        is_c(d) and cval(d) == 10 ** 9 or d.op == 'call' and d.a[0].endswith('::pow') and [cval(x) for x in d.a[1] if is_c(x)] == [10, 9])


def closure(I, t, idx=True):
    """what a value is made of (not, without `idx`, what a place in a list is computed from); records of the store are not looked into"""
    seen, todo = set(), [t]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if s.op == 'phi':
            todo += [o for o, _, _ in I.phi_info.get(s, {}).values()]
        elif s.op == 'call' and (s.a[0] == 'Vector::get' and books.named(I, s.a[1][0], 'pools') or s.a[0] == 'UnorderedMap::get' and books.named(I, s.a[1][0], INFOS)):
            continue
        elif s.op == 'proj' and not idx:
            todo.append(s.a[0])
        elif s.op == 'mapped':
            todo += s.a[:2]
        else:
            todo += books.children(s)
    return seen


def pools_of(I, t):
    return {s.a[1][1] for s in closure(I, t, False) if s.op == 'call' and s.a[0] == 'Vector::get' and books.named(I, s.a[1][0], 'pools')}


class Twap(Rule):
    id = 'D01'
    crates = ('exchange',)
    rule = ('At every store of a pool after a swap or after liquidity was added or removed (the owner\'s and the lending contract\'s proportional removals '
            'excepted) the facts say that the record of the price per share kept for that pool was stored before in the same call, or that there is none, '
            'or that the pool has too few shares; a loop that brought up to date each pool of a list counts for each of its elements. '
            'At every store of such a record: the new time is the block\'s second, or the stored one; each cumulative amount is the stored one plus, of '
            'the same coin, what one share of this pool\'s stored state is worth (removal simulated with the view flag, of 10^decimals shares) times the '
            'seconds since the stored time; a history entry pairs the present second with the new amounts, under a test that the interval since the '
            'last entry has passed; only the oldest entry is dropped, and only when there are more than the fixed number; only a guardian drops a record.')
    floors = {'stores': 6, 'records': 8, 'sums': 7}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def check(self, cx):
        I = cx.I
        keys = set()
        for e, kind, v, v0, r, a, f in pool_ops(cx):
            if cx.name not in PROPORTIONAL and (books.is_pool_swap(e) or a is not None and a.op != 'none' and a is not C(()) or 'Vec' in (e.item.ret or '')):
                keys |= books.pool_keys(I, e.args[0])
        for (e, kind, key, rs, stale, other) in sorted(I.__dict__.get('saves', {}).values(), key=lambda x: x[0].seq):
            if kind == 'pool' and len(e.args) == 3 and e.args[1] in keys:
                cx.ob(books.twap(e.args[1]) in e.facts, 'stale', 'the record of the price per share is brought up to date before the pool changes', e, count='stores')
        for e in cx.evs:
            if e.name == 'UnorderedMap::insert' and books.last(e.locs[0]) == INFOS:
                self.record(cx, e)

    def record(self, cx, e):
        I, key, new = cx.I, e.args[1], e.args[2]
        field = lambda f: I.project(new, ('Current', 0, f))
        stored = lambda t, f=None: t.op == 'call' and t.a[0] == 'UnorderedMap::get' and books.named(I, t.a[1][0], INFOS) and t.a[1][1] is key

        def old(t, f):
            """t is the field of the stored record"""
            return any(stored(l) for l in books.leaves(I, bare(t))) and any(x.op == 'proj' and x.a[1] == f for x in closure(I, t))

        last = books.leaves(I, new, ('Current', 0, 'last_update_sec'))
        fresh = all(is_now(l) for l in last) and not any(stored(l) for l in closure(I, new))
        cx.ob(last and all(is_now(l) or stored(l) for l in last) and any(is_now(l) for l in last), 'time',
              'the record\'s time is the block\'s second', e, count='records')
        if fresh:
            cx.ob(always(I, e.facts, e.may, lambda fs: any(f.op in ('V', 'NV') and stored(f.a[0]) and f.a[1] == ('None' if f.op == 'V' else 'Some') for f in fs)), 'twice',
                  'a fresh record is made only where there is none', e)
            return
        cum = closure(I, field('cumulative_token_amounts'))
        good = 0
        for t in cum:
            o, xs = opn(t)
            if o not in ADDS:
                continue
            ok = False
            for x, y in (xs, xs[::-1]):
                o2, ys = opn(bare(y))
                if o2 not in MULS:
                    continue
                for amt, el in (ys, ys[::-1]):
                    o3, zs = opn(bare(el))
                    if o3 in SUBS and is_now(zs[0]) and old(zs[1], 'last_update_sec') and pools_of(I, amt) == {key} \
                            and any(stored(z) for z in closure(I, x)) and not any(stored(z) for z in closure(I, amt, False)) and self.same_coin(amt, x):
                        ok = True
            if any(is_now(z) for z in closure(I, t)):
                good += ok
                cx.ob(ok, 'sum', 'the amount gathered grows by what a share is worth times the seconds passed', e)
        cx.ob(good > 0, 'nosum', 'the amount gathered grows by what a share is worth times the seconds passed', e, count='sums')
        # the history
        for h in cx.evs:
            if h.name == 'Vec::push' and h.args[1].op == 'ctor' and h.args[1].a[0].endswith('CumulativeRecord'):
                t, c = h.args[1].a[2][:2]
                if not any(stored(z) for z in books.leaves(I, h.args[0])):
                    continue
                cx.ob(is_now(t), 'entry', 'a history entry carries the present second', h)
                heads = self.versions(I, field('cumulative_token_amounts'))
                cx.ob(bare(c) in heads and not stored(bare(c)) and c.op != 'proj', 'entry', 'a history entry carries the amounts gathered so far', h)
                cx.ob(cx.I and self.interval(cx, h), 'often', 'a history entry is made once the interval since the last one has passed', h)
            if h.name in ('Vec::remove', 'Vec::pop', 'Vec::clear', 'Vec::truncate', 'VecDeque::pop_front', 'Vec::swap_remove', 'Vec::drain') and any(stored(z) for z in books.leaves(I, h.args[0])) and \
                    any(z.op == 'proj' and z.a[1] == 'records' for z in closure(I, h.args[0])):
                cx.ob(h.name == 'VecDeque::pop_front' or h.name in ('Vec::remove',) and h.args[1] is C(0), 'oldest', 'only the oldest history entry is dropped', h)
                cx.ob(self.full(cx, h), 'full', 'a history entry is dropped only when there are more than the fixed number', h)
        # what a share is worth
        for v in cx.evs:
            if v.name.endswith('::remove_liquidity') and v.name.startswith('Pool::') and books.pool_keys(I, v.args[0]) == {key} and v.args[-1] is C(True):
                n = v.args[2]
                cx.ob(n.op == 'call' and n.a[0].endswith('::pow') and n.a[1][0] is C(10) and opn(bare(n.a[1][1]))[0] is None, 'one', 'the worth recorded is that of one share', v)

    def versions(self, I, t):
        out, todo = set(), [t]
        while todo:
            s = bare(todo.pop())
            if s in out:
                continue
            out.add(s)
            if s.op == 'phi':
                todo += [o for o, _, _ in I.phi_info.get(s, {}).values()]
        return out

    def same_coin(self, amt, x):
        """the worth and the amount gathered are elements at the same place"""
        a, b = bare(amt), bare(x)
        if any(t.op == 'proj' and hasattr(t.a[1], 'op') and opn(bare(t.a[1]))[0] in ADDS + MULS + SUBS + ('Div', 'Rem') for t in (a, b)):
            return False

        def nexts(t, out):
            if t.op == 'call' and t.a[0] == 'Iterator::next' or t.op == 'bound':
                out.add(t)
                return out
            for c in books.children(t):
                nexts(c, out)
            return out
        na, nb = nexts(a, set()), nexts(b, set())
        return bool(na & nb) or not (na | nb)

    def interval(self, cx, h):
        for f in h.facts:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                lo, hi = f.a[0].a[1:] if f.op == 'T' else f.a[0].a[1:][::-1]
                strict = f.op == 'T' and f.a[0].a[0] == 'Lt' or f.op == 'F' and f.a[0].a[0] == 'Le'
                o, xs = opn(bare(hi))
                if not strict and bare(lo).op == 'proj' and bare(lo).a[1] == 'cumulative_info_record_interval_sec' and o in SUBS and is_now(xs[0]) \
                        and xs[1].op == 'proj' and xs[1].a[1] == 'time_sec' and any(z.op == 'proj' and z.a[1] == 'records' for z in closure(cx.I, xs[1])):
                    return True
        return False

    def full(self, cx, h):
        for f in h.facts:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                lo, hi = f.a[0].a[1:] if f.op == 'T' else f.a[0].a[1:][::-1]
                strict = f.op == 'T' and f.a[0].a[0] == 'Lt' or f.op == 'F' and f.a[0].a[0] == 'Le'
                if is_c(lo) and isinstance(cval(lo), int) and cval(lo) >= (60 if strict else 61) and hi.op in ('len', 'call'):
                    return True
        return False

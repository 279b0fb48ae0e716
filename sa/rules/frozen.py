"""Frozen tokens."""
from framework import Rule
from base import *  # noqa
import interp

FROZEN = mk('proj', SELF, 'frozen_tokens')
POOLK = ('SimplePool', 'StableSwapPool', 'RatedSwapPool', 'DegenSwapPool')
TRADE = {'add_liquidity', 'add_stable_liquidity', 'remove_liquidity', 'remove_liquidity_by_tokens', 'swap', 'swap_by_output', 'execute_actions', 'execute_actions_in_va',
         'ft_on_transfer', 'on_burrow_liquidation'}
TAKE = {'withdraw', 'claim_lostfound'}


def deep(I, t, seen=None, phis_seen=None):
    """all terms inside t, through joins"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or not hasattr(x, 'op'):
            continue
        seen.add(x)
        if x.op == 'phi':
            for (o, pf, b) in (I.phi_info.get(x) or {}).values():
                stack.append(o)
        for y in x.a:
            push(stack, y)
    return seen


def push(stack, y):
    if hasattr(y, 'op'):
        stack.append(y)
    elif isinstance(y, (tuple, list)):
        for z in y:
            push(stack, z)


def elem_of(t):
    """the collection t is an element of"""
    while True:
        if t.op in ('proj', 'as'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0] == 'Iterator::next' and t.a[1][0].op == 'bound':
            s = t.a[1][0].a[0]
            return s.a[0] if s.op == 'iter' else s
        else:
            return None


def unfrozen(facts):
    """(collection of) tokens established not to be frozen"""
    out = []
    for f in facts:
        if f.op == 'forall':
            g = f.a[1]
            if g.op == 'F' and contains(g.a[0]) is not None:
                s = elem_of(contains(g.a[0]))
                if s is not None:
                    out.append(('all', s))
        elif f.op == 'F' and contains(f.a[0]) is not None:
            out.append(('one', contains(f.a[0])))
        elif f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] in ('Eq', 'Le'):
            for i in (1, 2) if f.a[0].a[0] == 'Eq' else (2,):
                if is_c(f.a[0].a[i]) and cval(f.a[0].a[i]) == 0:
                    out += selected(f.a[0].a[3 - i])
        elif f.op in ('T', 'F') and f.a[0].op == 'call':
            n = f.a[0].a[0]
            if f.op == 'T' and n.endswith('is_empty'):
                out += selected(f.a[0])
            elif f.op == 'F' and n.endswith('::any'):
                out += selected(f.a[0])
    return out


def contains(t):
    if t.op == 'call' and t.a[0].endswith('::contains') and t.a[1][0] is FROZEN:
        return strip(t.a[1][1])
    return None


def selected(t):
    """t counts the frozen ones among the elements of a collection"""
    for x in subterms(t):
        if x.op == 'filter' and len(x.a) >= 2 and contains(x.a[1]) is not None:
            s = elem_of(contains(x.a[1]))
            if s is not None:
                return [('all', s)]
        if x.op == 'call' and x.a[0].endswith('::any'):
            for y in subterms(x):
                if contains(y) is not None and elem_of(contains(y)) is not None:
                    return [('all', elem_of(contains(y)))]
    return []


def roots_of(I, t):
    """the JSON arguments (or fields of the message) a value is made from"""
    out = set()
    for x in deep(I, t):
        if x.op == 'proj' and isinstance(x.a[1], str) and x.a[1] in ('actions', 'hot_zap_actions', 'add_liquidity_infos', 'pool_id', 'shadow_id', 'msg'):
            out.add(x)
        p = arg_path(x)
        if p and len(p) == 1:
            out.add(x)
    return out


class Frozen(Rule):
    id = 'A06'
    rule = ('must-hold path facts: wherever a pool is traded with or its liquidity changed for a user, and wherever a token is deposited, withdrawn or claimed, the path has established '
            'that frozen_tokens contains none of the tokens: of the pool (for liquidity), of every action (for swaps), or the token itself')
    floors = {'liquidity': 6, 'swaps': 6, 'tokens': 2, 'deposits': 1}

    def select(self, P, crate, name):
        return name in TRADE | TAKE

    def required(self, crate):
        return sorted(TRADE | TAKE)

    def check(self, cx):
        I = cx.I
        if cx.name in TAKE:
            for e in I.__dict__.get('sends', {}).values():
                tok = books.send_of(e)[2]
                cx.ob(self.token_ok(I, e.facts | cx.facts, tok), 'token', 'the token sent out is not frozen', e, count='tokens')
            for e in tok_events(I):
                token, form, own = e.extra
                if form:
                    cx.ob(self.token_ok(I, e.facts | cx.facts, token), 'token', 'the token taken out is not frozen', e, count='tokens')
            return
        for k, (e, vs) in I.__dict__.get('pool_calls', {}).items():
            if len(e.args) < 4 or is_c(e.args[-1]) and cval(e.args[-1]) is True:
                continue
            un = unfrozen(e.facts) + unfrozen(cx.facts)
            if books.is_pool_swap(e):
                toks = [e.args[1], e.args[3]]
                ok = all(self.covered(cx, un, t, 'swap') for t in toks)
                cx.ob(ok, 'swap', 'neither token of the swap is frozen', e, count='swaps')
            else:
                cx.ob(self.pool_covered(cx, un, e), 'liquidity', 'no token of the pool is frozen', e, count='liquidity')
        if cx.name == 'ft_on_transfer':
            for e in tok_events(I):
                token, form, own = e.extra
                if token is PRED and form and any(is_arg(t, 'amount') for t in form) and not (own and all(is_c(o[1]) for o in own)):
                    cx.ob(self.token_ok(I, e.facts, PRED), 'deposit', 'the token deposited is not frozen', e, count='deposits')

    def token_ok(self, I, facts, tok):
        for k, s in unfrozen(facts):
            if k == 'one' and strip(s) is strip(tok):
                return True
            if k == 'all' and any(x.op == 'ctor' and x.a[0] == '[array]' and any(strip(y) is strip(tok) for y in x.a[2]) for x in subterms(s)):
                return True
        return False

    def covered(self, cx, un, tok, what):
        I = cx.I
        fld = next((x.a[1] for x in subterms(strip(tok)) if x.op == 'proj' and x.a[1] in ('token_in', 'token_out')), None)
        mine = roots_of(I, tok)
        for k, s in un:
            if k == 'one' and strip(s) is strip(tok):
                return True
            if k != 'all':
                continue
            if mine and not (mine & roots_of(I, s)):
                continue
            if {'token_in', 'token_out'} <= self.cover(cx, s):
                return True
        return False

    def pool_covered(self, cx, un, e):
        I = cx.I
        g = next((l for l in books.leaves(I, e.args[0]) if l.op == 'call' and l.a[0] == 'Vector::get'), None)
        if g is None:
            return False
        pid = g.a[1][1]
        base = e.locs[0][0] if e.locs and e.locs[0] is not None else None
        for k, s in un:
            if k == 'all' and base is not None and {x.a[0][1][0] for x in deep(I, s) if x.op == 'ref' and x.a[0][0] == base and 'token_account_ids' in x.a[0][1]} >= set(POOLK):
                return True
        mine = roots_of(I, pid)
        for k, s in un:
            if k != 'all':
                continue
            same = any(x.op == 'call' and x.a[0] == 'Vector::get' and x.a[1][1] is pid for x in deep(I, s))
            if not same and mine and not mine & roots_of(I, s):
                continue
            if {('tokens', k2) for k2 in POOLK} <= self.cover(cx, s):
                return True
        return False

    def cover(self, cx, s):
        """which tokens the collection is made of: field names of actions, token lists of pools"""
        out = self.must(cx, s, {})
        # a field counts only when both kinds of action are covered
        for fld in ('token_in', 'token_out'):
            kinds = {o[1] for o in out if isinstance(o, tuple) and o[0] == fld}
            if not {'Swap', 'SwapByOutput'} <= kinds:
                out.discard(fld)
        return out

    def must(self, cx, x, memo):
        """what is collected whichever way is taken (kinds of actions and pools apart), and in every round"""
        I = cx.I
        if x in memo:
            return memo[x]
        memo[x] = set()
        out = set()
        if x.op == 'phi':
            info = list((I.phi_info.get(x) or {}).values())
            ent = [(self.must(cx, o, memo), pf) for o, pf, b in info if not b]
            back = [(self.must(cx, o, memo), pf) for o, pf, b in info if b]
            for part in (ent, back):
                if not part:
                    continue
                common = frozenset.intersection(*[pf for _, pf in part])
                kinds = all(loop_fact(f) for _, pf in part for f in pf - common if f.op in ('T', 'F', 'V', 'NV'))
                sets = [c for c, _ in part]
                out |= set.union(*sets) if kinds and part is ent else set.intersection(*sets)
        else:
            if x.op == 'filter' or x.op == 'call' and x.a[0] != 'Option::take' and x.a[0].rsplit('::', 1)[-1] in PARTIAL:
                return out
            if x.op == 'proj' and x.a[1] in ('token_in', 'token_out'):
                out.add(x.a[1])
                out.add((x.a[1], x.a[0].a[0].a[1] if x.a[0].op == 'proj' and x.a[0].a[0].op == 'as' else None))
            if x.op == 'proj' and x.a[1] == 'token_account_ids':
                out |= {('tokens', y.a[1]) for y in subterms(x.a[0]) if y.op == 'as' and y.a[1] in POOLK}
            if x.op == 'ref' and 'token_account_ids' in x.a[0][1] and x.a[0][1][0] in POOLK:
                out.add(('tokens', x.a[0][1][0]))
            if x.op == 'call':
                out |= self.summary(cx, x.a[0])
            st = []
            for y in x.a:
                push(st, y)
            for y in st:
                out |= self.must(cx, y, memo)
        memo[x] = out
        return out

    def summary(self, cx, name):
        """what a side-effect free helper of the crate collects, in every round of its loops"""
        P = cx.P
        memo = P.__dict__.setdefault('_collects', {})
        if name in memo:
            return memo[name]
        memo[name] = set()
        it = self.item(P, name)
        if it is None:
            return memo[name]
        J = interp.run_item(P, it)
        out = set()
        for e in J.events.values():
            if e.kind != 'call' or e.name.rsplit('::', 1)[-1] not in ('insert', 'extend', 'push', 'append', 'extend_from_slice'):
                continue
            cond = [f for f in e.facts if f.op in ('T', 'F', 'V', 'NV') and not loop_fact(f)]
            if cond:
                continue
            for a in e.args[1:]:
                if partial(J, a):
                    continue
                for x in deep(J, a):
                    if x.op == 'proj' and x.a[1] in ('token_in', 'token_out'):
                        out.add(x.a[1])
                        out.add((x.a[1], next((y.a[1] for y in subterms(x.a[0]) if y.op == 'as' and y.a[1] in ('Swap', 'SwapByOutput')), None)))
                    if x.op == 'proj' and x.a[1] == 'token_account_ids':
                        for y in subterms(x.a[0]):
                            if y.op == 'as' and y.a[1] in POOLK:
                                out.add(('tokens', y.a[1]))
        memo[name] = out
        return out

    def item(self, P, name):
        c = [i for v in P.fns.values() for i in v if i.body is not None and interp.fn_label(i) == name]
        if not c:
            c = [i for v in P.fns.values() for i in v if i.body is not None and '::' in name and interp.fn_label(i).split('::')[-1] == name.split('::')[-1]]
        return c[0] if len(c) == 1 else None


def loop_fact(f):
    """only about which kind of action or pool it is, or whether there is (another) one"""
    t = f.a[0]
    if f.op in ('V', 'NV'):
        return f.a[1] not in ('Some', 'None', 'Ok', 'Err') or t.op == 'call' and (t.a[0] == 'Iterator::next' or t.a[0].endswith('::get')) or t.op == 'branch'
    if t.op == 'call' and t.a[0].endswith('::contains') and t.a[1][0] is not FROZEN:
        return True        # it is there already
    return t.op == 'bin' and any(x.op == 'discr' for x in t.a[1:])


PARTIAL = ('filter', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'nth', 'split_off', 'chunks')


def partial(I, t):
    """some elements are left out"""
    return any(x.op == 'filter' or x.op == 'call' and x.a[0] != 'Option::take' and x.a[0].rsplit('::', 1)[-1] in PARTIAL for x in deep(I, t))

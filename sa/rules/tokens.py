"""Users' token balances: what goes on one account comes off another, out of the contract, or into a pool."""
import farmbooks
from framework import Rule
from base import *  # noqa

ACTIONS = ['swap', 'execute_actions', 'add_liquidity', 'add_stable_liquidity', 'remove_liquidity', 'remove_liquidity_by_tokens', 'withdraw', 'ft_on_transfer', 'mft_transfer']
FAILED = {'Failed'}


def pend_tok(f):
    return f.op == 'pend' and f.a[0][0] in ('tok', 'leg', 'cache')


# ---------------------------------------------------------------- vectors of amounts
def source(t):
    """the iterator value an element was taken from: next(phi) or next(bound)"""
    if t.op == 'proj' and t.a[1] == 0 and t.a[0].op == 'as' and t.a[0].a[1] == 'Some' and t.a[0].a[0].op == 'call' and t.a[0].a[0].a[0].endswith('Iterator::next'):
        return t.a[0].a[0].a[1][0]
    return None


def start(I, it):
    """what the loop's iterator was made from"""
    if it.op == 'bound':
        return it.a[0]
    if it.op == 'phi':
        rs = set()
        for (o, pf, b) in (I.phi_info.get(it) or {}).values():
            if b:
                if not (o.op == 'after' and o.a[0].endswith('Iterator::next') and o.a[2][0] is it):
                    return None
                continue
            rs.add(start(I, o) or o)
        return rs.pop() if len(rs) == 1 else None
    return it


def bare(t):
    while t.op == 'iter' or t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('into_iter', 'iter', 'copied', 'cloned', 'by_ref', 'iter_mut', 'clone', 'to_vec', 'drain') and t.a[1]:
        t = t.a[0] if t.op == 'iter' else t.a[1][0]
    return t


def component(I, t):
    """(iterator, container, exact) when t is the running element of a container; exact: the iteration runs over all of it"""
    if t.op == 'proj' and isinstance(t.a[1], T):
        i = t.a[1]
        it = source(i)
        if it is not None:
            s = start(I, it)
            if s is None:
                return None
            r = bare(s)
            full = set()
            if r.op == 'ctor' and r.a[0].endswith('Range') and len(r.a[2]) == 2 and is_c(r.a[2][0]) and cval(r.a[2][0]) == 0:
                full.add(r.a[2][1])
            return it, t.a[0], full
        if i.op == 'proj' and i.a[1] == 0 and source(i.a[0]) is not None:
            it = source(i.a[0])
            s = start(I, it)
            r = bare(s) if s is not None else None
            if r is not None and r.op == 'call' and r.a[0].endswith('Iterator::enumerate'):
                return it, t.a[0], {I.length(bare(r.a[1][0]))}
        return None
    path = []
    while source(t) is None:
        if t.op != 'proj' or t.a[1] not in (0, 1) or len(path) > 3:
            return None
        path.append(t.a[1])
        t = t.a[0]
    it = source(t)
    s = start(I, it)
    if s is None:
        return None
    r = bare(s)
    for k in reversed(path):
        if r.op == 'call' and r.a[0].endswith('Iterator::zip'):
            r = bare(r.a[1][k])
        elif r.op == 'call' and r.a[0].endswith('Iterator::enumerate') and k == 1:
            r = bare(r.a[1][0])
        else:
            return None
    if r.op == 'call' and r.a[0].rsplit('::', 1)[-1] in ('skip', 'take', 'filter', 'step_by', 'rev', 'take_while', 'skip_while', 'zip', 'chain') and not r.a[0].endswith('rev'):
        return None
    return it, r, {I.length(r)}


def flow(I, f):
    """(token container, amount container) of a booking that ran over two vectors in step, whole"""
    tok = f.a[0][1]
    ct = component(I, tok)
    if ct is None:
        return None
    for x in f.a[1]:
        ca = component(I, x)
        if ca is None or ca[0] is not ct[0]:
            continue
        lens = {I.length(ct[1]), I.length(ca[1])}
        if ct[2] & lens or ca[2] & lens:
            return ct[1], ca[1]
    return None


def pool_tokens(I, t):
    """loads of the pools whose token list t is"""
    out = set()
    for l in books.leaves(I, t):
        if l.op == 'proj' or l.op == 'self':
            return None
        out.add(l)
    return out


def whole(I, f, key, sign):
    """every turn of the loop books this amount, unless it is zero"""
    ents = [v for k, v in I.back_alts.items() if k[:2] == key[:2]]
    if key not in I.back_alts:
        return False
    tok, als = f.a[0][1], set(f.a[1])
    for facts, alts in ents:
        for a in alts:
            if contradicts(facts, a) and len(alts) > 1:
                continue
            if any(p.op == 'pend' and p.a[0][0] == f.a[0][0] and p.a[2] == sign and (p.a[0][1] is tok) and als & set(p.a[1]) for p in a):
                continue
            if any(ledger.zero(facts | a, x) for x in als):
                continue
            return False
    return True


def one_exit(I, key):
    """the loop is left only when its iterator is exhausted"""
    ctx, head, pk = key
    if pk == 'closure':
        return True
    it = I.ctx_info[ctx][2]
    body = it.body
    h = head.split('#')[0]
    blk = I.loops(body).get(h)
    if not blk:
        return False
    dead = diverging(I, body)
    return len({b for b in blk for s in I.succs(body, b) if s not in blk and s not in dead}) == 1


def diverging(I, body):
    d = getattr(body, '_dead', None)
    if d is None:
        live = set()
        preds = {}
        for b in body.blocks:
            for s in I.succs(body, b):
                preds.setdefault(s, set()).add(b)
        work = [b for b, bl in body.blocks.items() if bl.term and bl.term[0] == 'return']
        while work:
            b = work.pop()
            if b not in live:
                live.add(b)
                work.extend(preds.get(b, ()))
        d = body._dead = set(body.blocks) - live
    return d


def pool_flow(cx, f, key):
    """the amounts were taken into, or paid out of, the pool whose tokens these are: None, or what is wrong"""
    I = cx.I
    fl = flow(I, f)
    if fl is None:
        return 'not a step over a token list and its amounts'
    X, V = fl
    if not all(p[-1:] == ('token_account_ids',) for p in field_paths(I, X)):
        return 'the tokens are not those of a pool'
    n = f.a[2]
    if not whole(I, f, key, n):
        return 'some turn of the loop leaves an amount out'
    if not one_exit(I, key):
        return 'the loop may end before all amounts are booked'
    return None if matched(I, X, V, n, frozenset()) else 'no pool operation on the same pool goes with these amounts'


def matched(I, X, V, n, pf, depth=0):
    """a pool operation on the pool of X took or returned exactly V, and the shares moved the other way"""
    w = vec(V)
    for (e, vs) in I.__dict__.get('pool_calls', {}).values():
        if V not in vs and w not in {vec(v) for v in vs}:
            continue
        if not same_pool(I, X, e) or pf and clash(pf, e.facts):
            continue
        for s in share_events(I):
            if within(I, s.ctx, e) and (credit(s) if n < 0 else debit(s)):
                return True
    if w.op == 'phi' and depth < 3:
        info = I.phi_info.get(w) or {}
        ops = [(o, f) for (o, f, b) in info.values() if not b]
        return len(ops) == len(info) > 0 and all(matched(I, X, o, n, pf | f, depth + 1) for o, f in ops)
    return False


def vec(t):
    """through element-wise conversions"""
    while t.op == 'call' and t.a[0].endswith('Iterator::collect'):
        m = t.a[1][0]
        while m.op == 'iter':
            m = m.a[0]
        if m.op == 'mapped':
            x = strip(m.a[1])
            while x.op == 'proj' and x.a[1] == 0 and source(x) is None:
                x = x.a[0]
            it = source(x)
            if it is None or it.op != 'bound':
                return t
            t = bare(it.a[0])
        else:
            t = bare(m)
    return bare(t)


def field_paths(I, t):
    """how t is selected from what was loaded"""
    out = set()
    for x in may_be(I, t):
        if x.op == 'phi':
            continue
        p = []
        while x.op in ('proj', 'as'):
            if x.op == 'proj':
                p.append(x.a[1])
            x = x.a[0]
        out.add(tuple(reversed(p)))
    return out or {()}


def loads(I, t):
    return {l for l in books.leaves(I, t) if l.op == 'call' and l.a[0] == 'Vector::get'}


def same_pool(I, X, e):
    a, b = loads(I, X), loads(I, e.args[0])
    return bool(a) and a <= b


def within(I, ctx, e):
    """the context runs inside the call e"""
    while ctx in I.ctx_info:
        p, pbb, _, _ = I.ctx_info[ctx]
        if p == e.ctx and pbb and pbb.split('#')[0] == e.bb.split('#')[0]:
            return True
        if p is None or p == ctx:
            return False
        ctx = p
    return False


# ---------------------------------------------------------------- amounts paid out of a map or list
def chain(I, ctx, bb):
    """the block and the blocks of the calls around it, innermost first: [(ctx, block)]"""
    out = []
    while ctx in I.ctx_info and bb:
        out.append((ctx, bb.split('#')[0]))
        p, pbb, _, _ = I.ctx_info[ctx]
        if p is None or p == ctx:
            break
        ctx, bb = p, pbb
    return out


def reach(I, body, frm, avoid=(), strict=True):
    """blocks reachable from the successors of frm"""
    seen, work = set(), [s for s in I.succs(body, frm)] if strict else [frm]
    while work:
        b = work.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        work.extend(I.succs(body, b))
    return seen


def body_of(I, ctx):
    return I.ctx_info[ctx][2].body


def returns(body):
    return {b for b, bl in body.blocks.items() if bl.term and bl.term[0] == 'return'}


def inevitable(I, frm, to):
    """every returning path from the point frm goes through the point to"""
    cf, ct = chain(I, *frm), chain(I, *to)
    df = dict(cf)
    for i, (c, b) in enumerate(ct):
        body = body_of(I, c)
        if c in df:
            if df[c] == b:
                return False
            return not (reach(I, body, df[c], {b}) & returns(body))
        if reach(I, body, 'bb0', {b}, strict=False) & returns(body):
            return False
    return False


def after(I, frm, to):
    """the point `to` can come after the point `frm`"""
    df = dict(chain(I, *frm))
    for c, b in chain(I, *to):
        if c in df:
            return b in reach(I, body_of(I, c), df[c])
    return False


def contents(I, t, out=None, seen=None):
    """(base values, calls that changed it) of a list or map value"""
    out = (set(), set()) if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'phi':
        for (o, pf, b) in (I.phi_info.get(t) or {}).values():
            contents(I, o, out, seen)
    elif t.op == 'after':
        out[1].add(t)
        contents(I, t.a[2][t.a[1]], out, seen)
    elif t.op in ('upd', 'mutvia'):
        out[1].add(t)
        contents(I, t.a[0], out, seen)
    else:
        out[0].add(t)
    return out


def paid_from(I, f):
    """the container whose (token, amount) elements were booked, or None"""
    tok = f.a[0][1]
    if not (tok.op == 'proj' and tok.a[1] == 0):
        return None
    elem = tok.a[0]
    it = source(elem)
    if it is None or mk('proj', elem, 1) not in f.a[1]:
        return None
    s = start(I, it)
    if s is None:
        return None
    r = bare(s)
    while r.op == 'call' and r.a[0].endswith('Iterator::collect') or r.op in ('filter', 'iter'):
        # amounts of zero may be passed over
        if r.op == 'filter':
            nz = [x for x in r.a[3] if zero_of_elem(x)] if len(r.a) > 3 else []
            if not nz:
                return None
            r = bare(r.a[0])
        elif r.op == 'iter':
            r = bare(r)
        else:
            r = bare(r.a[1][0])
    if r.op == 'call' and r.a[0].startswith('Iterator::'):
        return None
    return r


def zero_of_elem(f):
    """the rejected elements have a zero amount"""
    t = f.a[0] if f.op in ('T', 'F') else None
    if t is None or t.op != 'bin':
        return False
    for x in t.a[1:]:
        if x.op == 'proj' and x.a[1] == 1 and source(x.a[0]) is not None and ledger.zero(frozenset([f]), x):
            return True
    return False


def fills(I, r, here):
    """calls that change the container r stands for, ahead of its payout"""
    muts = {(m.a[0], m.a[2]) for m in contents(I, r)[1] if m.op == 'after'}
    return [e for e in I.events.values() if e.kind == 'call' and (e.name, tuple(e.args)) in muts and after(I, (e.ctx, e.bb), here)]


def payout(cx, f, key):
    """the amounts are those of the virtual account, of a list or of the cache, each paid once: None, or what is wrong"""
    I = cx.I
    r = paid_from(I, f)
    if r is None:
        return 'not the elements of a map or list of balances'
    if f.a[2] != 1:
        return 'counted with the wrong sign'
    if not whole(I, f, key, 1):
        return 'some turn of the loop leaves an amount out'
    if not one_exit(I, key):
        return 'the loop may end before everything is paid'
    bases, muts = contents(I, r)
    if not all(b.op == 'call' and b.a[0].rsplit('::', 1)[-1] in ('new', 'with_capacity', 'default') for b in bases):
        return 'what is paid does not start empty'
    own = books.owner_of(I, r)
    va = bool(own) and all(o[0] == 'acct' and is_c(o[1]) for o in own)
    here = key[:2]
    if not va:
        held = I.__dict__.get('held', {})
        kinds = {e.name.split('::')[0] for e in held.values()}
        for m in muts:
            if m.op != 'after' or m.a[0] not in ('Vec::push', 'HashMap::insert', 'HashMap::remove', 'HashMap::entry'):
                return 'the amounts are changed in some other way'
        if not muts:
            return 'nothing was put in'
        if any(b.a[0].startswith('UnorderedMap') for b in bases):
            return 'a token map that is not the virtual account'
    mine = fills(I, r, here)
    for e in mine:
        if not inevitable(I, (e.ctx, e.bb), here):
            return 'the payout can be skipped'
    for k2, d in I.dropped.items():
        for g in d:
            if g is not f and pend_tok(g) and k2 != key and paid_from(I, g) is not None and contents(I, paid_from(I, g))[0] & bases and \
                    (after(I, here, k2[:2]) or k2[0] == key[0] and k2[1] == key[1]):
                if {id(e) for e in mine} & {id(e) for e in fills(I, paid_from(I, g), k2[:2])}:
                    return 'paid more than once'
    if va:
        cl = [c for c in I.__dict__.get('tok_clears', {}).values() if books.owner_of(I, c.args[0]) == own]
        if any(after(I, (c.ctx, c.bb), here) and not after(I, here, (c.ctx, c.bb)) for c in cl):
            return 'emptied before it is paid'
        if not any(inevitable(I, here, (c.ctx, c.bb)) for c in cl):
            return 'the virtual account is not emptied'
        for e in tok_events(I):
            if e.extra[2] and all(o[0] == 'acct' and is_c(o[1]) for o in e.extra[2]) and e.extra[1] and after(I, here, (e.ctx, e.bb)) and \
                    not after(I, (e.ctx, e.bb), here):
                return 'credited after it was paid out'
    return None


class Conservation(Rule):
    id = 'T01'
    rule = ('double-entry typestate over every path: each write to a token balance map is the previous entry plus or minus an amount, and what is booked on accounts, '
            'lost-and-found, the per-call virtual account, swaps (amount in / amount out of the pool call) and outgoing transfers cancels on every path; amounts booked '
            'element by element are those of the pool operation on the same pool that moves shares the other way, over the whole list; balances of the virtual account and of '
            'local lists and caches are paid out exactly once, and the virtual account is emptied')
    floors = {'bookings': 60, 'vectors': 6, 'payouts': 4}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ACTIONS

    def check(self, cx):
        I = cx.I
        bad = {}
        for e, what in I.__dict__.get('book_errors', {}).values():
            if what.startswith('token-'):
                bad[id(e)] = (e, what)
        for e in tok_events(I):
            cx.ob(id(e) not in bad, 'token-write', 'a balance entry changes by an amount from what it was', e, count='bookings')
        for e in tok_events(I):
            if e.name == 'UnorderedMap::insert' and books.last(e.locs[0]) == 'tokens' and not any(o[0] == 'lost' for o in (e.extra[2] or ())):
                k = strip(e.args[1])
                older = lambda m: books.named(I, m, 'legacy_tokens') or any(l.op == 'call' and l.a[0] == 'HashMap::new' for l in books.leaves(I, m))

                def known(fs):
                    for f in fs:
                        t = f.a[0] if f.op in ('V', 'NV', 'T', 'F') else None
                        if f.op == 'E' and f.a[0] == 'HashMap::remove' and strip(f.a[1][1]) is k and older(f.a[1][0]):
                            return True
                        if t is None or t.op != 'call' or len(t.a[1]) < 2 or strip(t.a[1][1]) is not k:
                            continue
                        n = t.a[0]
                        none = f.op == 'V' and f.a[1] == 'None' or f.op == 'NV' and f.a[1] == 'Some' or f.op == 'F' and n.endswith('contains_key')
                        some = f.op == 'V' and f.a[1] == 'Some' or f.op == 'NV' and f.a[1] == 'None'
                        if n == 'HashMap::remove' and older(t.a[1][0]) or none and n.startswith('HashMap::') and older(t.a[1][0]) \
                                or some and n == 'UnorderedMap::get':
                            return True
                    return False
                cx.ob(always(I, e.facts, e.may, known), 'twice', 'a token kept in the older map of an account is not entered in the newer one as well', e, count='entries')
        for i, (e, what) in bad.items():
            if not any(id(x) == i for x in tok_events(I)):
                cx.viol(what, 'a balance is overwritten with something that is not its old value plus or minus an amount', e)
        for key, d in sorted(I.dropped.items(), key=repr):
            for f in sorted(d, key=lambda f: f.id):
                if not pend_tok(f):
                    continue
                if paid_from(I, f) is not None:
                    why = payout(cx, f, key)
                    cx.ob(why is None, 'payout', 'every balance of the map or list is paid out exactly once' + (': ' + why + ' (%s)' % pend_name(f)[:200] if why else ''),
                          I.pend_sites.get(f), count='payouts')
                else:
                    why = pool_flow(cx, f, key)
                    cx.ob(why is None, 'vector', 'amounts booked one by one are those of a pool operation' + (': ' + why + ' (%s)' % pend_name(f)[:200] if why else ''),
                          I.pend_sites.get(f), count='vectors')
        done = set()
        for a in cx.alts:
            for f in a:
                if f.op == 'dirty' and f.a[0] == 'va' and f not in done:
                    done.add(f)
                    cx.viol('virtual', 'the virtual account may be left with balances')
                if not pend_tok(f) or f in done:
                    continue
                done.add(f)
                cx.ob(legit(cx, f, a), 'open', 'nothing stays booked on one side only (%s)' % pend_name(f)[:300], I.pend_sites.get(f), count='open')
        for c in I.__dict__.get('tok_clears', {}).values():
            own = books.owner_of(I, c.args[0])
            cx.ob(bool(own) and all(o[0] == 'acct' and is_c(o[1]) for o in own), 'cleared', 'only the virtual account is emptied at once', c, count='cleared')
        for e in cx.calls('LookupMap::remove'):
            if e.args and 'acct' in books.coll_kind(I, e.args[0]):
                for fld in ('tokens', 'legacy_tokens'):
                    cx.ob(always(I, e.facts, e.may, lambda fs: any(emptied(I, f, fld, 'acct', e.args[1]) for f in fs)), 'gone',
                          'an account is removed only when it holds no token (%s)' % fld, e, count='removals')
        # what is filled is paid out
        paid = set()
        for key, d in I.dropped.items():
            for f in d:
                if pend_tok(f) and paid_from(I, f) is not None:
                    paid |= {id(m) for m in fills(I, paid_from(I, f), key[:2])}
        for e in I.__dict__.get('held', {}).values():
            if e.name == 'Entry::or_insert':
                t = e.args[0]
                while t.op == 'call' and t.a[0] == 'Entry::and_modify':
                    t = t.a[1][0]
                e = next((x for x in I.events.values() if x.kind == 'call' and x.ret is t), e)
            cx.ob(id(e) in paid, 'kept', 'amounts put into a list or cache are paid out', e, count='holders')
        for e in tok_events(I):
            if e.extra[1] and e.extra[2] and all(o[0] == 'acct' and is_c(o[1]) for o in e.extra[2]):
                cx.ob(id(e) in paid, 'kept', 'the balances of the virtual account are paid out', e, count='holders')
        cx.count('entries')


def legit(cx, f, a):
    I = cx.I
    n, als = f.a[2], f.a[1]
    tok = f.a[0][1]
    if n != 1:
        return False
    facts = cx.facts | a
    if cx.name == 'retrieve_unmanaged_token':
        return True
    if cx.name == 'ft_on_transfer':
        return tok is PRED and any(is_arg(x, 'amount') for x in als)
    if PRIV in cx.facts and any(g.op == 'V' and g.a[1] == 'Failed' for g in facts):
        return any(is_arg(x, 'amount') for x in als)
    return False


# ---------------------------------------------------------------- whose balance
BURROW = mk('T', eq(PRED, mk('proj', SELF, 'burrowland_id')))
OWNER_ID = mk('proj', SELF, 'owner_id')


def person(cx, kind, t, facts, debit_):
    """why this account's balance may move here, None if it may not"""
    I = cx.I
    t = strip(t)
    if is_c(t):
        return 'the virtual account of this call'
    if t is PRED or same_person(facts, t, PRED):
        return 'the caller\'s own'
    priv = entails(I, facts, any_of(PRIV))
    if debit_:
        if t is OWNER_ID and entails(I, facts, any_of(owner('exchange'), guardian())):
            return 'the owner\'s, for the owner or a guardian'
        if is_arg(t, 'receiver_id') and priv:
            return 'the receiver\'s, when a transfer call resolves'
        return None
    if is_arg(t, 'sender_id') and (cx.name == 'ft_on_transfer' or priv):
        return 'the sender named by the token contract, or refunded'
    if is_arg(t, 'receiver_id') and cx.name.startswith('mft_transfer'):
        return 'a named receiver'
    if t is OWNER_ID and priv:
        return 'kept for the owner when the sender cannot be refunded'
    if t is OWNER_ID and (cx.name == 'donation_token' or entails(I, facts, any_of(owner('exchange'), guardian()))):
        return 'the owner\'s: a donation, or the exchange\'s own fees'
    if entails(I, facts, any_of(BURROW)):
        return 'the liquidator, for burrowland'
    return None


class TokenOwners(Rule):
    id = 'T02'
    rule = ('every write that lowers an account\'s token balance is to the account of the predecessor, to the owner\'s under owner/guardian, to the receiver\'s in the private '
            'resolve callback, or to the per-call virtual account; every write that raises one is to the predecessor, the sender named in ft_on_transfer or in a private '
            'callback, the receiver of a transfer, the owner in a private callback, or happens only for burrowland; lost-and-found balances go down only for their own account')
    floors = {'debits': 25, 'credits': 40}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ACTIONS

    def check(self, cx):
        I = cx.I
        for e in tok_events(I):
            tok, form, own = e.extra
            if not form:
                continue
            deb = not all(v > 0 for v in form.values())
            # a change that is undone at once books nothing: the entry put in is taken out again
            facts = e.facts | cx.facts
            bad = []
            for kind, t in own:
                if kind == '?':
                    bad.append('an account that is not recognised (%s)' % show(t, 4)[:80])
                    continue
                for k in leafset(I, t):
                    if person(cx, kind, k, facts, deb) is None and not (deb and undone(e)):
                        bad.append(show(k, 5)[:80])
            cx.ob(not bad, 'debit' if deb else 'credit', ('a balance goes down only by or for its own account' if deb else 'a balance is credited to an account with a claim to it') +
                  (': ' + ', '.join(bad) if bad else ''), e, count='debits' if deb else 'credits')


def undone(e):
    """takes out what was just put in"""
    m = e.args[0]
    return e.name.endswith('::remove') and m.op == 'after' and m.a[0].endswith('::insert') and m.a[1] == 0 and m.a[2][1] is e.args[1]


# ---------------------------------------------------------------- transfers that fail
CALLBACKS = ('exchange_callback_post_withdraw', 'exchange_callback_post_withdraw_near')


def cross_call(t):
    """(account, method, {argument: value}, deposit) of a function-call promise, looked at through its serialised arguments"""
    if t.op != 'call' or t.a[0] != 'Promise::function_call' or len(t.a[1]) < 3:
        return None
    p, m, args = t.a[1][:3]
    acct = p.a[1][0] if p.op == 'call' and p.a[0] == 'Promise::new' else None
    m = strip(m)
    if not is_c(m):
        return None
    name = cval(m)
    name = name.decode() if isinstance(name, bytes) else str(name)
    name = name.strip('"').removeprefix('b"')
    x = args
    for _ in range(4):
        if x.op == 'proj' and x.a[0].op == 'as':
            x = x.a[0].a[0]
        elif x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('to_vec', 'into_bytes', 'unwrap', 'to_string') and x.a[1]:
            x = x.a[1][0]
        else:
            break
    d = dict(zip(x.a[1], x.a[2])) if x.op == 'ctor' and x.a[1] else {}
    return acct, name, d, (t.a[1][3] if len(t.a[1]) > 3 else None)


def inner(t):
    """through U128(..) and account wrappers"""
    t = strip(t)
    while t.op == 'ctor' and len(t.a[2]) == 1:
        t = strip(t.a[2][0])
    if t.op == 'proj' and t.a[1] == 0 and arg_path(t) is not None:
        return t
    return t


def same_val(I, facts, a, b):
    a, b = inner(a), inner(b)
    if a is b or mk('T', eq(a, b)) in facts:
        return True
    if a.op == 'proj' and a.a[1] == 0 and a.a[0] is b or b.op == 'proj' and b.a[1] == 0 and b.a[0] is a:
        return True
    return False


WNEAR = mk('proj', mk('as', mk('proj', SELF, 'wnear_id'), 'Some'), 0)


class FailedSends(Rule):
    id = 'T03'
    rule = ('every outgoing transfer (ft_transfer, ft_transfer_call, near_withdraw) of an entry point other than retrieve_unmanaged_token is followed, on every path, by .then() '
            'with a private callback of this contract that is given the same token, receiver and amount; that callback books the amount back on every path where the '
            'promise failed and books nothing where it succeeded, except passing on the NEAR that was unwrapped')
    floors = {'sends': 6, 'callbacks': 2, 'refunds': 4}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['withdraw', 'ft_on_transfer', 'claim_lostfound'] + list(CALLBACKS)

    def check(self, cx):
        I = cx.I
        sends = I.__dict__.get('sends', {})
        for e in sends.values():
            if cx.name == 'retrieve_unmanaged_token':
                continue
            recv, amt, tok = books.send_of(e)
            why = 'no callback'
            for t in cx.calls('Promise::then'):
                if t.args[0] is not e.ret or t.ctx != e.ctx:
                    continue
                c = cross_call(t.args[1])
                if c is None:
                    why = 'the callback is not a function call'
                    continue
                acct, name, d, dep = c
                f = e.facts
                if acct is not CURRENT:
                    why = 'the callback is not on this contract'
                elif name not in CALLBACKS:
                    why = 'the callback is %s' % name
                elif not any(same_val(I, f, v, amt) for k, v in d.items() if k == 'amount'):
                    why = 'the callback is given another amount'
                elif recv is not None and not any(same_val(I, f, v, recv) for k, v in d.items() if k == 'sender_id'):
                    why = 'the callback refunds another account'
                elif name.endswith('_near') and not (e.name.endswith('near_withdraw') and (same_val(I, f, tok, WNEAR) or phi_eq(I, f, inner(tok), WNEAR) or same_wnear(I, f, tok))):
                    why = 'the NEAR callback is for wNEAR only'
                elif not name.endswith('_near') and e.name.endswith('near_withdraw'):
                    why = 'unwrapping needs the NEAR callback'
                elif not name.endswith('_near') and not any(same_val(I, f, v, tok) for k, v in d.items() if k == 'token_id'):
                    why = 'the callback is given another token'
                elif not inevitable(I, (e.ctx, e.bb), (t.ctx, t.bb)):
                    why = 'the callback is skipped on some path'
                else:
                    why = None
                    break
            cx.ob(why is None, 'send', 'a transfer out is followed by the callback that takes it back if it fails' + (': ' + why if why else ''), e, count='sends')
        if cx.name not in CALLBACKS:
            return
        near = cx.name.endswith('_near')
        cx.count('callbacks')
        n = 0
        for a in cx.alts:
            facts = cx.facts | a
            failed = any(f.op == 'V' and f.a[1] == 'Failed' for f in facts)
            ok = any(f.op == 'V' and f.a[1] == 'Successful' for f in facts)
            ps = [f for f in a if f.op == 'pend' and f.a[0][0] == 'tok']
            if failed:
                tokok = lambda t: t is WNEAR if near else is_arg(t, 'token_id')
                none = not ps and any(ledger.zero(facts, x) for x in amounts(facts))
                cx.ob(none or len(ps) == 1 and ps[0].a[2] == 1 and any(is_arg(x, 'amount') for x in ps[0].a[1]) and tokok(strip(ps[0].a[0][1])), 'refund',
                      'when the transfer failed exactly the amount is booked back', count='refunds')
            elif ok:
                cx.ob(not ps, 'norefund', 'when the transfer succeeded nothing is booked', count='refunds')
            else:
                cx.ob(False, 'outcome', 'every path knows whether the transfer failed')
        for e in tok_events(I):
            cx.ob(always(I, e.facts, e.may, lambda f: any(x.op == 'V' and x.a[1] == 'Failed' for x in f)), 'late', 'balances change only when the transfer failed', e)
        tr = cx.calls('Promise::transfer')
        for e in tr:
            p = e.args[0]
            ok = near and p.op == 'call' and p.a[0] == 'Promise::new' and is_arg(p.a[1][0], 'sender_id') and is_arg(inner(e.args[1]), 'amount') and \
                any(x.op == 'V' and x.a[1] == 'Successful' for x in e.facts)
            cx.ob(ok, 'near', 'the unwrapped NEAR goes to the withdrawing account, once, when unwrapping succeeded', e)
        if near:
            cx.ob(len(tr) == 1, 'near', 'the unwrapped NEAR is passed on')


def amounts(facts):
    """the argument `amount` as the facts name it"""
    return {x for f in facts for t in f.a if isinstance(t, T) for x in subterms(t) if is_arg(x, 'amount')}


def same_wnear(I, facts, tok):
    """the path has compared the token with wnear_id"""
    t = inner(tok)
    for f in facts:
        if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq' and (f.a[0].a[1] is t or f.a[0].a[2] is t):
            o = f.a[0].a[2] if f.a[0].a[1] is t else f.a[0].a[1]
            if any(x is mk('proj', SELF, 'wnear_id') for x in subterms(o)):
                return True
    return False


# ---------------------------------------------------------------- deposits
def whitelisted(I, facts, tok, own=()):
    """the token is whitelisted, by list or postfix, or the account already has an entry for it"""
    def pred(fs):
        for f in fs:
            if f.op == 'T':
                t = f.a[0]
                if t.op == 'call' and t.a[0].endswith('::contains') and any(x is mk('proj', SELF, 'whitelisted_tokens') for x in subterms(t.a[1][0])) and strip(t.a[1][1]) is strip(tok):
                    return True
                if t.op == 'any' and any(x is mk('proj', SELF, 'auto_whitelisted_postfix') for x in subterms(t.a[0])) and \
                        any(x.op == 'call' and x.a[0].endswith('ends_with') and strip(x.a[1][0]) is strip(tok) for x in subterms(t)):
                    return True
                if t.op == 'call' and t.a[0].endswith('contains_key') and strip(t.a[1][1]) is strip(tok) and has_entry(I, t.a[1][0]):
                    return True
                if t.op == 'isvar' and t.a[1] == 'Some' and entry_get(I, t.a[0], tok):
                    return True
            elif f.op == 'V' and f.a[1] == 'Some' and entry_get(I, f.a[0], tok):
                return True
        return False
    return entails(I, facts, pred, 5)


def has_entry(I, m):
    return any(o[0] == 'acct' for o in books.owner_of(I, m))


def entry_get(I, t, tok):
    """t is the balance entry of an account for the token"""
    for x in may_be(I, t):
        if x.op == 'phi' or x.op == 'ctor':
            continue
        if not (x.op == 'call' and x.a[0].rsplit('::', 1)[-1] in ('get', 'get_mut', 'remove') and x.a[0].split('::')[0] in ('HashMap', 'UnorderedMap') and
                strip(x.a[1][1]) is strip(tok) and has_entry(I, x.a[1][0])):
            return False
    return True


class Deposits(Rule):
    id = 'T04'
    rule = ('on every returning path of ft_on_transfer the value returned to the token contract is 0 and the amount received is booked in exactly once, under the token that '
            'called; a plain deposit goes to the named sender, who is registered, and only for a token that is whitelisted (list or postfix) or already held')
    floors = {'paths': 3, 'returns': 1, 'direct': 1, 'amounts': 2}

    def select(self, P, crate, name):
        return name == 'ft_on_transfer'

    def required(self, crate):
        return ['ft_on_transfer']

    def check(self, cx):
        I = cx.I
        for a in cx.alts:
            if contradicts(cx.facts, a):
                continue
            facts = cx.facts | a
            got = {f.a[0] for f in a if f.op == 'got'}
            none = not got and any(ledger.zero(facts, x) for x in amounts(facts))
            cx.ob(none or got == {1}, 'once', 'what was received is booked in exactly once, under the calling token', count='paths')
        rets = [e for e in cx.evs if e.kind == 'call' and (e.name.endswith('value_return') or e.name.endswith('promise_return') or e.name.endswith('as_return'))]
        for e in rets:
            z = False
            if e.name.endswith('value_return'):
                x = e.args[-1]
                while x.op in ('proj', 'as') or x.op == 'call' and x.a[1]:
                    x = x.a[0] if x.op != 'call' else x.a[1][0]
                z = all(zero_value(l) for l in leafset(I, x))
            cx.ob(z, 'value', 'the token contract is told that nothing is to be refunded', e, count='returns')
        for e in tok_events(I):
            tok, form, own = e.extra
            if tok is PRED and any(n > 0 and is_arg(x, 'amount') for x, n in form.items()):
                cx.ob(set(form.values()) == {1} and len(form) == 1, 'amount', 'the amount booked in is the amount received', e, count='amounts')
            if tok is PRED and own and all(is_arg(t, 'sender_id') for k, t in own):
                cx.ob(whitelisted(I, e.facts, tok), 'whitelist', 'a plain deposit is of a whitelisted token or one the account holds', e, count='direct')
                cx.ob(any(f.op == 'V' and f.a[1] == 'Some' and f.a[0].op == 'call' and f.a[0].a[0] == 'LookupMap::get' and is_arg(f.a[0].a[1][1], 'sender_id') for f in e.facts),
                      'registered', 'a plain deposit is for a registered account', e)


def zero_value(t):
    t = strip(t)
    while t.op == 'ctor' and len(t.a[2]) == 1:
        t = strip(t.a[2][0])
    return is_c(t) and cval(t) in (0, '0')


# ---------------------------------------------------------------- share transfer calls
def upper(I, t, ok, depth=0):
    """t is at most a value for which ok holds, by its form"""
    t = inner(t)
    if ok(t):
        return True
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] == 'min':
        return any(upper(I, x, ok, depth + 1) for x in t.a[1])
    if t.op == 'phi' and depth < 6:
        info = I.phi_info.get(t) or {}
        return bool(info) and all(not b and upper(I, o, ok, depth + 1) for (o, pf, b) in info.values())
    return False


def min_atoms(I, t, out, depth=0):
    t = inner(t)
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] == 'min':
        for x in t.a[1]:
            min_atoms(I, x, out, depth + 1)
    elif t.op == 'phi' and depth < 8 and I.phi_info.get(t):
        for (o, pf, b) in I.phi_info[t].values():
            min_atoms(I, o, out, depth + 1)
    else:
        out.add(t)
    return out


def parsed(t):
    """the unused amount the receiver reported"""
    return any(x.op == 'call' and x.a[0].endswith('from_slice') and any(y.op == 'call' and y.a[0] == 'env::promise_result' for y in subterms(x)) for x in subterms(t))


class ShareCalls(Rule):
    id = 'T05'
    rule = ('mft_transfer_call and mft_transfer_all_call tell the receiver the amount that was booked, with .then(mft_resolve_transfer) given the same token, sender, receiver and '
            'amount; in the callback what goes back is min(receiver balance, unused) with unused = min(amount, reported) when the call succeeded and reported it and amount '
            'otherwise; it leaves the receiver for the sender, or for the exchange if the sender has no account; transfers to oneself and of nothing are refused')
    floors = {'calls': 2, 'refunds': 1, 'outcomes': 2}
    ENTRIES = ['mft_transfer', 'mft_transfer_all', 'mft_transfer_call', 'mft_transfer_all_call', 'mft_resolve_transfer']

    def select(self, P, crate, name):
        return name.startswith('mft_') and name in self.ENTRIES

    def required(self, crate):
        return ['mft_transfer', 'mft_transfer_call', 'mft_transfer_all_call', 'mft_resolve_transfer']

    def moved(self, cx):
        """amount terms booked off a share or token balance"""
        out = []
        for e in share_events(cx.I):
            if debit(e):
                out.append((e, e.args[1], [t for d in e.extra for t in d]))
        for e in tok_events(cx.I):
            if e.extra[1] and negative(e.extra[1]) and not undone(e):
                for o in e.extra[2]:
                    out.append((e, o[1], list(e.extra[1])))
        return out

    def check(self, cx):
        I = cx.I
        mv = self.moved(cx)
        for e, key, xs in mv:
            if cx.name in ('mft_transfer', 'mft_transfer_call'):
                cx.ob(any(is_arg(inner(x), 'amount') for x in xs), 'amount', 'the amount moved is the amount asked for', e)
            f = e.facts | cx.facts
            cx.ob(any(x.op == 'T' and x.a[0].op == 'bin' and x.a[0].a[0] == 'Lt' and ledger.zero_const(x.a[0].a[1]) and inner(x.a[0].a[2]) in {inner(y) for y in xs} or
                      x.op == 'F' and x.a[0].op == 'bin' and x.a[0].a[0] == 'Eq' and any(ledger.zero_const(y) for y in x.a[0].a[1:]) and
                      any(inner(z) in {inner(y) for y in xs} for z in x.a[0].a[1:]) for x in f), 'nothing', 'a transfer of nothing is refused', e)
            if cx.name != 'mft_resolve_transfer':
                cx.ob(any(x.op == 'F' and x.a[0].op == 'bin' and x.a[0].a[0] == 'Eq' and PRED in (strip(x.a[0].a[1]), strip(x.a[0].a[2])) and
                          any(is_arg(y, 'receiver_id') for y in x.a[0].a[1:]) for x in f), 'self', 'a transfer to oneself is refused', e)
        if cx.name.endswith('_call'):
            for e in cx.evs:
                if e.kind != 'call' or not e.name.endswith('::mft_on_transfer'):
                    continue
                tok, snd, amt, msg, rcv = e.args[:5]
                why = 'no callback'
                for t in cx.calls('Promise::then'):
                    c = cross_call(t.args[1]) if t.args[0] is e.ret else None
                    if c is None:
                        continue
                    acct, name, d, dep = c
                    f = t.facts
                    bad = [k for k, v in (('token_id', tok), ('sender_id', snd), ('receiver_id', rcv), ('amount', amt)) if k not in d or not same_val(I, f, d[k], v)]
                    why = 'not on this contract' if acct is not CURRENT else 'the callback is %s' % name if name != 'mft_resolve_transfer' else \
                        'the callback is given another ' + bad[0] if bad else None if inevitable(I, (e.ctx, e.bb), (t.ctx, t.bb)) else 'the callback is skipped on some path'
                    if why is None:
                        break
                if why is None and not (is_arg(tok, 'token_id') and inner(snd) is PRED and is_arg(inner(rcv), 'receiver_id')):
                    why = 'the receiver is told another token, sender or receiver'
                if why is None:
                    am = inner(amt)
                    for m, key, xs in mv:
                        if not any(may_equal(I, am, inner(x)) for x in xs):
                            why = 'the receiver is told another amount than was moved'
                cx.ob(why is None, 'call', 'a transfer call hands over the transferred amount and is resolved by the callback' + (': ' + why if why else ''), e, count='calls')
        if cx.name != 'mft_resolve_transfer':
            return
        for e, key, xs in mv:
            cx.ob(is_arg(key, 'receiver_id'), 'from', 'what goes back leaves the receiver', e)
            for x in xs:
                at = min_atoms(I, x, set())
                bal = {t for t in at if not is_arg(t, 'amount') and not parsed(t)}
                ok = upper(I, x, lambda t: is_arg(t, 'amount')) and any(parsed(t) for t in at) and any(is_arg(t, 'amount') for t in at) and \
                    all(balance_of(I, t, 'receiver_id') for t in bal) and bool(bal)
                ok = ok and upper(I, x, lambda t: bool(bal) and (t in bal or balance_of(I, t, 'receiver_id')))
                cx.ob(ok, 'refund', 'what goes back is the least of the receiver\'s balance, the amount and what was reported unused (here %s)' % show(x, 5)[:120], e, count='refunds')
                outcome(cx, x, e)
        gets = [(e, e.args[1]) for e in share_events(I) if credit(e)]
        gets += [(e, o[1]) for e in tok_events(I) if e.extra[1] and not negative(e.extra[1]) for o in e.extra[2]]
        for e, key in gets:
            for k, fs in farmbooks.values(I, e.facts | cx.facts, key):
                k = strip(k)
                cx.ob(k is CURRENT or is_arg(k, 'sender_id'), 'to', 'what goes back is for the sender, or the exchange', e)
                cx.ob(entails(I, fs, lambda f: account_of(f, 'sender_id', k is not CURRENT), 4), 'to', 'what goes back is for the sender if it has an account, else for the exchange', e)


def account_of(facts, arg, there):
    """the facts say that the account named by the argument is registered (or is not)"""
    for f in facts:
        t, yes = f.a[0], None
        if f.op == 'V' and f.a[1] in ('Some', 'None'):
            yes = f.a[1] == 'Some'
        elif f.op in ('T', 'F') and t.op == 'isvar':
            yes, t = (t.a[1] == 'Some') == (f.op == 'T'), t.a[0]
        elif f.op in ('T', 'F') and t.op == 'call' and t.a[0].endswith('::contains_key'):
            yes = f.op == 'T'
        while yes is not None and (t.op == 'optmap' or t.op == 'call' and t.a[0].startswith('Option::') and t.a[1]):
            t = t.a[1][0] if t.op == 'call' else t.a[0]
        if yes is there and yes is not None and t.op == 'call' and t.a[0].startswith('LookupMap::') and len(t.a[1]) == 2 and \
                t.a[1][0] is mk('proj', SELF, 'accounts') and is_arg(strip(t.a[1][1]), arg):
            return True
    return False


def balance_of(I, t, arg, depth=0):
    """the balance of the account named by the argument, or zero"""
    for x in leafset(I, t):
        x = strip(x)
        if ledger.zero_const(x) or x.op == 'ctor' and x.a[0].endswith('None'):
            continue
        if x.op == 'call' and x.a[0].startswith('Option::unwrap_or') or x.op == 'optmap' or \
                x.op == 'call' and x.a[0] in ('Option::copied', 'Option::cloned', 'Option::map', 'Option::and_then'):
            y = x.a[1][0] if x.op == 'call' else x.a[1]
            if y.op == 'bin' or depth > 6 or not balance_of(I, y, arg, depth + 1):
                return False
            continue
        if x.op == 'ctor' and x.a[0].endswith('::Some'):
            x = strip(x.a[2][0])
        c = payload_call(x) or x
        if c.op == 'call' and c.a[0].endswith('::get') and is_arg(c.a[1][1], arg):
            continue
        if c.op == 'call' and c.a[0].endswith('::get') and any(o[0] == 'acct' and is_arg(o[1], arg) for o in books.owner_of(I, c.a[1][0])):
            continue
        return False
    return True


def outcome(cx, x, e):
    """the reported amount counts exactly when the call succeeded and the report could be read"""
    I = cx.I
    for t in subterms_deep(I, x):
        if t.op != 'phi' or not I.phi_info.get(t):
            continue
        ops = I.phi_info[t]
        if not any(parsed(o) for (o, pf, b) in ops.values()) or not any(is_arg(inner(o), 'amount') for (o, pf, b) in ops.values()):
            continue
        for (o, pf, b) in ops.values():
            ok = any(f.op == 'V' and f.a[1] == 'Successful' for f in pf)
            read = any(f.op == 'V' and f.a[1] == 'Ok' and parsed(f.a[0]) for f in pf)
            if parsed(o):
                cx.ob(ok and read, 'outcome', 'the reported amount is used only when the call succeeded', e, count='outcomes')
            elif is_arg(inner(o), 'amount'):
                cx.ob(not (ok and read), 'outcome', 'without a report everything goes back', e, count='outcomes')


def subterms_deep(I, t, depth=0, seen=None):
    seen = set() if seen is None else seen
    for x in subterms(t):
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and depth < 5:
            for (o, pf, b) in (I.phi_info.get(x) or {}).values():
                subterms_deep(I, o, depth + 1, seen)
    return seen


def may_equal(I, a, b):
    return a is b or bool({inner(x) for x in may_be(I, a)} & {inner(x) for x in may_be(I, b)})

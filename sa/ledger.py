"""Double-entry typestate: what has been booked on one side only, per path alternative.

A pend fact  pend(tag, aliases, coef)  says that on this alternative the ledger `tag` is off balance by
coef * amount, the amount being known under each of the terms in `aliases`.  Booking the other side cancels it."""
from query import *  # noqa
from terms import T, mk, C, is_c, cval, phis, subterms

ONE = C(1)


def lin(t, sign=1, out=None, depth=0):
    """linear form over atoms: {atom: coef}"""
    if out is None:
        out = {}
    if is_c(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool):
        if cval(t):
            out[t] = out.get(t, 0) + sign
    elif t.op == 'bin' and t.a[0] in ('Add', 'Sub') and depth < 12:
        lin(t.a[1], sign, out, depth + 1)
        lin(t.a[2], sign if t.a[0] == 'Add' else -sign, out, depth + 1)
    elif t.op == 'call' and len(t.a[1]) == 2 and t.a[0] in ('Add::add', 'Sub::sub') and depth < 12:
        lin(t.a[1][0], sign, out, depth + 1)
        lin(t.a[1][1], sign if t.a[0] == 'Add::add' else -sign, out, depth + 1)
    elif t.op == 'after' and t.a[1] == 0 and t.a[0] in ('AddAssign::add_assign', 'SubAssign::sub_assign') and depth < 12:
        lin(t.a[2][0], sign, out, depth + 1)
        lin(t.a[2][1], sign if t.a[0] == 'AddAssign::add_assign' else -sign, out, depth + 1)
    else:
        x = checked(t)
        if x is not None and depth < 12:
            op, a, b = x
            lin(a, sign, out, depth + 1)
            lin(b, sign if op == 'Add' else -sign, out, depth + 1)
        elif t.op == 'cast' and 'u128' in str(t.a[0]):
            lin(t.a[1], sign, out, depth + 1)
        elif t.op == 'call' and t.a[0] == 'Option::unwrap_or' and zero_const(t.a[1][1]) and t.a[1][0].op == 'call' and \
                t.a[1][0].a[0].rsplit('::', 1)[-1] in ('get', 'remove'):
            # a missing entry is no balance
            x = mk('proj', mk('as', t.a[1][0], 'Some'), 0)
            out[x] = out.get(x, 0) + sign
        else:
            out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v} if depth == 0 else out


OPS = {'checked_add': 'Add', 'checked_sub': 'Sub', 'Add::add': 'Add', 'Sub::sub': 'Sub'}


def checked(t):
    """(op, a, b) when t is the payload of a checked addition or subtraction"""
    if t.op == 'proj' and t.a[1] == 0 and t.a[0].op == 'as' and t.a[0].a[1] == 'Some':
        c = t.a[0].a[0]
        if c.op == 'call':
            o = OPS.get(c.a[0].rsplit('::', 1)[-1])
            if o and len(c.a[1]) == 2:
                return o, c.a[1][0], c.a[1][1]
    return None


def sub_lin(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


def zero(facts, x):
    """x is known to be zero"""
    if is_c(x):
        return cval(x) == 0
    c = payload_call(x)
    if c is not None:
        # a removed entry: nothing was there, or what was there is known to be zero
        if mk('V', c, 'None') in facts or mk('NV', c, 'Some') in facts:
            return True
        for d in (C(0), mk('call', 'Default::default', ())):
            if mk('T', eq(mk('call', 'Option::unwrap_or', (c, d)), C(0))) in facts:
                return True
    if mk('T', eq(x, C(0))) in facts or mk('F', mk('bin', 'Lt', C(0), x)) in facts:
        return True
    return mk('T', mk('bin', 'Le', x, C(0))) in facts


def payload_call(x):
    if x.op == 'proj' and x.a[1] == 0 and x.a[0].op == 'as' and x.a[0].a[1] == 'Some' and x.a[0].a[0].op == 'call':
        return x.a[0].a[0]
    return None


def same_amount(facts, x):
    """other terms known to be equal to x: what was taken out left nothing"""
    out = set()
    for f in facts:
        t = f.a[0] if f.op in ('T', 'F') else None
        if t is None or t.op != 'bin':
            continue
        d = None
        if f.op == 'T' and t.a[0] in ('Eq', 'Le') and zero_const(t.a[2]):
            d = t.a[1]
        elif f.op == 'T' and t.a[0] == 'Eq' and zero_const(t.a[1]):
            d = t.a[2]
        elif f.op == 'F' and t.a[0] == 'Lt' and zero_const(t.a[1]):
            d = t.a[2]
        elif f.op == 'T' and t.a[0] == 'Eq' and (t.a[1] is x or t.a[2] is x):
            out.add(t.a[2] if t.a[1] is x else t.a[1])
        elif t.a[0] in ('Le', 'Lt') and (t.a[1] is x or t.a[2] is x):
            # x <= y and y <= x
            a, b = (t.a[1], t.a[2]) if (f.op, t.a[0]) == ('T', 'Le') else (t.a[2], t.a[1]) if (f.op, t.a[0]) == ('F', 'Lt') else (None, None)
            if a is not None and (mk('T', mk('bin', 'Le', b, a)) in facts or mk('F', mk('bin', 'Lt', a, b)) in facts):
                out.add(b if a is x else a)
        if d is not None and d is not x:
            g = lin(d)
            if len(g) == 2 and g.get(x) in (1, -1) and sum(g.values()) == 0:
                out |= set(g) - {x}
    return out


def equal(facts, x, y):
    return x is y or mk('T', eq(x, y)) in facts


def apply(I, alt, tag, form, facts, site, sites):
    """alternative after booking the linear form under tag"""
    pend = {f for f in alt if f.op == 'pend'}
    rest = alt - pend
    for x, n in form.items():
        if zero(facts, x):
            continue
        hit = None
        for p in pend:
            if tag_eq(I, facts, p.a[0], tag) and any(equal(facts, x, y) for y in p.a[1]):
                hit = p
                break
        if hit is not None:
            pend.discard(hit)
            c = hit.a[2] + n
            if c:
                if abs(c) > 6:
                    c = 7 if c > 0 else -7
                q = mk('pend', hit.a[0], tuple(sorted(set(hit.a[1]) | {x}, key=lambda z: z.id)), c)
                pend.add(q)
                sites.setdefault(q, site)
        else:
            q = mk('pend', tag, (x,), n)
            pend.add(q)
            sites.setdefault(q, site)
    return frozenset(rest | pend)


def book(I, st, tag, form, site):
    sites = I.__dict__.setdefault('pend_sites', {})
    if not form:
        return
    st.may = frozenset(apply(I, a, tag, form, st.facts | a, site, sites) for a in st.may if not contradicts(st.facts, a)) or st.may


BOOK = ('pend', 'dirty')


def names_at(I, newphis, i):
    """value on edge i -> its name after the join: the joined place itself, or a field of it"""
    m = {}
    for ph, vs in newphis:
        v = vs[i]
        if not is_c(v):
            m.setdefault(v, ph)
    for ph, vs in newphis:
        fields(I, vs[i], ph, m, 0)
    return m


def fields(I, v, name, m, d):
    if v.op == 'optmap' and d < 3:
        c = v.a[1]
        if not is_c(c):
            m.setdefault(c, mk('proj', mk('as', name, 'Some'), 0))
        return
    if v.op != 'ctor' or d > 3:
        return
    var = I.variant_of(v)
    base = mk('as', name, var) if var else name
    for k, c in enumerate(v.a[2]):
        n = mk('proj', base, v.a[1][k] if v.a[1] else k)
        if not is_c(c):
            m.setdefault(c, n)
        fields(I, c, n, m, d + 1)


def rename(t, m, hp):
    """t in terms of the names after a back edge, None when it cannot be said"""
    if not (phis(t) & hp) and t not in m:
        return t
    w = subst(t, {k: mk('new', v) for k, v in m.items()})
    if bare(w, hp):
        return None
    return unwrap(w)


def bare(t, hp):
    if t.op == 'new':
        return False
    if t.op == 'phi' and t.id in hp:
        return True
    if not (phis(t) & hp):
        return False
    st = list(t.a)
    while st:
        y = st.pop()
        if isinstance(y, T):
            if bare(y, hp):
                return True
        elif isinstance(y, tuple):
            st.extend(y)
    return False


def unwrap(t):
    if t.op == 'new':
        return t.a[0]

    def go(y):
        if isinstance(y, T):
            return unwrap(y)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y
    na = tuple(go(y) for y in t.a)
    return t if na == t.a else mk(t.op, *na)


def rename_tag(tag, m, hp):
    out = []
    for x in tag:
        if isinstance(x, T):
            x = rename(x, m, hp)
        elif isinstance(x, tuple):
            x = rename_tag(x, m, hp)
        if x is None:
            return None
        out.append(x)
    return tuple(out)


def carry(m, f):
    """a path fact about a joined value, about its new name"""
    x = f.a[0]
    n = m.get(x)
    if n is not None:
        return mk(f.op, n, *f.a[1:])
    if f.op in ('T', 'F') and x.op == 'bin':
        y = mk('bin', x.a[0], m.get(x.a[1], x.a[1]), m.get(x.a[2], x.a[2]))
        if y is not x:
            if y.a[0] == 'Eq':
                y = eq(y.a[1], y.a[2])
            return mk(f.op, y)
    return None


def at_join(I, alt, m, facts, back, hp, dropped):
    """carry pend facts over a join: learn the new names of the amounts, drop what is known to be zero; over a back edge only what
    can be said in terms of the next iteration survives, the rest is recorded in `dropped`"""
    out = set()
    for f in alt:
        if f.op == 'dirty':
            if back and hp:
                r = rename(f.a[1], m, hp)
                if r is None:
                    dropped.add(f)
                    continue
                f = mk('dirty', f.a[0], r, f.a[2] if not (phis(f.a[2]) & hp) else mk('none'))
            out.add(f)
            continue
        if f.op != 'pend':
            if f.op in ('T', 'F', 'V', 'NV'):
                g = carry(m, f)
                if g is not None:
                    out.add(g)
            if back and hp and phis(f) & hp:
                continue
            out.add(f)
            continue
        tag, al, n = f.a
        if any(zero(facts, x) for x in al):
            continue
        if tag[0] == 'cache':
            al = tuple(sorted(set(al) | {y for x in al for y in same_amount(facts, x)}, key=lambda z: z.id))
        als = {m[x] for x in al if x in m}
        if back and hp:
            als |= {y for y in (rename(x, m, hp) for x in al) if y is not None}
            ntag = rename_tag(tag, m, hp)
            if not als or ntag is None:
                dropped.add(f)
                continue
        else:
            als |= set(al)
            ntag = tag
        q = f if als == set(f.a[1]) and ntag == tag else mk('pend', ntag, tuple(sorted(als, key=lambda z: z.id)), n)
        if q is not f:
            s = I.__dict__.setdefault('pend_sites', {})
            if f in s:
                s.setdefault(q, s[f])
        out.add(q)
    return frozenset(out)


def at_return(I, alt, ctx, keep=frozenset()):
    """bookings against a local of the frame that ends: an unbooked write to storage is an error, a local change is forgotten"""
    out = set()
    for f in alt:
        if f.op == 'pend' and f.a[0][0] == 'shares' and f.a[0][1][0] == 'L' and f.a[0][1][1] == ctx:
            site = I.__dict__.get('pend_sites', {}).get(f)
            if site is not None:
                I.__dict__.setdefault('book_errors', {})[(site.ctx, site.bb, 'unbalanced')] = (site, 'unbalanced')
            continue
        if f.op in ('T', 'F', 'V', 'NV') and f.a[0].op == 'phi' and f.a[0].a[0] == ctx and f.a[0].a[2][0] == 'L' and f.a[0].id not in keep:
            continue
        out.add(f)
    return frozenset(out)


def pends(alt, tagpred=lambda t: True):
    return [f for f in alt if f.op == 'pend' and tagpred(f.a[0])]


# ---------------------------------------------------------------- old values of maps
def payload_of_get(t):
    """(get-call, default?) when t is what a get returned, or that or zero"""
    if t.op == 'proj' and t.a[1] == 0 and t.a[0].op == 'as' and t.a[0].a[1] == 'Some' and t.a[0].a[0].op == 'call' and t.a[0].a[0].a[0].endswith('::get'):
        return t.a[0].a[0], False
    if t.op == 'call' and t.a[0] == 'Option::unwrap_or' and t.a[1][0].op == 'call' and t.a[1][0].a[0].endswith('::get') and \
            (is_c(t.a[1][1]) and cval(t.a[1][1]) == 0 or t.a[1][1].op == 'call' and t.a[1][1].a[0] == 'Default::default'):
        return t.a[1][0], True
    return None


def tok_eq(facts, a, b):
    """the two terms name the same token, as far as this path tells (modulo the variant a match went through)"""
    if a is b or mk('T', eq(a, b)) in facts:
        return True
    return False


def may_be(I, t, depth=0, seen=None):
    """t and what it may stand for at its joins"""
    seen = set() if seen is None else seen
    if t in seen:
        return seen
    seen.add(t)
    if t.op == 'ref' and t.a[0][0][0] == 'D':
        may_be(I, I.project(t.a[0][0][1], t.a[0][1]), depth, seen)
    if t.op == 'phi' and depth < 4:
        for (o, pf, b) in (I.phi_info.get(t) or {}).values():
            may_be(I, o, depth + 1, seen)
    return seen


def tag_eq(I, facts, p, q):
    if p == q:
        return True
    if p[0] == 'tok' and q[0] == 'tok' and len(p) == len(q) == 2:
        a, b = p[1], q[1]
        if tok_eq(facts, a, b):
            return True
        ma, mb = may_be(I, a), may_be(I, b)
        if ma & mb:
            return True
        for f in facts:
            if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq':
                x, y = f.a[0].a[1], f.a[0].a[2]
                if x.op == 'c' or y.op == 'c':
                    continue
                mx, my = may_be(I, x), may_be(I, y)
                if (mx & ma and my & mb) or (mx & mb and my & ma):
                    return True
    return False


def same_map(facts, get_map, now_map, key):
    """the entry of `key` in now_map is what it was in get_map: only other keys were written in between"""
    n = 0
    m = now_map
    while m is not get_map and n < 20:
        n += 1
        if m.op == 'after' and m.a[0].rsplit('::', 1)[-1] in ('insert', 'remove') and m.a[1] == 0:
            k = m.a[2][1]
            if mk('F', eq(k, key)) not in facts:
                return False
            m = m.a[2][0]
        else:
            return False
    return m is get_map


def old_value(I, facts, t, mp, key, depth=0):
    """t is the amount the map holds for the key just before this write"""
    g = payload_of_get(t)
    if g is not None:
        c = g[0]
        return c.a[1][1] is key and same_map(facts, c.a[1][0], mp, key)
    if zero_const(t):
        if any(mk('V', mk('call', n, (mp, key)), 'None') in facts for n in ('LookupMap::get', 'UnorderedMap::get', 'HashMap::get', 'HashMap::get_mut',
                                                                           'HashMap::remove', 'UnorderedMap::remove')):
            return True
        if mk('F', mk('call', 'UnorderedMap::contains_key', (mp, key))) in facts or mk('F', mk('call', 'HashMap::contains_key', (mp, key))) in facts or mk('F', mk('call', 'LookupMap::contains_key', (mp, key))) in facts:
            return True
        for f in facts:
            # an entry known to be zero
            if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq':
                for x, y in ((f.a[0].a[1], f.a[0].a[2]), (f.a[0].a[2], f.a[0].a[1])):
                    if zero_const(y) and payload_of_get(x) and old_value(I, facts, x, mp, key, depth + 1):
                        return True
        return False
    if t.op == 'phi' and depth < 4:
        info = I.phi_info.get(t)
        return bool(info) and all(not b and old_value(I, pf, o, mp, key, depth + 1) for (o, pf, b) in info.values())
    return False


def zero_const(t):
    return is_c(t) and cval(t) == 0 and not isinstance(cval(t), bool) or t.op == 'call' and t.a[0] == 'Default::default'


def deltas(I, facts, new, mp, key, depth=0):
    """candidate linear forms of (new - old entry), [] when none can be established"""
    out = []
    f = lin(new)
    for x, n in f.items():
        if n == 1 and x is not ONE and old_value(I, facts, x, mp, key):
            d = dict(f)
            del d[x]
            out.append(d)
    if not out and not f:
        # zero written: the old entry goes away, known under what it equals
        if old_value(I, facts, new, mp, key):
            out.append({})
        for fa in facts:
            if fa.op == 'T' and fa.a[0].op == 'bin' and fa.a[0].a[0] == 'Eq':
                for x, y in ((fa.a[0].a[1], fa.a[0].a[2]), (fa.a[0].a[2], fa.a[0].a[1])):
                    if payload_of_get(x) and old_value(I, facts, x, mp, key):
                        out.append({k: -v for k, v in lin(y).items()})
        for fa in facts:
            # or simply -old, when the old value was read
            if fa.op in ('V',) and fa.a[1] == 'Some' and fa.a[0].op == 'call' and fa.a[0].a[0].endswith('::get') and fa.a[0].a[1][1] is key:
                x = mk('proj', mk('as', fa.a[0], 'Some'), 0)
                if old_value(I, facts, x, mp, key):
                    out.append({x: -1})
    if not out and new.op == 'phi' and depth < 3:
        info = I.phi_info.get(new)
        if info and not any(b for (_, _, b) in info.values()):
            common = None
            for (o, pf, b) in info.values():
                ds = {tuple(sorted(((k.id, v) for k, v in d.items()))): d for d in deltas(I, pf | facts, o, mp, key, depth + 1)}
                common = ds if common is None else {k: v for k, v in common.items() if k in ds}
            out = list((common or {}).values())
    return out

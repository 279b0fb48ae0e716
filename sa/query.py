"""Queries over facts: disjunctive entailment through phi terms, and common atoms."""
from terms import T, mk, C, is_c, cval, phis, subst, subterms, show

SELF = mk('self')
PRED = mk('call', 'env::predecessor_account_id', ())
CURRENT = mk('call', 'env::current_account_id', ())
DEPOSIT = mk('call', 'env::attached_deposit', ())


def proj(t, *ks):
    for k in ks:
        t = mk('proj', t, k)
    return t


def eq(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('bin', 'Eq', a, b)


def cases(I, f, facts=frozenset()):
    """For a fact about a phi: the fact sets of its feasible operands (None when f is not such a fact)."""
    def over(ph, fn):
        info = I.phi_info.get(ph)
        if not info:
            return None
        out = []
        for (opnd, pf, back) in info.values():
            if back and any(x is ph for x in subterms(opnd)):
                return None
            if not back and facts and clash(facts, pf):
                continue
            r = fn(pf, opnd)
            if r is not None:
                out.append(pf | r)
        return out
    if f.op in ('T', 'F'):
        t = f.a[0]
        truth = f.op == 'T'
        while t.op == 'not':
            t, truth = t.a[0], not truth
        if t.op == 'phi':
            return over(t, lambda pf, x: I.assume(pf, x, truth))
        if t.op == 'bin' and t.a[0] in ('Eq', 'Lt', 'Le'):
            for i in (1, 2):
                if t.a[i].op == 'phi':
                    o = t.a[3 - i]
                    if i == 1:
                        return over(t.a[i], lambda pf, x: I.assume(pf, I.arith(t.a[0], x, o), truth))
                    return over(t.a[i], lambda pf, x: I.assume(pf, I.arith(t.a[0], o, x), truth))
                if t.a[i].op == 'discr' and t.a[i].a[0].op == 'phi' and is_c(t.a[3 - i]):
                    en = t.a[i].a[1]
                    o = t.a[3 - i]
                    return over(t.a[i].a[0], lambda pf, x: I.assume(pf, I.arith('Eq', I.discr(x, en), o), truth))
    if f.op in ('V', 'NV') and f.a[0].op == 'phi':
        return over(f.a[0], lambda pf, x: I.assume_variant(pf, x, f.a[1], f.op == 'V'))
    return None


def entails(I, facts, pred, depth=4, seen=()):
    """pred(facts) holds, or holds in every feasible case of some phi the facts constrain."""
    if pred(facts):
        return True
    if depth == 0:
        return False
    for f in facts:
        if f in seen:
            continue
        cs = cases(I, f, facts)
        if cs is None:
            continue
        if all(entails(I, c | facts, pred, depth - 1, seen + (f,)) for c in cs):
            return True
    return False


def any_of(*fs):
    fs = set(fs)
    return lambda facts: not fs.isdisjoint(facts)


def contradicts(facts, alt):
    """the alternative cannot be the path taken when `facts` hold"""
    for f in alt:
        if f.op == 'T' and mk('F', f.a[0]) in facts or f.op == 'F' and mk('T', f.a[0]) in facts:
            return True
        if f.op == 'V':
            if mk('NV', *f.a) in facts:
                return True
        if f.op == 'NV' and mk('V', *f.a) in facts:
            return True
    return False


def clash(f, g):
    """no path makes both sets of facts true"""
    if contradicts(f, g):
        return True
    vs = {x.a[0]: x.a[1] for x in f if x.op == 'V'}
    return any(x.op == 'V' and vs.get(x.a[0], x.a[1]) != x.a[1] for x in g)


def always(I, facts, alts, pred, depth=4):
    """pred holds on every path alternative that is consistent with the facts (or directly)"""
    if entails(I, facts, pred, depth):
        return True
    if not alts:
        return False
    for a in alts:
        if contradicts(facts, a):
            continue
        if not entails(I, facts | a, pred, depth):
            return False
    return True


def resolve(I, facts, t, depth=8, deep=True):
    """what t may be, each with the facts of the joins it came through"""
    out = []
    if depth == 0:
        return [(t, facts)]
    if t.op == 'phi':
        info = I.phi_info.get(t)
        if not info or any(b for (_, _, b) in info.values()):
            return [(t, facts)]
        for (o, pf, b) in info.values():
            if not clash(facts, pf):
                out += resolve(I, facts | pf, o, depth - 1, deep)
        return out
    if t.op == 'proj' and t.a[0].op != 'self':
        for x, f in resolve(I, facts, t.a[0], depth - 1, deep):
            if x is t.a[0]:
                out.append((t, f))
            else:
                y = I.project(x, (t.a[1],))
                out += resolve(I, f, y, depth - 1, deep) if y.op == 'phi' or y.op == 'call' and y.a[0].startswith('Option::') else [(y, f)]
        return out
    if t.op == 'as':
        for x, f in resolve(I, facts, t.a[0], depth - 1, deep):
            if I.variant_of(x) not in (None, t.a[1]):
                continue
            out.append((I.project(x, (t.a[1],)), f))
        return out
    if deep and t.op == 'call' and t.a[0] == 'Option::unwrap_or' and len(t.a[1]) == 2:
        o, d = t.a[1]
        some, none = mk('V', o, 'Some'), mk('V', o, 'None')
        if not clash(facts, {some}):
            out.append((I.project(o, ('Some', 0)), facts | {some}))
        if not clash(facts, {none}):
            out += resolve(I, facts | {none}, d, depth - 1, deep)
        return out
    if deep and t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        for x, f in resolve(I, facts, t.a[1], depth - 1, deep):
            for y, g in resolve(I, f, t.a[2], depth - 1, deep):
                out.append((t if x is t.a[1] and y is t.a[2] else I.arith(t.a[0], x, y), g))
        return out
    return [(t, facts)]


def one_join(I, p, q):
    """two joined values come from the same join"""
    return p is q or p.a[:2] == q.a[:2] and set(I.phi_info.get(p) or ()) == set(I.phi_info.get(q) or (0,))


def feasible(I, facts, p, k):
    """taking way k into the join of p does not contradict what is known of the values joined there"""
    for f in facts:
        if f.op in ('V', 'NV') and f.a[0].op == 'phi':
            info = I.phi_info.get(f.a[0])
            if info and one_join(I, f.a[0], p):
                v = I.variant_of(info[k][0])
                if v is not None and (f.op == 'V') != (v == f.a[1]):
                    return False
    return True


def together(I, facts, ts, depth=6):
    """the values several terms take together: [(values, facts)], joins they share taken the same way"""
    phs = [t for t in ts if t.op == 'phi' and I.phi_info.get(t) and not any(b for (_, _, b) in I.phi_info[t].values())]
    if not phs or depth == 0:
        return [(ts, facts)]
    p = max(phs, key=lambda t: t.id)
    out = []
    for k, (o, pf, b) in I.phi_info[p].items():
        if clash(facts, pf) or not feasible(I, facts, p, k):
            continue
        nt = [I.phi_info[t][k][0] if t in phs and one_join(I, t, p) else t for t in ts]
        out += together(I, facts | pf, nt, depth - 1)
    return out

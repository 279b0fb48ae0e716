"""Shared pieces of the ledger rules."""
from vocab import *  # noqa
import auth
import books
import ledger
from ledger import lin, sub_lin, may_be, payload_call

STRIP = {'to_string', 'clone', 'into', 'from', 'to_owned', 'as_ref', 'deref', 'borrow', 'as_str', 'unwrap'}


def strip(t):
    """through conversions that keep the account or text"""
    while t.op == 'call' and len(t.a[1]) == 1 and t.a[0].rsplit('::', 1)[-1] in STRIP:
        t = t.a[1][0]
    return t


def arg_path(t):
    """('receiver_id',) when t is a JSON argument of the exported function, deeper for its fields; None otherwise"""
    path = []
    t = strip(t)
    while t.op in ('proj', 'as'):
        if t.op == 'proj' and t.a[0].op == 'as' and t.a[0].a[1] == 'Ok' and t.a[0].a[0].op == 'call' and \
                t.a[0].a[0].a[0].endswith('serde_json::from_slice') and t.a[1] == 0:
            src = t.a[0].a[0].a[1][0]
            if any(x.op == 'call' and x.a[0] == 'env::input' for x in subterms(src)):
                return tuple(reversed(path)) if path else ()
            return None
        if t.op == 'proj':
            path.append(t.a[1])
        t = strip(t.a[0])
    return None


def is_arg(t, name):
    p = arg_path(t)
    return p is not None and p[:1] == (name,) and len(p) <= 2


def leafset(I, t):
    """what a joined value may be: no phis, conversions stripped"""
    out = set()
    for x in may_be(I, t):
        if x.op == 'phi':
            continue
        if x.op == 'ref' and x.a[0][0][0] == 'D':
            continue
        out.add(strip(x))
    return out or {t}


def nonview(P, crate, name):
    return name not in auth.VIEWS[crate]


def forms(e):
    """the booked changes of a share write; each is a dict atom -> coefficient"""
    return e.extra or []


def debit(e):
    f = forms(e)
    return bool(f) and any(f) and all(v < 0 for d in f for v in d.values())


def credit(e):
    f = forms(e)
    return bool(f) and any(v > 0 for d in f for v in d.values())


def share_events(I):
    return sorted(I.__dict__.get('share_events', {}).values(), key=lambda e: e.seq)


def tok_events(I):
    return sorted(I.__dict__.get('tok_events', {}).values(), key=lambda e: e.seq)


def negative(d):
    return bool(d) and all(v < 0 for v in d.values())


def same_person(facts, t, u):
    return t is u or mk('T', eq(t, u)) in facts


def pend_name(f):
    return '%+d x %s' % (f.a[2], ' = '.join(show(x, 5)[:90] for x in f.a[1]))


def phi_eq(I, facts, t, x, depth=0):
    """t is x on the paths where `facts` hold: the other branches of the join contradict them"""
    if t is x or mk('T', eq(t, x)) in facts:
        return True
    if t.op != 'phi' or depth > 4:
        return False
    info = I.phi_info.get(t)
    if not info:
        return False
    some = False
    for (o, pf, b) in info.values():
        if phi_eq(I, facts, o, x, depth + 1):
            some = True
        elif not clash(facts, pf):
            return False
    return some


def deep(I, t, seen=None):
    """subterms, looking through joins"""
    seen = set() if seen is None else seen
    for x in subterms(t):
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            for (o, pf, b) in (I.phi_info.get(x) or {}).values():
                deep(I, o, seen)
    return seen


def key_eq(I, facts, a, b):
    a, b = strip(a), strip(b)
    return a is b or mk('T', eq(a, b)) in facts or phi_eq(I, facts, a, b) or phi_eq(I, facts, b, a)


def emptied(I, f, fld, kind, key):
    """the fact says that a collection in the record under a key is empty"""
    t = None
    if f.op == 'T' and f.a[0].op == 'call' and f.a[0].a[0].rsplit('::', 1)[-1] == 'is_empty':
        t = f.a[0].a[1][0]
    elif f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] in ('Eq', 'Le'):
        xs = [x for x in f.a[0].a[1:3] if not ledger.zero_const(x)]
        t = xs[0] if len(xs) == 1 and (f.a[0].a[0] == 'Eq' or xs[0] is f.a[0].a[1]) else None
    return t is not None and any(any(k == kind and key_eq(I, frozenset(), g.a[1][1], key) for k, g in books.roots(I, x)) for x in field_of(I, t, fld))


def field_of(I, t, fld, depth=6):
    """the field of a record that t is, or is the length or contents of"""
    if t.op == 'proj' and t.a[1] == fld:
        return [t]
    if depth == 0:
        return []
    if t.op == 'call' and t.a[1]:
        return field_of(I, t.a[1][0], fld, depth - 1)
    if t.op in ('cast', 'iter', 'bound', 'after', 'len', 'optmap', 'mapped'):
        ys = [y for y in (t.a if t.op != 'after' else t.a[2]) if hasattr(y, 'op')]
        return field_of(I, ys[0], fld, depth - 1) if ys else []
    if t.op == 'phi':
        out = []
        for (o, pf, b) in (I.phi_info.get(t) or {}).values():
            if not b:
                r = field_of(I, o, fld, depth - 1)
                if not r:
                    return []
                out += r
        return out
    return []

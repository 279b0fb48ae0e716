"""The hooks that book NEAR in the exchange: what accounts left, and what is sent out."""
import books
import ledger
from ledger import mk, lin, sub_lin, book
from farmbooks import stripped, joins, replace, near, one_join, clash, feasible
from terms import subterms

CUR = ('Current', 0, 'near_amount')


def record(I, v):
    """the account record inside what is stored"""
    while v.op == 'ctor' and I.variant_of(v) == 'Current' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def near_of(I, t, key=None):
    """t is the NEAR in the record of an account (under this key)"""
    if t.op != 'proj' or t.a[1] != 'near_amount':
        return False
    ks = {g.a[1][1] for k, g in books.roots(I, t.a[0]) if k == 'acct'}
    return bool(ks) and (key is None or ks == {key})


def change(I, e, v):
    """(by how much the NEAR of the account differs from what was loaded, where from)"""
    v = record(I, v)
    new = I.project(v, ('near_amount',))
    base, _ = stripped(v)
    base = record(I, base)
    if base.op == 'ctor':
        return lin(new)
    return sub_lin(lin(new), lin(I.project(base, ('near_amount',))))


def near_call(I, e, st):
    near(I, e, st)
    if e.item is not None or not e.args or not e.name.startswith('LookupMap::') or 'acct' not in books.coll_kind(I, e.args[0]):
        return
    op = e.name.split('::')[1]
    if op == 'insert':
        d = change(I, e, e.args[2])
        I.__dict__.setdefault('acct_events', {})[(e.ctx, e.bb)] = (e, e.args[1], d)
        book(I, st, ('dep', e.args[1]), d, e)
    elif op == 'remove':
        x = mk('left', e.args[1])
        I.__dict__.setdefault('acct_events', {})[(e.ctx, e.bb)] = (e, e.args[1], {x: -1})
        book(I, st, ('dep', e.args[1]), {x: -1}, e)

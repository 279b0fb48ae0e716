"""The hooks that book stakes and rewards of the farming contract while the analysis runs."""
import books
import ledger
from ledger import mk, lin, sub_lin, deltas, book, same_amount
from query import *  # noqa

FIELDS = ('amount_of_reward', 'amount_of_claimed', 'amount_of_beneficiary')
DIS = ('undistributed', 'unclaimed')


def stripped(t):
    """(base, [(path, value)]) of a record changed field by field"""
    out = []
    while t.op == 'upd':
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return t, out[::-1]


def replace(I, t, m):
    """t with joined values replaced, through arithmetic and field selection"""
    if t in m:
        return m[t]
    if t.op == 'bin':
        x, y = replace(I, t.a[1], m), replace(I, t.a[2], m)
        return t if x is t.a[1] and y is t.a[2] else I.arith(t.a[0], x, y)
    if t.op == 'proj' and not hasattr(t.a[1], 'op') or t.op == 'as':
        x = replace(I, t.a[0], m)
        return t if x is t.a[0] else I.project(x, (t.a[1],))
    if t.op == 'ctor' and t.a[0] == '(tuple)':
        return mk('ctor', t.a[0], t.a[1], tuple(replace(I, x, m) for x in t.a[2]))
    if t.op == 'upd':
        x, v = replace(I, t.a[0], m), replace(I, t.a[2], m)
        return t if x is t.a[0] and v is t.a[2] else I.upd(x, t.a[1], v)
    if summing(t):
        return mk('call', t.a[0], tuple(replace(I, x, m) for x in t.a[1]))
    if assigns(t):
        return mk('after', t.a[0], t.a[1], tuple(replace(I, x, m) for x in t.a[2]))
    return t


def summing(t):
    return t.op == 'call' and (t.a[0] in ('Add::add', 'Sub::sub') and len(t.a[1]) == 2 or t.a[0].rsplit('::', 1)[-1] in ('checked_sub', 'checked_add', 'saturating_sub'))


def assigns(t):
    return t.op == 'after' and t.a[0] in ('AddAssign::add_assign', 'SubAssign::sub_assign') and t.a[1] == 0


def joins(I, t, out):
    """joined values t is made of, through arithmetic and field selection"""
    if t.op == 'phi':
        info = I.phi_info.get(t)
        if info and not any(b for (_, _, b) in info.values()):
            out.add(t)
    elif t.op == 'bin' or summing(t):
        for x in (t.a[1:3] if t.op == 'bin' else t.a[1]):
            joins(I, x, out)
    elif assigns(t) or t.op == 'ctor' and t.a[0] == '(tuple)':
        for x in t.a[2]:
            joins(I, x, out)
    elif t.op in ('proj', 'as'):
        joins(I, t.a[0], out)
    elif t.op == 'upd':
        joins(I, t.a[0], out)
        joins(I, t.a[2], out)
    return out


def values(I, facts, t, depth=9):
    """what a changed record may be: [(record, facts)], the joins its fields came through taken together"""
    phs = joins(I, t, set()) if depth else ()
    if not phs:
        return [(t, facts)]
    p = max(phs, key=lambda x: x.id)
    out = []
    for k, (o, pf, b) in I.phi_info[p].items():
        if clash(facts, pf) or not feasible(I, facts, p, k):
            continue
        m = {q: I.phi_info[q][k][0] for q in phs if one_join(I, q, p)}
        out += values(I, facts | pf, replace(I, t, m), depth - 1)
    return out


def unmut(facts, mp, key):
    """the map before a lookup for writing that found nothing"""
    while mp.op == 'after' and mp.a[1] == 0 and mp.a[0] == 'HashMap::get_mut' and mk('V', mk('call', mp.a[0], mp.a[2]), 'None') in facts and mp.a[2][1] is key:
        mp = mp.a[2][0]
    return mp


def who_of(I, st, loc):
    """keys of the farmers the record at this place was loaded for"""
    rs = books.roots(I, I.read(st, (loc[0], ())))
    return tuple(sorted({g.a[1][1] for k, g in rs if k == 'farmer'}, key=lambda t: t.id))


def book_names(I, st, tag, x, n, e):
    """book n times the amount known under several names"""
    books.book_best(I, st, tag, [{y: n} for y in x], e)


def map_call(I, e, st):
    """a write to a farmer's stakes or rewards"""
    if e.name.split('::')[0] in ('Entry', 'OccupiedEntry', 'VacantEntry'):
        src = {x for y in ledger.may_be(I, e.args[0]) for x in subterms(y) if x.op == 'call' and x.a[0] == 'HashMap::entry'} if e.args else ()
        if any(x.op == 'proj' and x.a[1] in ('seeds', 'rewards') for s in src for y in ledger.may_be(I, s.a[1][0]) for x in subterms(y)) and \
                e.name not in ('Entry::or_default', 'Entry::key', 'OccupiedEntry::key', 'OccupiedEntry::get') and \
                not (e.name == 'Entry::or_insert' and lin(e.args[1]) == {}):
            books.bad(I, e, 'entry-write')
        return
    if not e.name.startswith('HashMap::') or not e.locs or e.locs[0] is None:
        return
    op = e.name.split('::')[1]
    fld = books.last(e.locs[0])
    if fld not in ('seeds', 'rewards') or op not in ('insert', 'remove', 'clear', 'extend', 'retain', 'drain', 'remove_entry'):
        return
    who = who_of(I, st, e.locs[0])
    kind = 'stake' if fld == 'seeds' else 'rew'
    I.__dict__.setdefault('farm_events', {})[(e.ctx, e.bb)] = e
    if op == 'insert':
        mp, key, new = e.args[0], e.args[1], e.args[2]
        ds = deltas(I, e.facts, new, mp, key)
        if not ds and any(mk('V', mk('call', n, (unmut(e.facts, mp, key), key)), 'None') in e.facts for n in ('HashMap::get', 'HashMap::get_mut')):
            ds = [lin(new)]
        if not ds:
            books.bad(I, e, fld + '-write')
            return
        e.extra = (kind, key, ds[0], who)
        (books.book_best if len(ds) > 1 else lambda I, st, t, d, e: book(I, st, t, d[0], e))(I, st, (kind, key), ds, e)
    elif op == 'remove':
        mp, key = e.args[0], e.args[1]
        x = mk('proj', mk('as', e.ret, 'Some'), 0)
        y = mk('proj', mk('as', mk('call', 'HashMap::get', (mp, key)), 'Some'), 0)
        names = {x, y} | same_amount(e.facts, y)
        e.extra = (kind, key, {y: -1}, who)
        book_names(I, st, (kind, key), sorted(names, key=lambda t: t.id), -1, e)
    else:
        books.bad(I, e, fld + '-' + op)


def ref_write(I, st, loc, v):
    """through a reference into a farmer's stakes or rewards"""
    base = loc[0]
    if base[0] != 'D' or loc[1]:
        return
    t = base[1]
    c = ledger.payload_call(t) or (t if t.op == 'call' else None)
    if c is None or c.a[0] not in ('HashMap::get_mut', 'HashMap::entry', 'Entry::or_insert', 'Entry::or_default'):
        return
    if c.a[0].startswith('Entry::'):
        c = c.a[1][0]
        if c.op != 'call' or c.a[0] != 'HashMap::entry':
            return
    m = c.a[1][0]
    fld = {x.a[1] for y in ledger.may_be(I, m) for x in subterms(y) if x.op == 'proj' and x.a[1] in ('seeds', 'rewards')} - \
        ({'seeds'} if any(y.op == 'proj' and y.a[1] == 'rewards' for y in ledger.may_be(I, m)) else set())
    if len(fld) != 1:
        return
    kind = 'stake' if 'seeds' in fld else 'rew'
    who = tuple(sorted({g.a[1][1] for k, g in books.roots(I, m) if k == 'farmer'}, key=lambda t: t.id))
    f = sub_lin(lin(I.val(st, v)), lin(I.val(st, I.read(st, loc))))
    I.__dict__.setdefault('farm_refs', {})[I.point] = (kind, c.a[1][1], f, who)
    book(I, st, (kind, c.a[1][1]), f, None)


def unify(I, opts):
    """one linear form for all the cases, or None: [(form, facts)]"""
    if not opts:
        return None
    best = max((d for d, f in opts), key=len)
    for d, f in opts:
        r = sub_lin(best, d)
        if not all(ledger.zero(f, x) for x in r):
            return None
    return best


def field_change(I, e, kind, path):
    """by how much the record stored differs in a field from the one loaded, None when that is not one linear form"""
    opts = []
    for v, f in values(I, e.facts, e.args[2]):
        new = I.project(v, path)
        base, _ = stripped(v)
        none = any(mk('V', mk('call', n, e.args[:2]), 'None') in f for n in ('UnorderedMap::get', 'LookupMap::get'))
        rs = [g for k, g in books.roots(I, v) if k == kind] if base.op != 'ctor' or not none else []
        if rs:
            if len(rs) != 1:
                return None
            old = I.project(mk('call', rs[0].a[0], rs[0].a[1]), ('Some', 0) + path)
            opts.append((sub_lin(lin(new), lin(old)), f))
        else:
            opts.append((lin(new), f))
    return unify(I, opts) if opts else None


def farmer_save(I, e, st):
    d = field_change(I, e, 'farmer', ('V101', 0, 'amount'))
    if d is None:
        books.bad(I, e, 'deposit-amount')
        return
    I.__dict__.setdefault('dep_events', {})[(e.ctx, e.bb)] = (e, e.args[1], d)
    book(I, st, ('dep', e.args[1]), d, e)


def seed_save(I, e, st):
    d = field_change(I, e, 'seed', ('V101', 0, 'amount'))
    if d is None:
        books.bad(I, e, 'seed-amount')
        return
    e.extra = ('total', e.args[1], d)
    I.__dict__.setdefault('farm_events', {})[(e.ctx, e.bb)] = e
    book(I, st, ('total', e.args[1]), d, e)


def fresh(t):
    """a field of a default value"""
    while t.op == 'proj':
        t = t.a[0]
    return t.op == 'call' and t.a[0].endswith('Default::default') or t.op == 'call' and t.a[0].endswith('::default') and not t.a[1]


def farm_terms(I, facts, v):
    """(reward token, {field: linear change}) of a changed farm record, None when it has no single origin"""
    new = {f: I.project(v, ('SimpleFarm', 0, f)) for f in FIELDS}
    new.update((f, I.project(v, ('SimpleFarm', 0, 'last_distribution', f))) for f in DIS)
    base, _ = stripped(v)
    if base.op == 'ctor':
        return I.project(v, ('SimpleFarm', 0, 'terms', 'reward_token')), {f: {} if fresh(t) else lin(t) for f, t in new.items()}, None
    old = {f: I.project(base, ('SimpleFarm', 0, f)) for f in FIELDS}
    old.update((f, I.project(base, ('SimpleFarm', 0, 'last_distribution', f))) for f in DIS)
    return I.project(v, ('SimpleFarm', 0, 'terms', 'reward_token')), {f: sub_lin(lin(new[f]), lin(old[f])) for f in new}, base


def farm_save(I, e, st):
    ev = []
    for v, f in values(I, e.facts, e.args[2]):
        ev.append((v, f) + farm_terms(I, f, v))
    I.__dict__.setdefault('farm_saves', {})[(e.ctx, e.bb)] = (e, ev)
    toks = {x[2] for x in ev}
    paid = unify(I, [(sub_lin(x[3]['amount_of_claimed'], x[3]['amount_of_beneficiary']), x[1]) for x in ev])
    fund = unify(I, [(x[3]['amount_of_reward'], x[1]) for x in ev])
    if len(toks) != 1 or paid is None or fund is None:
        books.bad(I, e, 'farm-amounts')
        return
    tok = toks.pop()
    book(I, st, ('rew', tok), {x: -n for x, n in paid.items()}, e)
    book(I, st, ('fund', e.args[1], tok), fund, e)


def send(I, e, st):
    if e.name == 'ext_fungible_token::ft_transfer':
        tag = ('sent', e.args[3], (), e.args[0])
        x = e.args[1]
    elif e.name == 'ext_multi_fungible_token::mft_transfer':
        tag = ('sent', e.args[4], (e.args[0],), e.args[1])
        x = e.args[2]
    else:
        return
    I.__dict__.setdefault('sends', {})[(e.ctx, e.bb)] = e
    book(I, st, tag, lin(x), e)


def near(I, e, st):
    if e.name == 'Promise::transfer':
        p = e.args[0]
        who = p.a[1][0] if p.op == 'call' and p.a[0] == 'Promise::new' else p
        I.__dict__.setdefault('near_sends', {})[(e.ctx, e.bb)] = e
        book(I, st, ('near', who), lin(e.args[1]), e)


def info_change(I, e):
    """by how much the total of a reward token changes, the cases of its making taken one by one"""
    opts = []
    for v, f in values(I, e.facts, e.args[2]):
        g = [mk('call', n, e.args[:2]) for n in ('UnorderedMap::get',)]
        if any(mk('V', c, 'None') in f for c in g):
            opts.append((lin(v), f))
        else:
            ds = deltas(I, f, v, e.args[0], e.args[1])
            if not ds:
                return None
            opts.append((ds[0], f))
    return unify(I, opts)


def farm_call(I, e, st, args, val, dest, ctx):
    if e.kind != 'call':
        return
    send(I, e, st)
    near(I, e, st)
    if e.item is not None:
        return
    books.record_call(I, e, st)
    map_call(I, e, st)
    if e.name == 'LookupMap::insert' and len(e.args) > 2 and 'farmer' in books.coll_kind(I, e.args[0]):
        farmer_save(I, e, st)
    elif e.name == 'LookupMap::remove' and 'farmer' in books.coll_kind(I, e.args[0]):
        x = I.project(mk('call', 'LookupMap::get', e.args[:2]), ('Some', 0, 'V101', 0, 'amount'))
        I.__dict__.setdefault('dep_events', {})[(e.ctx, e.bb)] = (e, e.args[1], {x: -1})
        book(I, st, ('dep', e.args[1]), {x: -1}, e)
    if e.name == 'UnorderedMap::insert' and len(e.args) > 2:
        ks = books.coll_kind(I, e.args[0])
        if 'seed' in ks:
            seed_save(I, e, st)
        if 'farm' in ks or 'old' in ks:
            farm_save(I, e, st)
        if 'info' in ks:
            ds = deltas(I, e.facts, e.args[2], e.args[0], e.args[1])
            if not ds or len(ds[0]) > 1:
                x = info_change(I, e)
                ds = [x] if x is not None else ds
            if not ds:
                books.bad(I, e, 'reward-info')
            else:
                book(I, st, ('info', e.args[1]), ds[0], e)


def farm_write(I, st, loc, v, stmt):
    if loc[1]:
        if loc[0][0] == 'L':
            if not (stmt[0] == 'assign' and stmt[2][0] == 'use' and I.val(st, I.read(st, loc)) is I.val(st, v)):
                books.mark(I, st, loc[0], mk('none'))
    elif loc[0][0] == 'D':
        ref_write(I, st, loc, v)

"""Hash-consed value terms of the dataflow analysis."""


class T:
    __slots__ = ('op', 'a', 'id', '_phis', '_hash', 'ty')
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = T.tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T.n += 1
        t.id = T.n
        t._phis = None
        T.tab[key] = t
    return t


def C(v):
    # bool and int compare equal in Python: tag them
    return mk('c', type(v).__name__, v)


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.a[1] if t.op == 'c' else None


def subterms(t, seen=None):
    """All T nodes below t, each once."""
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.append(y)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (T, tuple)):
                    st.append(y)


def phis(t):
    """ids of the phi terms mentioned in t (without descending through phi operands)."""
    if t._phis is None:
        s = set()
        if t.op == 'phi':
            s.add(t.id)
        stack = list(t.a)
        while stack:
            y = stack.pop()
            if isinstance(y, T):
                s |= phis(y)
            elif isinstance(y, tuple):
                stack.extend(y)
        t._phis = frozenset(s)
    return t._phis


def mentions(t, x):
    return any(s is x for s in subterms(t))


def subst(t, m, memo=None):
    """Replace terms by the dict m (T -> T), bottom-up."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r

    def go(y):
        if isinstance(y, T):
            return subst(y, m, memo)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y
    na = tuple(go(y) for y in t.a)
    r = t if na == t.a else mk(t.op, *na)
    memo[t.id] = r
    return r


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d <= 0:
        return '…'
    op, a = t.op, t.a
    if op == 'c':
        return str(a[1])
    if op == 'arg':
        return str(a[0])
    if op == 'call':
        return '%s(%s)' % (short(a[0]), ', '.join(show(x, d - 1) for x in a[1]))
    if op == 'after':
        return 'after[%s#%d](%s)' % (short(a[0]), a[1], ', '.join(show(x, d - 1) for x in a[2]))
    if op == 'proj':
        return '%s.%s' % (show(a[0], d - 1), a[1] if not isinstance(a[1], T) else '[' + show(a[1], d - 1) + ']')
    if op == 'as':
        return '(%s as %s)' % (show(a[0], d - 1), a[1])
    if op == 'bin':
        return '%s(%s, %s)' % (a[0], show(a[1], d - 1), show(a[2], d - 1))
    if op == 'ctor':
        return '%s%s{%s}' % (short(a[0]), '', ', '.join(show(x, d - 1) for x in a[2]))
    if op == 'phi':
        return 'phi%d' % t.id
    if op == 'ref':
        return '&' + showloc(a[0], d - 1)
    return '%s(%s)' % (op, ', '.join(show(x, d - 1) for x in a))


def showloc(loc, d=4):
    base, path = loc
    s = base[1] if base[0] == 'R' else ('_%s.%s' % (base[1], base[2]) if base[0] == 'L' else '*' + show(base[1], d))
    for k in path:
        s += '.' + (k if isinstance(k, str) else ('[%s]' % show(k[1], d) if isinstance(k, tuple) else str(k)))
    return s


def short(p):
    return p if len(p) < 60 else '…' + p[-58:]

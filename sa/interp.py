"""Interprocedural forward dataflow over MIR: value numbering of every memory place, must-hold facts
(conditions known true, calls known to have happened) with intersection at joins, may-hold marks with
union at joins.  No path is enumerated and nothing is solved: one abstract state per program point and
calling context, iterated to a fixpoint."""
import os
import re
import sys

import ledger
import mir
from model import (strip_generics, last_seg, lit_value, const_path, promoted_key, CLOSURE_TY)
from query import contradicts
from terms import T, mk, C, is_c, cval, phis, subst, subterms, show, showloc

sys.setrecursionlimit(20000)

SELF = (('R', 'self'), ())
ERASE = {'U128', 'U64', 'I64', 'I128', 'WrappedBalance', 'WrappedTimestamp', 'WrappedDuration'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 32, 'bool': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128,
        'isize': 32, 'char': 32}
VOLATILE = {'env::storage_usage', 'env::used_gas', 'env::prepaid_gas', 'env::account_balance', 'env::promise_results_count'}


class State:
    __slots__ = ('store', 'facts', 'may', 'orig')

    def __init__(self, store, facts, may, orig):
        self.store, self.facts, self.may, self.orig = store, facts, may, orig

    def copy(self):
        return State(dict(self.store), self.facts, self.may, self.orig)

    def same(self, o):
        return self.facts == o.facts and self.may == o.may and self.store == o.store


class Event:
    __slots__ = ('kind', 'name', 'func', 'args', 'locs', 'facts', 'span', 'ctx', 'bb', 'fn', 'ret', 'may', 'item', 'extra', 'seq')

    def __repr__(self):
        return '%s %s(%s)' % (self.kind, self.name, ', '.join(show(a, 4) for a in self.args))


class TooComplex(Exception):
    pass


def callee_name(func):
    """Stable short name: 'Vector::get', 'env::panic', 'Clone::clone', 'Contract::swap'."""
    s = strip_generics(func)
    m = re.match(r'^<(.*) as (.*)>::([^:]+)$', s)
    if m:
        return last_seg(m.group(2)) + '::' + m.group(3)
    m = re.match(r'^(?:.*::)?<impl (?:.* for )?(.*)>::(\w+)$', s)
    if m:
        t = m.group(1)
        t = '[slice]' if t.startswith('[') else last_seg(t)
        return t + '::' + m.group(2)
    parts = s.split('::')
    return '::'.join(parts[-2:]) if len(parts) > 1 else s


def strip_ref(t):
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = re.sub(r"^&('\w+ )?(mut )?", '', t).strip()
        elif t.startswith('std::boxed::Box<'):
            t = t[len('std::boxed::Box<'):-1]
        else:
            return t


class Interp:
    def __init__(self, prog, config=None):
        self.p = prog
        self.cfg = config or {}
        self.events = {}
        self.phi_info = {}
        self.ctxs = {(): 0}
        self.ctx_info = {0: (None, None, None, None)}
        self.memo = {}
        self.max_visits = 400
        self.nblocks = 0
        self.stack = []
        self._ptype = {}
        self._rpo = {}
        self._fname = {}
        self.hook_call = self.cfg.get('hook_call')
        self.derive = self.cfg.get('derive')
        self.hook_write = self.cfg.get('hook_write')
        self.hook_ret = self.cfg.get('hook_ret')
        self.returns = {}
        self.seq = 0
        self.unmodelled = set()
        self.root_ctx = 1
        self.opaque_fns = self.cfg.get('opaque', ())
        self._tracked = {}
        self.max_alts = int(os.environ.get("SA_ALTS", 128))
        self.overflow = False
        self.dropped = {}
        self.back_alts = {}
        self._encl = {}
        self._wide = set()
        self._grouped = set()

    # ------------------------------------------------------------------ contexts
    def ctx(self, parent, bb, item, span):
        k = (parent, bb, id(item))
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs)
            self.ctxs[k] = c
            self.ctx_info[c] = (parent, bb, item, span)
        return c

    def trace(self, ctx):
        out = []
        while ctx:
            p, bb, item, span = self.ctx_info[ctx]
            out.append((fn_label(item), span))
            ctx = p
        return out[::-1]

    # ------------------------------------------------------------------ types
    def ptype(self, body, place):
        k = (id(body), place)
        r = self._ptype.get(k)
        if r is None:
            t = body.locals.get(place[0], '?')
            for pr in place[1]:
                if pr[0] == '*':
                    t = t.strip()
                    if t.startswith('&'):
                        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
                    elif t.startswith('std::boxed::Box<'):
                        t = t[len('std::boxed::Box<'):-1]
                    elif t.startswith('*'):
                        t = re.sub(r"^\*(const|mut) ", '', t)
                elif pr[0] == '.':
                    t = pr[2]
                elif pr[0] == '[]':
                    m = re.match(r'^\[(.*?)(; .*)?\]$', t)
                    t = m.group(1) if m else '?'
            r = t
            self._ptype[k] = r
        return r

    def otype(self, body, op):
        if op[0] in ('copy', 'move'):
            return self.ptype(body, op[1])
        m = re.match(r'^-?[\d_]+?_?(u\d+|i\d+|usize|isize)$', op[1])
        if m:
            return m.group(1)
        return '?'

    def field_key(self, cont_ty, n, variant):
        if variant is not None:
            return n
        k = (cont_ty, n)
        r = self._fname.get(k)
        if r is None:
            t = strip_generics(cont_ty) if cont_ty and cont_ty[0] not in '([' else cont_ty
            if last_seg(t) in ERASE if t and t[0] not in '([' else False:
                r = '#erase'
            else:
                names = self.p.field_names.get(t)
                r = names[n] if names and n < len(names) else n
            self._fname[k] = r
        return r

    # ------------------------------------------------------------------ memory
    def read(self, st, loc):
        base, path = loc
        d = st.store.get(base)
        if not d:
            return self.project(self.initial(base), path)
        if path in d and len(d) == 1:
            return d[path]
        # longest prefix
        n = len(path)
        t = None
        for k in range(n, -1, -1):
            v = d.get(path[:k])
            if v is not None:
                t = self.project(v, path[k:])
                break
        if t is None:
            t = self.project(self.initial(base), path)
        kids = [(p[n:], v) for p, v in d.items() if len(p) > n and p[:n] == path]
        if kids:
            kids.sort(key=lambda x: (len(x[0]), repr(x[0])))
            for rel, v in kids:
                t = self.upd(t, rel, v)
        return t

    def raw(self, d, base, path):
        for k in range(len(path), -1, -1):
            v = d.get(path[:k]) if d else None
            if v is not None:
                return self.project(v, path[k:])
        return self.project(self.initial(base), path)

    def initial(self, base):
        if base[0] == 'D':
            return base[1]
        if base[0] == 'R':
            return mk(base[1])
        return mk('undef', base)

    def upd(self, t, rel, v):
        if not rel:
            return v
        if t.op == 'ctor':
            ty, names, args = t.a
            k = rel[0]
            if isinstance(k, str) and not names and len(rel) > 1 and ty.rsplit('::', 1)[-1] == k:
                # variant downcast
                inner = self.upd(t, rel[1:], v)
                return inner
            i = self.fidx(t, k)
            if i is not None:
                na = list(args)
                na[i] = self.upd(args[i], rel[1:], v)
                return mk('ctor', ty, names, tuple(na))
        if t.op == 'upd' and t.a[1] == rel:
            return mk('upd', t.a[0], rel, v)
        return mk('upd', t, rel, v)

    def fidx(self, t, k):
        ty, names, args = t.a
        if isinstance(k, int):
            return k if k < len(args) else None
        if names and k in names:
            return names.index(k)
        return None

    def project(self, t, path):
        for k in path:
            t = self.proj1(t, k)
        return t

    def proj1(self, t, k):
        if k == '#erase':
            return t
        op = t.op
        if isinstance(k, str) and k[0].isupper():          # variant downcast
            if op == 'ctor':
                return t
            if op == 'branch':
                return mk('as', t, k)
            if op == 'upd' and t.a[1][0] != k:
                return self.proj1(t.a[0], k)
            return mk('as', t, k)
        if op == 'ctor':
            i = self.fidx(t, k)
            if i is not None:
                return t.a[2][i]
        elif op == 'as':
            x, v = t.a
            if x.op == 'branch' and v == 'Continue' and k == 0:
                y, good = x.a
                return self.proj1(self.proj1(y, good), 0)
            if x.op == 'optmap' and k == 0 and v in ('Some', 'Ok'):
                return x.a[1]
            if x.op == 'call' and k == 0 and x.a[0] in ('TryInto::try_into', 'TryFrom::try_from') and v == 'Ok':
                return x.a[1][0]
            if x.op == 'upd':
                # ((upd x (V, 0) val) as V).0
                rel = x.a[1]
                if rel[0] == v and len(rel) >= 2:
                    if rel[1] == k:
                        inner = self.proj1(mk('as', x.a[0], v), k)
                        return self.upd(inner, rel[2:], x.a[2])
                    return self.proj1(self.proj1(x.a[0], v), k)
        elif op == 'upd':
            base, rel, v = t.a
            if rel[0] == k:
                return self.upd(self.proj1(base, k), rel[1:], v)
            if isinstance(k, tuple) or isinstance(rel[0], tuple):
                if isinstance(k, tuple) and isinstance(rel[0], tuple):
                    a, b = k[1], rel[0][1]
                    if is_c(a) and is_c(b) and a is not b:
                        return self.proj1(base, k)
                return mk('proj', t, k[1] if isinstance(k, tuple) else k)
            return self.proj1(base, k)
        elif op == 'call' and isinstance(k, tuple):
            return mk('proj', t, k[1])
        return mk('proj', t, k[1] if isinstance(k, tuple) else k)

    def write(self, st, loc, val, body=None, bb=None, span=None, ctx=None, quiet=False):
        base, path = loc
        for i, k in enumerate(path):
            if isinstance(k, tuple):
                cont = path[:i]
                old = self.read(st, (base, cont))
                val = mk('upd', old, path[i:], val) if old.op != 'ctor' or i + 1 < len(path) else self.upd(old, path[i:], val)
                path = cont
                break
        d = st.store.get(base)
        if d and (len(d) > 1 or path not in d):
            n = len(path)
            nd = {p: v for p, v in d.items() if p[:n] != path}
            # index-insensitive children of the same container were folded into 'upd' already
        else:
            nd = {}
        nd[path] = val
        st.store[base] = nd
        if base[0] == 'D':
            par = st.orig.get(root_call(base[1]))
            if par is not None and not quiet:
                old = self.read(st, par)
                self.write(st, par, mk('mutvia', old, base[1], val), quiet=True)

    def val(self, st, t, depth=0):
        """Snapshot: references replaced by what they point to now."""
        if t.op == 'ref':
            return self.val(st, self.read(st, t.a[0]), depth + 1)
        if t.op == 'ctor' and depth < 12:
            args = t.a[2]
            na = tuple(self.val(st, x, depth + 1) for x in args)
            return t if na == args else mk('ctor', t.a[0], t.a[1], na)
        if t.op == 'upd' and depth < 12:
            b = self.val(st, t.a[0], depth + 1)
            v = self.val(st, t.a[2], depth + 1)
            return t if (b is t.a[0] and v is t.a[2]) else mk('upd', b, t.a[1], v)
        if t.op == 'iter' and depth < 12:
            b = self.val(st, t.a[0], depth + 1)
            return t if b is t.a[0] else mk('iter', b, *t.a[1:])
        return t

    # ------------------------------------------------------------------ places
    def place(self, st, ctx, body, pl):
        local, projs = pl
        ty = body.locals.get(local, '?')
        if ctx == self.root_ctx and ty.rsplit('::', 1)[-1] == 'Contract':
            loc = SELF
        else:
            loc = (('L', ctx, local), ())
        variant = None
        for pr in projs:
            if pr[0] == '*':
                v = self.read(st, loc)
                if v.op == 'ref':
                    loc = v.a[0]
                else:
                    loc = (('D', v), ())
                ty = self._deref_ty(ty)
                variant = None
            elif pr[0] == '.':
                k = self.field_key(ty, pr[1], variant)
                ty = pr[2]
                variant = None
                if k != '#erase':
                    loc = (loc[0], loc[1] + (k,))
            elif pr[0] == 'as':
                variant = pr[1]
                loc = (loc[0], loc[1] + (pr[1],))
            elif pr[0] == '[]':
                ix = pr[1]
                m = re.match(r'^(_\d+)$', ix)
                if m:
                    it = self.read(st, (('L', ctx, ix), ()))
                    loc = (loc[0], loc[1] + (('i', self.val(st, it)),))
                else:
                    m = re.match(r'^(\d+) of (\d+)$', ix)
                    loc = (loc[0], loc[1] + (('i', C(int(m.group(1)))) if m else ('i', mk('ix', ix)),))
                mm = re.match(r'^\[(.*?)(; .*)?\]$', ty)
                ty = mm.group(1) if mm else '?'
                variant = None
        return loc

    def _deref_ty(self, t):
        t = t.strip()
        if t.startswith('&'):
            return re.sub(r"^&('\w+ )?(mut )?", '', t)
        if t.startswith('std::boxed::Box<'):
            return t[len('std::boxed::Box<'):-1]
        if t.startswith('*'):
            return re.sub(r"^\*(const|mut) ", '', t)
        return t

    def operand(self, st, ctx, body, op):
        if op[0] in ('copy', 'move'):
            return self.read(st, self.place(st, ctx, body, op[1]))
        return self.const(op, body)

    def const(self, op, body):
        v = lit_value(op[1])
        if v is not None:
            return C(v)
        pk = promoted_key(op)
        if pk:
            it = self.p.promoted.get(body.item.path)
            it = self._find_promoted(body.item.path, pk)
            if it is not None:
                return self.promoted_value(it)
            return mk('promoted', body.item.path, pk)
        p = const_path(op)
        if p:
            cv = self.p.const_value(p)
            if cv is None:
                cv = self.p.const_value(strip_generics(p))
            if cv is not None and not isinstance(cv, tuple):
                return C(cv)
            return mk('named', strip_generics(p))
        return mk('lit', op[1] if op[1] != '_' else str(op[2]))

    def _find_promoted(self, path, pk):
        if not hasattr(self.p, '_prom'):
            self.p._prom = {}
            for it in self.p.items:
                if it.kind == 'promoted':
                    m = re.match(r'^(promoted\[\d+\]) in (.*)$', it.path)
                    if m:
                        self.p._prom[(m.group(2), m.group(1))] = it
                    else:
                        self.p._prom[it.path] = it
        return self.p._prom.get((path, pk))

    def promoted_value(self, it):
        if not hasattr(it, '_pval'):
            it._pval = None
            st = State({}, frozenset(), frozenset({frozenset()}), {})
            body = it.body
            try:
                b = body.blocks['bb0']
                for i, s in enumerate(b.stmts):
                    if s[0] == 'assign':
                        v = self.rvalue(st, -1, body, s[2], 'bb0', i)
                        self.write(st, self.place(st, -1, body, s[1]), v)
                if b.term[0] == 'return':
                    r = self.read(st, (('L', -1, '_0'), ()))
                    it._pval = self.val(st, r)
            except Exception:
                it._pval = None
            if it._pval is None:
                it._pval = mk('promoted', it.path)
        return it._pval

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, ctx, body, rv, bb, idx):
        k = rv[0]
        if k == 'use':
            return self.operand(st, ctx, body, rv[1])
        if k == 'ref':
            loc = self.place(st, ctx, body, rv[2])
            if loc[0][0] == 'D' and not loc[1]:
                return loc[0][1]
            return mk('ref', loc)
        if k == 'bin':
            a = self.val(st, self.operand(st, ctx, body, rv[2]))
            b = self.val(st, self.operand(st, ctx, body, rv[3]))
            op = rv[1]
            if op.startswith('Checked'):
                o = op[7:]
                return mk('ctor', '(tuple)', None, (self.arith(o, a, b), mk('ovf', o, a, b)))
            return self.arith(op, a, b)
        if k == 'un':
            a = self.val(st, self.operand(st, ctx, body, rv[2]))
            if rv[1] == 'Not':
                return self.neg(a)
            return mk('un', rv[1], a)
        if k == 'cast':
            a = self.operand(st, ctx, body, rv[2])
            if rv[1] == 'IntToInt':
                src = self.otype(body, rv[2])
                a = self.val(st, a)
                if is_c(a) and isinstance(cval(a), int):
                    return a
                if src in BITS and rv[3] in BITS and BITS[src] <= BITS[rv[3]] and src[0] == rv[3][0]:
                    return a
                if a.op == 'discr':
                    return a
                return mk('cast', rv[3], a)
            return a
        if k == 'agg':
            args = tuple(self.operand(st, ctx, body, o) for o in rv[3])
            ty = rv[1]
            if ty.startswith('[closure@'):
                return mk('ctor', ty, tuple(rv[2]), args)
            if ty in ('(tuple)', '[array]'):
                if not args and ty == '(tuple)':
                    return C('()')
                return mk('ctor', ty, None, args)
            t = strip_generics(ty)
            if last_seg(t) in ERASE and len(args) == 1:
                return args[0]
            return mk('ctor', t, tuple(rv[2]) if rv[2] else None, args)
        if k == 'discr':
            loc = self.place(st, ctx, body, rv[1])
            v = self.val(st, self.read(st, loc))
            ty = self.ptype(body, rv[1])
            return self.discr(v, last_seg(strip_ref(ty)) if ty and ty[0] not in '([' else '?')
        if k == 'len':
            v = self.val(st, self.read(st, self.place(st, ctx, body, rv[1])))
            return self.length(v)
        if k == 'repeat':
            return mk('repeat', self.val(st, self.operand(st, ctx, body, rv[1])), rv[2])
        return mk('opaque', ctx, bb, idx, str(rv[1])[:80])

    def length(self, v):
        if v.op == 'ctor' and v.a[0] == '[array]':
            return C(len(v.a[2]))
        return mk('call', 'len', (v,))

    def discr(self, v, enum):
        var = self.variant_of(v)
        vs = self.p.enums.get(enum)
        if var is not None and vs and var in vs:
            return C(vs.index(var))
        return mk('discr', v, enum)

    def variant_of(self, v):
        if v.op == 'ctor' and '::' in v.a[0]:
            h, t = v.a[0].rsplit('::', 1)
            if t in self.p.enums.get(last_seg(h), ()):
                return t
        if v.op == 'call' and v.a[0] == 'FromResidual::from_residual' and v.a[1] and v.a[1][0].op == 'proj' and v.a[1][0].a[0].op == 'as':
            b = v.a[1][0].a[0]
            if b.a[1] == 'Break' and b.a[0].op == 'branch' and b.a[0].a[1] in ('Some', 'Ok'):
                return {'Some': 'None', 'Ok': 'Err'}[b.a[0].a[1]]
        if v.op == 'upd' and isinstance(v.a[1][0], str) and v.a[1][0][0].isupper():
            return v.a[1][0]
        if v.op == 'upd':
            return self.variant_of(v.a[0])
        return None

    def arith(self, op, a, b):
        if op in ('Gt', 'Ge'):
            op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
            a, b = b, a
        ca, cb = cval(a), cval(b)
        if op == 'Ne':
            return self.neg(self.arith('Eq', a, b))
        if op == 'Eq':
            if a is b:
                return C(True)
            if is_c(a) and is_c(b):
                return C(ca == cb)
            if is_c(b) and isinstance(cb, bool):
                return a if cb else self.neg(a)
            if is_c(a) and isinstance(ca, bool):
                return b if ca else self.neg(b)
            va, vb = self.variant_of(a), self.variant_of(b)
            if va and vb and va != vb:
                return C(False)
            if va and vb and a.op == 'ctor' and b.op == 'ctor' and not a.a[2] and not b.a[2]:
                return C(True)
            if a.id > b.id:
                a, b = b, a
            return mk('bin', 'Eq', a, b)
        if is_c(a) and is_c(b) and isinstance(ca, int) and isinstance(cb, int):
            try:
                r = {'Add': lambda: ca + cb, 'Sub': lambda: ca - cb, 'Mul': lambda: ca * cb, 'Div': lambda: ca // cb, 'Rem': lambda: ca % cb,
                     'Lt': lambda: ca < cb, 'Le': lambda: ca <= cb}.get(op)
                if r:
                    return C(r())
            except Exception:
                pass
        if op in ('BitAnd', 'BitOr'):
            for x, y in ((a, b), (b, a)):
                if is_c(x) and isinstance(cval(x), bool):
                    if op == 'BitAnd':
                        return y if cval(x) else C(False)
                    return C(True) if cval(x) else y
        if op == 'Lt' and a is b:
            return C(False)
        if op == 'Le' and a is b:
            return C(True)
        if op in ('Add', 'Mul') and a.id > b.id:
            a, b = b, a
        return mk('bin', op, a, b)

    def neg(self, a):
        if is_c(a) and isinstance(cval(a), bool):
            return C(not cval(a))
        if a.op == 'not':
            return a.a[0]
        return mk('not', a)

    # ------------------------------------------------------------------ assumptions
    def assume(self, facts, t, truth, depth=0):
        """Set of extra facts implied by t == truth, or None when that cannot be."""
        if is_c(t):
            return frozenset() if bool(cval(t)) == truth else None
        if t.op == 'not':
            return self.assume(facts, t.a[0], not truth, depth)
        pos, negf = mk('T', t), mk('F', t)
        if truth and negf in facts or (not truth and pos in facts):
            return None
        out = {pos if truth else negf}
        op = t.op
        if op == 'bin':
            o, a, b = t.a
            if o == 'Lt' and truth:
                out.add(mk('T', mk('bin', 'Le', a, b)))
            if o == 'Le' and not truth:       # b < a
                out.add(mk('T', mk('bin', 'Lt', b, a)))
                out.add(mk('T', mk('bin', 'Le', b, a)))
            if o == 'Lt' and not truth:       # b <= a
                out.add(mk('T', mk('bin', 'Le', b, a)))
            if o == 'Eq':
                for x, y in ((a, b), (b, a)):
                    r = self._eq_const(facts, x, y, truth, depth)
                    if r is None:
                        return None
                    out |= r
                # an Eq over enum constants is a variant test
                for x, y in ((a, b), (b, a)):
                    v = self.variant_of(y)
                    if v and y.op == 'ctor' and not y.a[2]:
                        r = self.assume_variant(facts, x, v, truth, last_seg(y.a[0].rsplit('::', 1)[0]), depth)
                        if r is None:
                            return None
                        out |= r
                    elif v and truth:
                        r = self.assume_variant(facts, x, v, True, last_seg(y.a[0].rsplit('::', 1)[0]) if y.op == 'ctor' else '?', depth)
                        if r is None:
                            return None
                        out |= r
            if o == 'BitAnd' and truth or o == 'BitOr' and not truth:
                for x in (a, b):
                    r = self.assume(facts, x, truth, depth)
                    if r is None:
                        return None
                    out |= r
        elif op == 'isvar':
            r = self.assume_variant(facts, t.a[0], t.a[1], truth, t.a[2], depth)
            if r is None:
                return None
            out |= r
        elif op == 'any':
            if not truth:
                src, pred, inner_t, inner_f = t.a
                for f in inner_f:
                    out.add(mk('forall', src, f))
        elif op == 'all':
            if truth:
                src, pred, inner_t, inner_f = t.a
                for f in inner_t:
                    out.add(mk('forall', src, f))
        elif op == 'ovf' and not truth and t.a[0] == 'Sub':
            out.add(mk('T', mk('bin', 'Le', t.a[2], t.a[1])))
        elif op == 'call' and t.a[0] in ('is_empty',) and truth:
            out |= self._empty(t.a[1][0])
        elif op == 'phi':
            r = self._phi_assume(facts, t, lambda f, x: self.assume(f, x, truth, depth + 1), depth)
            if r is None:
                return None
            out |= r
        if self.derive:
            out |= self.derive(self, out)
        return frozenset(out)

    def _empty(self, v):
        """facts from `v` (a collection) being empty"""
        while v.op == 'call' and v.a[0] in ('Iterator::collect', 'FromIterator::from_iter', 'Iterator::copied', 'Iterator::cloned'):
            v = v.a[1][0]
        out = set()
        if v.op == 'filter':
            src, pred, it, inf = v.a
            for f in inf:
                out.add(mk('forall', src, f))
        return out

    def _eq_const(self, facts, x, y, truth, depth):
        out = set()
        if not is_c(y):
            return out
        if x.op == 'discr' and isinstance(cval(y), int):
            vs = self.p.enums.get(x.a[1])
            if vs and 0 <= cval(y) < len(vs):
                r = self.assume_variant(facts, x.a[0], vs[cval(y)], truth, x.a[1], depth)
                if r is None:
                    return None
                out |= r
        if truth and cval(y) == 0 and x.op == 'call' and x.a[0] in ('len', 'Iterator::count'):
            out |= self._empty(x.a[1][0])
        if x.op == 'phi' and depth < 3:
            r = self._phi_assume(facts, x, lambda f, z: self.assume(f, self.arith('Eq', z, y), truth, depth + 1), depth)
            if r is None:
                return None
            out |= r
        return out

    def _phi_assume(self, facts, t, fn, depth):
        if depth > 6:
            return frozenset()
        info = self.phi_info.get(t)
        if not info:
            return frozenset()
        acc = None
        for (opnd, pf, back) in info.values():
            if back and t in subterms_set(opnd):
                return frozenset()
            r = fn(pf, opnd)
            if r is None:
                continue
            s = pf | r
            acc = s if acc is None else (acc & s)
        if acc is None:
            return None
        return acc

    def assume_variant(self, facts, v, name, truth, enum='?', depth=0):
        cur = self.variant_of(v)
        if cur is not None:
            return frozenset() if (cur == name) == truth else None
        pos, negf = mk('V', v, name), mk('NV', v, name)
        if truth and negf in facts or (not truth and pos in facts):
            return None
        out = set()
        vs = self.p.enums.get(enum) or (['None', 'Some'] if name == 'Some' else ['Ok', 'Err'] if name in ('Ok', 'Err') else None)
        if truth:
            out.add(pos)
            if vs:
                for o in vs:
                    if o != name:
                        if mk('V', v, o) in facts:
                            return None
                        out.add(mk('NV', v, o))
        else:
            out.add(negf)
            if vs:
                left = [o for o in vs if o != name and mk('NV', v, o) not in facts]
                if not left:
                    return None
                if len(left) == 1:
                    out.add(mk('V', v, left[0]))
        isn = next((f.a[1] for f in out if f.op == 'V'), None)
        if v.op == 'branch' and isn:
            good = v.a[1]
            want = good if isn == 'Continue' else ('None' if good == 'Some' else 'Err')
            r = self.assume_variant(facts, v.a[0], want, True, "Option" if good == "Some" else "Result", depth)
            if r is None:
                return None
            out |= r
        if v.op == 'optmap' and isn:
            r = self.assume_variant(facts, v.a[0], isn, True, enum, depth)
            if r is None:
                return None
            out |= r
        if v.op == 'phi' and depth < 6:
            r = self._phi_assume(facts, v, lambda f, x: self.assume_variant(f, x, name, truth, enum, depth + 1), depth)
            if r is None:
                return None
            out |= r
        if v.op == 'call' and v.a[0] == 'Iterator::next' and isn == 'None':
            out |= self.promote(v.a[1][0])
        if v.op == 'call' and v.a[0] == 'Iterator::next' and isn == 'Some':
            out |= self.instantiate(facts, v.a[1][0])
        if self.derive:
            out |= self.derive(self, out)
        return frozenset(out)

    def foralls(self, facts):
        """universal facts, also those every feasible case of an assumed joined condition establishes"""
        out = {f for f in facts if f.op == 'forall'}
        cond = set(facts)
        for f in facts:
            if f.op == 'imp' and self.holds(facts, f.a[0]):
                cond.add(f.a[1])
        for f in cond:
            if f.op == 'T' and f.a[0].op == 'phi':
                info = self.phi_info.get(f.a[0])
                if not info or any(b for _, _, b in info.values()):
                    continue
                acc = None
                for (o, pf, b) in info.values():
                    if contradicts(facts, [g for g in pf if g.op in ('V', 'NV')]):
                        continue
                    r = self.assume(pf, o, True)
                    if r is None:
                        continue
                    s = {g for g in r | pf if g.op == 'forall'}
                    acc = s if acc is None else acc & s
                out |= acc or set()
        return out

    def holds(self, facts, c):
        if c in facts:
            return True
        if c.op == 'F' and c.a[0].op == 'bin' and c.a[0].a[0] == 'Eq':
            for x, y in ((c.a[0].a[1], c.a[0].a[2]), (c.a[0].a[2], c.a[0].a[1])):
                if x is C(0) and mk('T', mk('bin', 'Lt', x, y)) in facts:
                    return True
        return False

    def instantiate(self, facts, it):
        """what is known of every element, about the element just taken"""
        srcs = {it}
        if it.op == 'phi':
            info = self.phi_info.get(it, {})
            ent = [o for (o, pf, b) in info.values() if not b]
            if len(ent) != 1:
                return set()
            srcs = {ent[0]}
        out = set()
        for f in self.foralls(facts):
            src, g = f.a
            if src in srcs and g.op in ('V', 'NV', 'T', 'F', 'E'):
                h = subst(g, {mk('bound', src): it})
                if h is not g:
                    out.add(h)
        return out

    def promote(self, it):
        """Leaving a loop because its iterator is exhausted: what held at every back edge held for each element."""
        if it.op != 'phi':
            return set()
        info = self.phi_info.get(it, {})
        backs = [pf for (o, pf, b) in info.values() if b]
        entry = [o for (o, pf, b) in info.values() if not b]
        if not backs or len(entry) != 1:
            return set()
        common = frozenset.intersection(*backs)
        head = (it.a[0], it.a[1])
        src = entry[0]
        out = set()
        bound = mk('bound', src)
        for f in common:
            if it.id not in phis(f):
                if f.op in ('T', 'F') and f.a[0].op == 'phi' and self.of_round(f.a[0], it):
                    # a joined condition of the round: its cases speak of the element taken
                    out.add(mk('forall', src, f))
                continue
            g = subst(f, {it: bound})
            if phis(g) & self.head_phis(head):
                continue
            if f.op == 'forall':
                continue
            out.add(mk('forall', src, g))
        return out

    def of_round(self, ph, it):
        info = self.phi_info.get(ph)
        if not info or any(b for _, _, b in info.values()):
            return False
        return any(it.id in phis(o) or any(it.id in phis(g) for g in pf) for o, pf, b in info.values())

    def head_phis(self, head):
        return self._hp.get(head, frozenset())

    _hp = {}

    # ------------------------------------------------------------------ joins
    def join(self, ctx, bb, states, fresh=False):
        """states: list of (predkey, State, isback)"""
        if len(states) == 1:
            return states[0][1]
        stores = [s.store for _, s, _ in states]
        bases = set()
        for d in stores:
            bases.update(d)
        merged = {}
        newphis = []      # (phi, [operands])
        first = stores[0]
        for base in bases:
            ds = [d.get(base) for d in stores]
            d0 = ds[0]
            if all(x is d0 or x == d0 for x in ds[1:]) and d0 is not None:
                merged[base] = d0
                continue
            if base[0] == 'L' and any(x is None for x in ds):
                continue
            paths = set()
            for x in ds:
                if x:
                    paths.update(x)
            nd = {}
            for p in sorted(paths, key=lambda x: (len(x), repr(x))):
                vs = [self.raw(x, base, p) for x in ds]
                v0 = vs[0]
                if all(v is v0 for v in vs[1:]):
                    nd[p] = v0
                else:
                    ph = mk('phi', ctx, bb, base, p)
                    nd[p] = ph
                    newphis.append((ph, vs))
            merged[base] = nd
        # facts
        head = (ctx, bb)
        anyback = any(b for _, _, b in states)
        for ph, _ in newphis:
            if ph not in self.phi_info:
                self.phi_info[ph] = {}
                for h in self.enclosing(ctx, bb):
                    self._hp.setdefault(h, set()).add(ph.id)
        hp = self._hp.setdefault(head, set()) if anyback else frozenset()
        sets = []
        common0 = frozenset.intersection(*[s.facts for _, s, _ in states]) if not anyback else None
        for i, (pk, s, back) in enumerate(states):
            fs = s.facts
            m = {}
            for ph, vs in newphis:
                if not is_c(vs[i]):
                    m.setdefault(vs[i], ph)
            extra = set()
            base_f = fs
            if back:
                base_f = frozenset(f for f in fs if not (phis(f) & hp))
            if m:
                ids = {x.id for x in m}
                for f in fs:
                    if f.op in ('T', 'F', 'V', 'NV', 'E', 'forall'):
                        g = shallow_subst(f, m)
                        if g is not None:
                            if back:
                                chk = shallow_subst(f, {k: MARK for k in m})
                                if phis(chk) & hp:
                                    continue
                            extra.add(g)
            sets.append(base_f | extra if extra else base_f)
        facts = frozenset.intersection(*sets)
        if len(sets) == 2 and not anyback:
            facts |= self.implications(sets[0] - facts, sets[1] - facts) | self.implications(sets[1] - facts, sets[0] - facts)
        for ph, vs in newphis:
            inf = self.phi_info.setdefault(ph, {})
            for i, (pk, s, back) in enumerate(states):
                inf[pk] = (vs[i], s.facts, back)
        may = self.join_alts(ctx, bb, states, sets, hp, newphis, fresh)
        orig = states[0][1].orig
        for _, s, _ in states[1:]:
            if s.orig is not orig and s.orig != orig:
                orig = {**s.orig, **orig}
        return State(merged, facts, may, orig)

    def implications(self, mine, oth):
        """what a checked condition established on one of two paths, kept under the condition that tells them apart"""
        cands = [f for f in mine if f.op == 'T' and f.a[0].op == 'phi']
        if not cands or len(cands) > 3:
            return frozenset()
        conds = [f for f in mine if f.op == 'F' and mk('T', f.a[0]) in oth or f.op == 'T' and mk('F', f.a[0]) in oth]
        return frozenset(mk('imp', c, f) for c in conds[:3] for f in cands if c is not f)

    def split(self, f):
        """facts the rules need kept apart even where alternatives are grouped"""
        s = self.cfg.get('split')
        return f.op in ('got', 'note') or s is not None and f.op in ('T', 'F', 'V') and s(f)

    def tracked(self, facts):
        tr = self.cfg.get('track')
        if tr is None:
            return frozenset()
        memo = self._tracked
        out = []
        for f in facts:
            r = memo.get(f.id)
            if r is None:
                r = memo[f.id] = bool(tr(f, self))
            if r:
                out.append(f)
        return frozenset(out)

    def join_alts(self, ctx, bb, states, sets, hp, newphis=(), fresh=False):
        """Path alternatives: what the configured rules track, kept apart per incoming path."""
        out = set()
        open_ = set()
        rows = []
        pendy = any(f.op in ledger.BOOK for _, s, _ in states for a in s.may for f in a)
        known = {f for _, s, b in states if not b for a in s.may for f in a if f.op in ledger.BOOK} if fresh and newphis else None
        for i, ((pk, s, back), fs) in enumerate(zip(states, sets)):
            t = self.tracked(fs)
            if newphis:
                t = t | self.tracked({mk('V', ph, self.variant_of(vs[i])) for ph, vs in newphis if vs[i].op == 'ctor' and self.variant_of(vs[i])})
            m = ledger.names_at(self, newphis, i) if pendy else None
            dropped = set()
            for a in s.may:
                if pendy:
                    if len(s.may) > 1 and contradicts(s.facts, a):
                        continue
                    if back and known is not None:
                        # the first round was run on the values of the first element only
                        a = frozenset(f for f in a if f.op not in ledger.BOOK or f in known)
                    b = ledger.at_join(self, a | t, m, s.facts | a, back, hp, dropped)
                    open_.update(f for f in b if f.op == 'pend')
                else:
                    b = a | t
                    if back and hp:
                        b = frozenset(f for f in b if not (phis(f) & hp))
                rows.append((i, b, s.facts))
            if back:
                self.dropped[(ctx, bb, pk)] = frozenset(dropped)
                self.back_alts[(ctx, bb, pk)] = (s.facts, s.may)
        if pendy:
            # where the paths differ in what is open, keep what tells them apart
            per = {}
            for i, b, _ in rows:
                per.setdefault(i, set()).add(frozenset(f for f in b if f.op == 'pend'))
            if len({frozenset(x) for x in per.values()}) > 1:
                tell = {}
                for ph, vs in newphis:
                    for i in per:
                        v = vs[i]
                        if is_c(v) and isinstance(cval(v), bool):
                            tell.setdefault(i, set()).add(mk('T' if cval(v) else 'F', ph))
                        else:
                            var = self.variant_of(v)
                            if var:
                                tell.setdefault(i, set()).add(mk('V', ph, var))
                common = frozenset.intersection(*[sets[i] for i in per])
                for i in per:
                    oth = frozenset().union(*[sets[j] for j in per if j != i]) - common
                    mine = set()
                    for j, b, _ in rows:
                        if j == i:
                            for f in b:
                                if f.op == 'pend' and f.a[0][0] == 'tok':
                                    mine |= ledger.may_be(self, f.a[0][1])
                    for f in sets[i] - common:
                        if mine and f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq' and not is_c(f.a[0].a[1]) and not is_c(f.a[0].a[2]) and \
                                not mine.isdisjoint(ledger.may_be(self, f.a[0].a[1]) | ledger.may_be(self, f.a[0].a[2])):
                            tell.setdefault(i, set()).add(f)
                        elif f.op == 'V' and mk('NV', *f.a) in oth or f.op == 'T' and mk('F', f.a[0]) in oth or f.op == 'F' and mk('T', f.a[0]) in oth:
                            tell.setdefault(i, set()).add(f)
                common = set.intersection(*[tell.get(i, set()) for i in per])
                rows = [(i, b | (tell.get(i, set()) - common), fs) for i, b, fs in rows]
        for i, b, fs in rows:
            if open_:
                # an amount that is zero on this path may as well be booked as on the other one
                add = [p for p in open_ if p not in b and any(ledger.zero(fs, x) for x in p.a[1])
                       and all(ledger.zero(fs, vs[i]) for ph, vs in newphis if ph in p.a[1])]
                if add:
                    b = b | frozenset(add)
            out.add(b)
        if pendy:
            if (ctx, bb) in self._wide:
                self.dropped[(ctx, bb, 'wide')] = frozenset(f for a in out for f in a if f.op in ledger.BOOK)
                out = {frozenset(f for f in a if f.op not in ledger.BOOK) for a in out}
            if len(out) > 24 or (ctx, bb) in self._grouped:
                self._grouped.add((ctx, bb))
                g = {}
                for a in out:
                    k = frozenset(f for f in a if f.op in ledger.BOOK or self.split(f))
                    g[k] = g[k] & a if k in g else a
                out = set(g.values())
        if len(out) > self.max_alts:
            # keep apart only what is still open
            self.overflow = True
            common = frozenset.intersection(*out)
            out = {frozenset(f for f in a if f.op in ledger.BOOK) | common for a in out}
            if len(out) > self.max_alts:
                must = frozenset(f for a in out for f in a if f.op in ledger.BOOK)
                return frozenset({common | must})
        return frozenset(out)

    # ------------------------------------------------------------------ functions
    def succs(self, body, b):
        t = body.blocks[b].term
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [x for _, x in t[2]] + ([t[3]] if t[3] else [])
        if t[0] == 'assert':
            return [t[3]]
        if t[0] == 'call':
            return [t[4]] if t[4] else []
        return []

    def rpo(self, body):
        k = id(body)
        if k in self._rpo:
            return self._rpo[k]
        order = []
        seen = set()

        def succ(b):
            return self.succs(body, b)
        st = [('bb0', iter(succ('bb0')))]
        seen.add('bb0')
        while st:
            b, itr = st[-1]
            for s in itr:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        self._rpo[k] = idx
        return idx

    def loops(self, body):
        """natural loops: head -> blocks"""
        r = getattr(body, '_loops', None)
        if r is None:
            rpo = self.rpo(body)
            preds = {}
            for b in rpo:
                for s in self.succs(body, b):
                    preds.setdefault(s, set()).add(b)
            r = {}
            for h in rpo:
                for u in preds.get(h, ()):
                    if rpo[h] <= rpo[u]:
                        blk = r.setdefault(h, {h})
                        st = [u]
                        while st:
                            x = st.pop()
                            if x not in blk:
                                blk.add(x)
                                st.extend(preds.get(x, ()))
            body._loops = r
        return r

    def enclosing(self, ctx, bb):
        """loop heads (ctx, block) whose body the block runs in, through the call stack"""
        bb = bb.split('#')[0]
        k = (ctx, bb)
        r = self._encl.get(k)
        if r is None:
            p, pbb, item, _ = self.ctx_info[ctx]
            r = []
            if item is not None and item.body is not None:
                r = [(ctx, h) for h, blk in self.loops(item.body).items() if bb in blk]
            if p is not None and p in self.ctx_info and self.ctx_info[p][2] is not None and pbb:
                r = r + self.enclosing(p, pbb)
            self._encl[k] = r
        return r

    def run_fn(self, item, ctx, args, st):
        """-> (State, retval) or None when no path returns."""
        body = item.body
        key = ctx
        prev = self.memo.get(key)
        if prev is not None:
            pargs, pst, pres = prev
            if pargs == args and pst.same(st):
                return pres
        if len(self.stack) > 60:
            raise TooComplex('call depth at %s' % item.path)
        self.stack.append(item)
        try:
            res = self._run(item, body, ctx, args, st)
        finally:
            self.stack.pop()
        self.memo[key] = (args, st.copy(), res)
        return res

    def _run(self, item, body, ctx, args, st0):
        st = st0.copy()
        for (n, _), a in zip(item.args, args):
            st.store[('L', ctx, n)] = {(): a}
        rpo = self.rpo(body)
        heads = self.loops(body)
        entries = {}
        rounds = {}
        ins = {'bb0': {'entry': (st, False)}}
        done = {}
        visits = {}
        work = {0}
        sigs = {}
        order = sorted(rpo, key=rpo.get)
        rets = {}
        while work:
            i = min(work)
            work.discard(i)
            bb = order[i]
            preds = ins[bb]
            fresh = False
            if bb in heads:
                ent = {k: s for k, (s, b) in preds.items() if not b}
                was = entries.get(bb)
                if was is not None and not (was.keys() == ent.keys() and all(was[k].same(ent[k]) for k in ent)):
                    # entered anew: the rounds run so far were for other values
                    for k in [k for k, (s, b) in preds.items() if b]:
                        del preds[k]
                    done.pop(bb, None)
                    rounds[bb] = 0
                entries[bb] = ent
                if any(b for _, b in preds.values()):
                    rounds[bb] = rounds.get(bb, 0) + 1
                    fresh = rounds[bb] == 1
                    if rounds[bb] > 25:
                        self._wide.add((ctx, bb))
            cur = self.join(ctx, bb, [(k, s, b) for k, (s, b) in preds.items()], fresh)
            old = done.get(bb)
            sig = {k: p.facts for k, (p, b) in preds.items() if b} if bb in heads else None
            if old is not None and old.same(cur) and sig == sigs.get(bb):
                continue
            if bb in heads and sig != sigs.get(bb):
                # what the rounds end with is used where the loop is left: look at the body again
                for b in heads[bb]:
                    done.pop(b, None)
            sigs[bb] = sig
            done[bb] = State(dict(cur.store), cur.facts, cur.may, cur.orig)
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > self.max_visits:
                raise TooComplex('no fixpoint at %s %s' % (item.path, bb))
            self.nblocks += 1
            outs = self.block(item, body, ctx, bb, cur.copy())
            for (succ, s, edge) in outs:
                if succ == 'return':
                    rets[bb] = s
                    continue
                back = rpo[succ] <= i
                ins.setdefault(succ, {})[(bb, edge)] = (s, back)
                work.add(rpo[succ])
        if not rets:
            return None
        out = self.join(ctx, 'ret', [(b, s, False) for b, s in rets.items()])
        out = out.copy()
        ret = self.read(out, (('L', ctx, '_0'), ()))
        if ret.op == 'ref' and ret.a[0][0][0] == 'L' and ret.a[0][0][1] == ctx:
            ret = self.val(out, ret)
        elif ret.op in ('ctor', 'upd'):
            ret = self.val_frame(out, ret, ctx)
        if self.hook_ret:
            self.hook_ret(self, item, ctx, out, ret)
        out.store = {b: d for b, d in out.store.items() if not (b[0] == 'L' and b[1] == ctx)}
        if any(f.op == 'pend' for a in out.may for f in a):
            keep = phis(ret)
            out.may = frozenset(ledger.at_return(self, a, ctx, keep) for a in out.may)
        return out, ret

    def val_frame(self, st, t, ctx):
        """Resolve references into the dying frame."""
        if t.op == 'ref' and t.a[0][0][0] == 'L' and t.a[0][0][1] == ctx:
            return self.val_frame(st, self.read(st, t.a[0]), ctx)
        if t.op == 'ctor':
            na = tuple(self.val_frame(st, x, ctx) for x in t.a[2])
            return t if na == t.a[2] else mk('ctor', t.a[0], t.a[1], na)
        return t

    def block(self, item, body, ctx, bb, st):
        b = body.blocks[bb]
        for i, s in enumerate(b.stmts):
            if s[0] == 'assign':
                v = self.rvalue(st, ctx, body, s[2], bb, i)
                loc = self.place(st, ctx, body, s[1])
                if loc[0][0] != 'L':
                    self.record_write(st, ctx, body, bb, i, loc, v, b.spans[i], item)
                if self.hook_write:
                    self.point = (ctx, bb, i)
                    self.hook_write(self, st, loc, v, s)
                self.write(st, loc, v)
        t = b.term
        k = t[0]
        if k == 'goto':
            return [(t[1], st, 0)]
        if k == 'return':
            return [('return', st, 0)]
        if k == 'unreachable':
            return []
        if k == 'assert':
            c = self.val(st, self.operand(st, ctx, body, t[1]))
            r = self.assume(st.facts, c, t[2])
            if r is None:
                return []
            st.facts = st.facts | r
            return [(t[3], st, 0)]
        if k == 'switch':
            v = self.val(st, self.operand(st, ctx, body, t[1]))
            outs = []
            ty = self.otype(body, t[1])
            taken = []
            for n, (kk, tgt) in enumerate(t[2]):
                if ty == 'bool':
                    r = self.assume(st.facts, v, kk != 0)
                else:
                    r = self.assume(st.facts, self.arith('Eq', v, C(kk)), True)
                taken.append(kk)
                if r is None:
                    continue
                s2 = st.copy()
                s2.facts = st.facts | r
                outs.append((tgt, s2, n))
            if t[3]:
                facts = st.facts
                ok = True
                for kk in taken:
                    if ty == 'bool':
                        r = self.assume(facts, v, kk == 0)
                    else:
                        r = self.assume(facts, self.arith('Eq', v, C(kk)), False)
                    if r is None:
                        ok = False
                        break
                    facts = facts | r
                if ok:
                    s2 = st.copy()
                    s2.facts = facts
                    outs.append((t[3], s2, 'o'))
            return outs
        if k == 'call':
            r = self.call(item, body, ctx, bb, st, t, b.span)
            if r is None or t[4] is None:
                return []
            st2, val = r
            loc = self.place(st2, ctx, body, t[1])
            if loc[0][0] != 'L':
                self.record_write(st2, ctx, body, bb, 't', loc, val, b.span, item)
            if self.hook_write:
                self.point = (ctx, bb, 't')
                self.hook_write(self, st2, loc, val, t)
            self.write(st2, loc, val)
            return [(t[4], st2, 0)]
        raise ValueError(t)

    def record_write(self, st, ctx, body, bb, idx, loc, v, span, item):
        if loc == SELF and v.op == 'self':
            return
        e = Event()
        e.kind, e.name, e.func, e.args, e.locs = 'write', showloc(loc), None, (self.val(st, v),), (loc,)
        e.facts, e.span, e.ctx, e.bb, e.fn, e.may = st.facts, span, ctx, bb, item, st.may
        e.ret = self.read(st, loc)
        e.item = None
        e.extra = None
        self.seq += 1
        e.seq = self.seq
        self.events[(ctx, bb, idx)] = e

    # ------------------------------------------------------------------ calls
    def call(self, item, body, ctx, bb, st, t, span):
        _, dest, func, aops, tgt = t
        if func.startswith(('move ', '_', '(')) and not func.startswith('_::'):
            fv = self.operand(st, ctx, body, ('copy', mir.parse_place(func.replace('move ', ''))))
            func = fv.a[0] if fv.op == 'lit' else '<fnptr>'
        args = tuple(self.operand(st, ctx, body, a) for a in aops)
        name = callee_name(func)
        vals = tuple(self.val(st, a) for a in args)
        target = self.p.resolve(func)
        e = Event()
        e.kind, e.name, e.func, e.args = 'call', name, func, vals
        e.locs = tuple(a.a[0] if a.op == 'ref' else None for a in args)
        e.facts, e.span, e.ctx, e.bb, e.fn, e.may = st.facts, span, ctx, bb, item, st.may
        e.item = target
        e.ret = None
        e.extra = None
        self.seq += 1
        e.seq = self.seq
        self.events[(ctx, bb, 'c')] = e
        res = self.do_call(item, body, ctx, bb, st, func, name, args, vals, target, aops, span, tgt)
        if res is not None:
            st2, val = res
            e.ret = val
            ev = mk('E', name, vals)
            if self.cfg.get('event_facts') is None or self.cfg['event_facts'](name, func):
                st2.facts = st2.facts | {ev}
            if self.hook_call:
                self.hook_call(self, e, st2, args, val, dest, ctx)
        return res

    def is_opaque_local(self, target):
        if target.derived:
            return True
        if any(x(target) for x in self.opaque_fns):
            return True
        if target in self.stack:
            return True
        b = target.body
        if any(t.startswith('&mut') for _, t in target.args):
            return False
        if self.p.effectful(target):
            return False
        if len(b.blocks) > 80 or self.has_loop(b):
            return True
        return False

    def has_loop(self, body):
        if not hasattr(body, '_loop'):
            idx = self.rpo(body)
            r = False
            for bb, i in idx.items():
                t = body.blocks[bb].term
                ss = [t[1]] if t[0] == 'goto' else [x for _, x in t[2]] + ([t[3]] if t[3] else []) if t[0] == 'switch' else \
                    [t[3]] if t[0] == 'assert' else ([t[4]] if t[4] else []) if t[0] == 'call' else []
                if any(idx[s] <= i for s in ss):
                    r = True
                    break
            body._loop = r
        return body._loop

    def do_call(self, item, body, ctx, bb, st, func, name, args, vals, target, aops, span, tgt):
        if target is not None and not self.is_opaque_local(target):
            c2 = self.ctx(ctx, bb, target, span)
            r = self.run_fn(target, c2, args, st)
            if r is None:
                return None
            st2, ret = r
            return st2.copy(), ret
        if target is not None and target.derived == 'Clone':
            return st, vals[0]
        if target is not None and target.derived in ('PartialEq',):
            if name.endswith('::eq'):
                return st, self.arith('Eq', vals[0], vals[1])
            if name.endswith('::ne'):
                return st, self.arith('Ne', vals[0], vals[1])
        if target is None or target.derived:
            m = self.model(item, body, ctx, bb, st, func, name, args, vals, span, aops)
            if m is not None:
                return m if m != 'diverge' else None
        if tgt is None:
            return None
        return self.opaque(body, ctx, bb, st, func, name, args, vals, aops, span)

    def opaque(self, body, ctx, bb, st, func, name, args, vals, aops, span):
        # closures handed to unknown code may run any number of times
        st = self.run_closures(body, ctx, bb, st, name, args, vals, span)
        nm = name
        if name in VOLATILE:
            ret = mk('call', nm, vals + (mk('at', ctx, bb),))
        else:
            ret = mk('call', nm, vals)
        for i, (a, o) in enumerate(zip(args, aops)):
            ty = self.otype(body, o)
            if ty.startswith('&mut') or (ty.startswith('std::option::Option<&mut')):
                tgtloc = None
                if a.op == 'ref':
                    tgtloc = a.a[0]
                elif a.op not in ('c', 'lit', 'named'):
                    tgtloc = (('D', a), ())
                if tgtloc is not None:
                    if tgtloc[0][0] != 'L':
                        pass
                    self.write(st, tgtloc, mk('after', nm, i, vals))
                    if root_call(ret) is not None:
                        st.orig = dict(st.orig)
                        st.orig[root_call(ret)] = tgtloc
        return st, ret

    def run_closures(self, body, ctx, bb, st, name, args, vals, span):
        for i, a in enumerate(args):
            clo = a
            if a.op == 'ref':
                clo = self.read(st, a.a[0])
            if clo.op == 'ctor' and clo.a[0].startswith('[closure@'):
                it = self.p.resolve_closure(clo.a[0])
                if it is None:
                    self.unmodelled.add(clo.a[0])
                    continue
                elem = mk('elem', vals[0] if i != 0 else mk('none'))
                r = self.invoke_closure(it, clo, ctx, '%s#c%d' % (bb, i), [elem] * (len(it.args) - 1), st, span)
                if r is not None:
                    s2, rv = r
                    f = st.facts
                    st = self.join(ctx, '%s#j%d' % (bb, i), [('skip', st, False), ('run', s2, False)]).copy()
        return st

    def invoke_closure(self, it, clo, ctx, bbkey, params, st, span, facts=None):
        c2 = self.ctx(ctx, bbkey, it, span)
        st = st.copy()
        if facts is not None:
            st.facts = st.facts | facts
        slot = ('L', c2, 'clo')
        st.store[slot] = {(): clo}
        a0 = mk('ref', (slot, ())) if it.args[0][1].lstrip().startswith('&') else clo
        r = self.run_fn(it, c2, (a0,) + tuple(params), st)
        if r is None:
            return None
        st2, rv = r
        st2 = st2.copy()
        rv = self.val(st2, rv) if rv.op == 'ref' and rv.a[0][0] == slot else rv
        st2.store.pop(slot, None)
        return st2, rv

    # ------------------------------------------------------------------ library models
    def closure_of(self, st, a):
        if a.op == 'ref':
            a = self.read(st, a.a[0])
        if a.op == 'ctor' and a.a[0].startswith('[closure@'):
            return a, self.p.resolve_closure(a.a[0])
        return None, None

    def model(self, item, body, ctx, bb, st, func, name, args, vals, span, aops):
        meth = name.rsplit('::', 1)[-1]
        own = name.rsplit('::', 1)[0] if '::' in name else ''
        n = len(args)
        # ---- panics
        if name in ('env::panic', 'panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'rt::begin_panic', 'rt::panic_fmt',
                    'panicking::unreachable_display', 'panicking::panic_display', 'option::expect_failed', 'process::abort'):
            return 'diverge'
        # ---- identity-like
        if own in ('Clone', 'ToOwned', 'ToString', 'Borrow', 'AsRef') and n == 1 and meth in ('clone', 'to_owned', 'to_string', 'borrow', 'as_ref'):
            if meth in ('as_ref', 'borrow') and args[0].op == 'ref':
                return st, args[0]
            return st, vals[0]
        if own in ('Into', 'From', 'Deref', 'DerefMut', 'AsMut', 'BorrowMut') and n == 1:
            if own in ('Deref', 'DerefMut', 'AsMut', 'BorrowMut'):
                if 'once_cell' in func or 'Lazy' in func:
                    return None
                return st, args[0]
            return st, (vals[0])
        if meth in ('as_str', 'as_slice', 'as_mut_slice', 'as_bytes', 'into_bytes', 'to_vec', 'into_boxed_slice', 'as_mut', 'as_ref', 'cloned', 'copied',
                    'as_deref', 'into_vec', 'into_string', 'as_string') and n == 1 and 'serde_json' not in func:
            if meth == 'as_mut' and own == 'Option':
                return self._option_as_mut(st, args, vals)
            if meth == 'into_vec':
                # vec![..]: what was put into the box
                b = args[0]
                for _ in range(4):
                    x = self.read(st, (('D', b), ()))
                    if x.op == 'ctor' and x.a[0] == '[array]':
                        return st, x
                    b = mk('proj', b, 0)
            if own == 'Iterator':
                return st, vals[0]
            if own == 'Option' and meth in ('as_ref', 'as_deref') and args[0].op == 'ref':
                # keep references into the option so that reads stay precise
                return st, self.val(st, args[0])
            return st, (args[0] if args[0].op == 'ref' and meth not in ('cloned', 'copied', 'to_vec', 'into_bytes') else vals[0])
        if name == 'Box::new':
            return st, args[0]
        if name in ('mem::replace',) and args[0].op == 'ref':
            old = self.read(st, args[0].a[0])
            self.write(st, args[0].a[0], args[1])
            return st, old
        if name in ('mem::take',) and args[0].op == 'ref':
            old = self.read(st, args[0].a[0])
            self.write(st, args[0].a[0], mk('call', 'Default::default', ()))
            return st, old
        if name == 'mem::swap' and args[0].op == 'ref' and args[1].op == 'ref':
            a, b = self.read(st, args[0].a[0]), self.read(st, args[1].a[0])
            self.write(st, args[0].a[0], b)
            self.write(st, args[1].a[0], a)
            return st, C('()')
        # ---- state
        if name == 'env::state_read':
            return st, mk('ctor', 'std::option::Option::Some', None, (mk('self'),))
        # ---- comparisons
        if own in ('PartialEq',) and n == 2:
            return st, self.arith('Eq' if meth == 'eq' else 'Ne', vals[0], vals[1])
        if own == 'PartialOrd' and n == 2 and meth in ('lt', 'le', 'gt', 'ge'):
            return st, self.arith(meth.capitalize(), vals[0], vals[1])
        if own == 'Not' and meth == 'not':
            return st, self.neg(vals[0])
        # ---- Option / Result
        if own in ('Option', 'Result'):
            good = 'Some' if own == 'Option' else 'Ok'
            x = vals[0]
            raw = args[0]
            if meth in ('unwrap', 'expect', 'unwrap_unchecked'):
                r = self.assume_variant(st.facts, x, good, True, own)
                if r is None:
                    return 'diverge'
                st.facts = st.facts | r
                return st, self.proj1(self.proj1(raw if raw.op == 'ctor' else x, good), 0)
            if meth in ('is_some', 'is_ok', 'is_none', 'is_err'):
                bad = {'Some': 'None', 'Ok': 'Err'}[good]
                b = mk('isvar', x, good, own)
                v = self.variant_of(x)
                if v is not None:
                    b = C(v == good)
                else:
                    a = self.assume_variant(st.facts, x, good, True, own)
                    c = self.assume_variant(st.facts, x, good, False, own)
                    if a is None:
                        b = C(False)
                    elif c is None:
                        b = C(True)
                return st, b if meth in ('is_some', 'is_ok') else self.neg(b)
            if meth == 'unwrap_or_default':
                if self.variant_of(x) == good:
                    return st, self.proj1(self.proj1(x, good), 0)
                return st, mk('call', own + '::unwrap_or', (x, mk('call', 'Default::default', ())))
            if meth == 'unwrap_or':
                v = self.variant_of(x)
                if v == good:
                    return st, self.proj1(self.proj1(raw if raw.op == 'ctor' else x, good), 0)
                if v is not None:
                    return st, args[1]
                return st, mk('call', own + '::unwrap_or', (x, vals[1]))
            if meth == 'ok':
                return st, mk('optmap', x, self.proj1(self.proj1(x, 'Ok'), 0)) if False else mk('call', 'Result::ok', (x,))
            if meth in ('ok_or', 'ok_or_else') and own == 'Option':
                return None
            if meth in ('map', 'and_then', 'unwrap_or_else', 'map_or', 'map_or_else', 'filter', 'is_some_and', 'or_else'):
                clo, it = self.closure_of(st, args[-1])
                fnitem = args[-1] if clo is None else None
                if it is not None:
                    v = self.variant_of(x)
                    takes_bad = meth in ('unwrap_or_else', 'or_else')
                    if takes_bad:
                        fx = self.assume_variant(st.facts, x, good, False, own)
                        params = [] if own == 'Option' else [self.proj1(self.proj1(x, 'Err'), 0)]
                        r = None
                        if fx is not None:
                            r = self.invoke_closure(it, clo, ctx, bb + '#m', params[:len(it.args) - 1], st, span, fx)
                        gx = self.assume_variant(st.facts, x, good, True, own)
                        payload = self.proj1(self.proj1(raw if raw.op == 'ctor' else x, good), 0)
                        if meth == 'unwrap_or_else':
                            if r is None:
                                if gx is None:
                                    return 'diverge'
                                st.facts = st.facts | gx
                                return st, payload
                            if gx is None:
                                return r[0].copy(), r[1]
                            sg = st.copy()
                            sg.facts = sg.facts | gx
                            s1 = r[0].copy()
                            slot = ('L', ctx, '%tmp' + bb)
                            sg.store[slot] = {(): payload}
                            s1.store[slot] = {(): r[1]}
                            j = self.join(ctx, bb + '#mj', [('some', sg, False), ('none', s1, False)]).copy()
                            rv = self.read(j, (slot, ()))
                            j.store.pop(slot, None)
                            return j, rv
                        return None
                    gx = self.assume_variant(st.facts, x, good, True, own)
                    bx = self.assume_variant(st.facts, x, good, False, own)
                    payload = self.proj1(self.proj1(x, good), 0)
                    r = None
                    if gx is not None:
                        r = self.invoke_closure(it, clo, ctx, bb + '#m', [payload][:len(it.args) - 1], st, span, gx)
                    if meth in ('map', 'map_or', 'and_then', 'is_some_and'):
                        dflt = {'map': mk('ctor', 'std::option::Option::None', None, ()), 'and_then': mk('ctor', 'std::option::Option::None', None, ()),
                                'map_or': args[1] if n > 2 else None, 'is_some_and': C(False)}[meth]
                        if own == 'Result':
                            dflt = mk('errof', x) if meth in ('map', 'and_then') else dflt
                        if r is None:
                            if bx is None:
                                return 'diverge'
                            st.facts = st.facts | bx
                            return st, dflt
                        rv = r[1]
                        if meth == 'map':
                            full = mk('ctor', 'std::option::Option::Some' if own == 'Option' else 'std::result::Result::Ok', None, (rv,))
                        else:
                            full = rv
                        if bx is None:
                            return r[0].copy(), full
                        if meth == 'map':
                            s0 = st.copy()
                            j = self.join(ctx, bb + '#mj', [('none', s0, False), ('some', r[0].copy(), False)]).copy()
                            return j, mk('optmap', x, rv)
                        s0 = st.copy()
                        s0.facts = s0.facts | bx
                        s1 = r[0].copy()
                        slot = ('L', ctx, '%tmp' + bb)
                        s0.store[slot] = {(): dflt}
                        s1.store[slot] = {(): full}
                        j = self.join(ctx, bb + '#mj', [('none', s0, False), ('some', s1, False)]).copy()
                        rv = self.read(j, (slot, ()))
                        j.store.pop(slot, None)
                        return j, rv
                    return None
                if fnitem is not None and meth == 'map':
                    return st, mk('optmap', x, mk('call', show(fnitem), (self.proj1(self.proj1(x, good), 0),)))
        if name == 'Try::branch':
            good = 'Ok' if 'Result' in func.split(' as ')[0] else 'Some'
            v = self.variant_of(vals[0])
            if v == good:
                return st, mk('ctor', 'std::ops::ControlFlow::Continue', None, (self.proj1(vals[0], 0),))
            return st, mk('branch', vals[0], good)
        if name == 'FromResidual::from_residual':
            return st, mk('call', name, vals)
        # ---- indexing
        if name == 'Index::index' and n == 2 and args[0].op == 'ref' and 'HashMap' not in func:
            loc = args[0].a[0]
            return st, mk('ref', (loc[0], loc[1] + (('i', vals[1]),)))
        if name == 'IndexMut::index_mut' and n == 2:
            if args[0].op == 'ref':
                loc = args[0].a[0]
                return st, mk('ref', (loc[0], loc[1] + (('i', vals[1]),)))
            return st, mk('ref', (('D', args[0]), (('i', vals[1]),)))
        if name == 'Index::index' and n == 2 and 'HashMap' not in func:
            return st, self.proj1(vals[0], ('i', vals[1]))
        if meth == 'len' and n == 1 and own not in ('Vector', 'UnorderedMap', 'UnorderedSet'):
            return st, self.length(vals[0])
        if meth == 'is_empty' and n == 1 and own not in ('Vector', 'UnorderedMap', 'UnorderedSet'):
            return st, self.arith('Eq', self.length(vals[0]), C(0))
        # ---- iterators
        if name in ('IntoIterator::into_iter', 'HashMap::iter', 'Vec::iter', '[slice]::iter', 'HashSet::iter', '[slice]::iter_mut', 'Vec::iter_mut') or \
                (meth in ('iter',) and n == 1):
            v = vals[0]
            return st, v if v.op == 'iter' else mk('iter', v)
        if name in ('Iterator::any', 'Iterator::all', 'Iterator::filter', 'Iterator::for_each', 'Iterator::map'):
            clo, it = self.closure_of(st, args[1])
            if it is not None:
                src = vals[0]
                elem = mk('as', mk('call', 'Iterator::next', (mk('bound', src),)), 'Some')
                elem = mk('proj', elem, 0)
                r = self.invoke_closure(it, clo, ctx, bb + '#m', [elem], st, span)
                if r is None:
                    if meth == 'for_each':
                        return st, C('()')
                    return None
                s1, rv = r
                rv = self.val(s1, rv)
                base = st.facts
                if any(f.op in ledger.BOOK for a in s1.may for f in a):
                    # what is booked for the element of this round
                    bound = mk('bound', src)
                    elt = lambda f: any(x is bound for x in subterms(f))
                    self.back_alts[(ctx, bb, 'closure')] = (s1.facts, s1.may)
                    self.dropped[(ctx, bb, 'closure')] = frozenset(f for a in s1.may for f in a if f.op in ledger.BOOK and elt(f))
                    s1 = s1.copy()
                    s1.may = frozenset(frozenset(f for f in a if not (f.op in ledger.BOOK and elt(f))) for a in s1.may)
                j = self.join(ctx, bb + '#mj', [('skip', st.copy(), False), ('run', s1.copy(), False)]).copy()
                j.facts = base
                if meth == 'for_each':
                    new = frozenset(mk('forall', src, f) for f in s1.facts - base if f.op != 'forall')
                    j.facts = j.facts | new
                    return j, C('()')
                if meth == 'map':
                    new = frozenset(mk('forall', src, f) for f in s1.facts - base if f.op != 'forall')
                    # lazily run: facts hold only once consumed; keep them inside the term
                    return j, mk('iter', mk('mapped', src, rv, tuple(sorted(new, key=lambda z: z.id))))
                ft = self.assume(s1.facts, rv, True)
                ff = self.assume(s1.facts, rv, False)
                inner_t = tuple(sorted((ft or frozenset()) | (s1.facts - base), key=lambda z: z.id))
                inner_f = tuple(sorted((ff or frozenset()) | (s1.facts - base), key=lambda z: z.id))
                op = {'any': 'any', 'all': 'all', 'filter': 'filter'}[meth]
                if is_c(rv):
                    if op == 'any' and cval(rv) is False:
                        return j, C(False)
                    if op == 'all' and cval(rv) is True:
                        return j, C(True)
                return j, mk(op, src, rv, inner_t, inner_f)
        if name in ('Iterator::collect', 'Iterator::sum', 'Iterator::count', 'Iterator::min', 'Iterator::max', 'Iterator::fold', 'Extend::extend'):
            src = vals[-1] if name == 'Extend::extend' else vals[0]
            add = set()
            s = src
            while s.op in ('iter', 'call', 'mapped', 'filter'):
                if s.op == 'mapped':
                    add |= set(s.a[2])
                    s = s.a[0]
                elif s.op == 'call':
                    if not s.a[1]:
                        break
                    s = s.a[1][0]
                else:
                    s = s.a[0]
            if add:
                st.facts = st.facts | add
            return None
        return None

    def _option_as_mut(self, st, args, vals):
        a = args[0]
        if a.op == 'ref':
            loc = a.a[0]
            x = vals[0]
            v = self.variant_of(x)
            inner = mk('ref', (loc[0], loc[1] + ('Some', 0)))
            return st, mk('optmap', x, inner)
        return None


MARK = mk('MARK')


def subterms_set(t):
    return set(subterms(t))


def shallow_subst(f, m):
    """Replace m's keys where they are an operand of the fact's atom (two levels); None if nothing changes."""
    def go(x, d):
        if isinstance(x, T):
            r = m.get(x)
            if r is not None:
                return r
            if d > 0 and x.op in ('bin', 'not', 'call', 'isvar', 'ovf', 'T', 'F', 'V', 'NV', 'E', 'cast', 'forall', 'proj', 'as'):
                na = tuple(go(y, d - 1) for y in x.a)
                return x if na == x.a else mk(x.op, *na)
            return x
        if isinstance(x, tuple):
            return tuple(go(y, d) for y in x)
        return x
    g = go(f, 3)
    return None if g is f else g


def root_call(t):
    while isinstance(t, T) and t.op in ('proj', 'as', 'branch', 'optmap'):
        t = t.a[0]
    return t if isinstance(t, T) and t.op == 'call' else None


def fn_label(item):
    if item is None:
        return '?'
    if getattr(item, 'owner', None):
        return '%s::%s' % (item.owner, item.method)
    return strip_path(item.path)


def strip_path(p):
    p = re.sub(r'<impl at [^>]*>::', '', p)
    return p


def run_entry(prog, wrapper, config=None):
    """Analyse one exported function from its wasm wrapper."""
    I = Interp(prog, config)
    I._hp = {}
    st = State({}, frozenset(), frozenset({frozenset()}), {})
    c = I.ctx(0, 'entry', wrapper, '')
    res = I.run_fn(wrapper, c, (), st)
    return I, res


def run_item(prog, item, config=None):
    """Analyse a function by itself, its arguments unknown."""
    I = Interp(prog, config)
    I._hp = {}
    st = State({}, frozenset(), frozenset({frozenset()}), {})
    c = I.ctx(0, 'entry', item, '')
    args = tuple(mk('param', n) for n, _ in item.args)
    I.result = I.run_fn(item, c, args, st)
    return I

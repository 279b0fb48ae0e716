"""Whole-program model over the parsed MIR: name resolution, exports, types, constants."""
import glob
import os
import re

import mir


def strip_generics(s):
    """Drop `::<...>` turbofish and plain <...> generic arguments, keep a leading `<T as Trait>` qualifier."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            j = mir.match_close(s, i)
            inner = s[i + 1:j]
            if i == 0 and ' as ' in inner:
                parts = split_as(inner)
                out.append('<%s as %s>' % (strip_generics(parts[0]), strip_generics(parts[1])))
            elif i == 0:
                out.append('<%s>' % strip_generics(inner))
            elif inner.startswith('impl ') or inner.startswith('impl at '):
                out.append('<' + inner + '>')
            else:
                # generic args; drop a preceding '::'
                if len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
                    out.pop()
                    out.pop()
            i = j + 1
            continue
        if c == '[' or c == '(':
            j = mir.match_close(s, i)
            out.append(s[i:j + 1])
            i = j + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def split_as(inner):
    depth = 0
    i = 0
    while i < len(inner):
        c = inner[i]
        if c in '<([{':
            i = mir.match_close(inner, i)
        elif inner.startswith(' as ', i):
            return inner[:i], inner[i + 4:]
        i += 1
    return inner, ''


def last_seg(p):
    p = strip_generics(p)
    return p.rsplit('::', 1)[-1]


IMPL_AT = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')
CLOSURE_TY = re.compile(r'\[closure@([^\]]+)\]')


class Program:
    def __init__(self, mir_path, root='/repo'):
        self.root = root
        self.items = mir.load(mir_path)
        self.fns = {}
        self.consts = {}
        self.promoted = {}
        self.closures = {}
        self.by_method = {}     # (selftype last seg, method) -> [(item, trait last seg or None, module)]
        self.free = {}
        self._src = {}
        self.field_names = {}
        self._impl = {}
        for it in self.items:
            if it.kind == 'fn':
                self.fns.setdefault(it.path, []).append(it)
                self._index_fn(it)
            elif it.kind == 'const':
                self.consts.setdefault(it.path, it)
            elif it.kind == 'promoted':
                self.promoted[it.path] = it
        self._const_cache = {}
        self._cnames = {}
        for k in self.consts:
            self._cnames.setdefault(k.rsplit('::', 1)[-1], []).append(k)
        self.unnamed = []
        for it in self.items:
            it.post = self.name_consts
        self._scan_fields()
        self._scan_enums()
        self._resolve_cache = {}
        self._eff = None

    # ------------------------------------------------------------ index
    def src_lines(self, f):
        if f not in self._src:
            p = f if f.startswith('/') else os.path.join(self.root, f)
            try:
                with open(p, encoding='utf-8') as fh:
                    self._src[f] = fh.read().split('\n')
            except OSError:
                self._src[f] = []
        return self._src[f]

    def impl_header(self, m):
        """(trait last seg|None, self type last seg, file) for an `<impl at ...>` match."""
        key = m.group(0)
        if key in self._impl:
            return self._impl[key]
        f, l1, c1, l2, c2 = m.group(1), *(int(x) for x in m.groups()[1:])
        lines = self.src_lines(f)
        res = (None, None, f)
        if lines and l2 <= len(lines):
            if l1 == l2:
                t = lines[l1 - 1][c1 - 1:c2 - 1]
            else:
                t = ' '.join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
            t = ' '.join(t.split())
            mm = re.match(r'^(?:unsafe )?impl\b\s*(.*)$', t)
            if mm:
                body = mm.group(1).strip()
                if body.startswith('<'):
                    body = body[mir.match_close(body, 0) + 1:].strip()
                body = re.split(r'\bwhere\b', body)[0].strip().rstrip('{').strip()
                if ' for ' in body:
                    tr, ty = body.split(' for ', 1)
                    res = (last_seg(tr), last_seg(ty.strip().lstrip('&')), f)
                else:
                    res = (None, last_seg(body), f)
            else:
                res = ('derive:' + t, None, f)
        self._impl[key] = res
        return res

    def _index_fn(self, it):
        p = it.path
        if re.search(r'\{closure#\d+\}$', p):
            if it.args:
                m = CLOSURE_TY.search(it.args[0][1])
                if m:
                    self.closures[m.group(1)] = it
            it.owner = None
            it.derived = False
            return
        ms = list(IMPL_AT.finditer(p))
        it.derived = False
        it.owner = None
        if ms:
            m = ms[-1]
            if '/registry/' in m.group(0):
                it.derived = 'registry'
                return
            tr, ty, f = self.impl_header(m)
            name = p[m.end():].lstrip(':')
            module = p[:m.start()].rstrip(':')
            if tr and tr.startswith('derive:'):
                it.derived = tr[7:] or 'macro'
                # self type from the first argument or the return type
                return
            it.owner = ty
            it.trait = tr
            it.method = name
            self.by_method.setdefault((ty, name), []).append((it, tr, module))
        else:
            self.free[p] = it

    def _scan_fields(self):
        rx = re.compile(r'= ([A-Za-z_][\w:]*(?:::<.*>)?) \{ ([a-z_]\w*: .*) \}')
        for it in self.items:
            for ln in it.lines:
                if ' { ' in ln and '= ' in ln and 'let ' not in ln:
                    t = mir.SCOPE_RE.sub('', ln).strip().rstrip(';')
                    m = rx.search(t)
                    if m:
                        name = strip_generics(m.group(1))
                        if name not in self.field_names:
                            try:
                                self.field_names[name] = [mir.FIELD_RE.match(x).group(1) for x in mir.split_top(m.group(2))]
                            except Exception:
                                pass

    def _scan_enums(self):
        """Variant order of every enum declared in the crate's sources (and the std/near ones used)."""
        self.enums = {
            'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
            'PromiseResult': ['NotReady', 'Successful', 'Failed'], 'PromiseOrValue': ['Promise', 'Value'],
        }
        files = set()
        for it in self.items:
            m = IMPL_AT.search(it.path)
            if m and not m.group(1).startswith('/'):
                files.add(m.group(1))
        base = None
        for f in files:
            base = f.split('/')[0]
            break
        self.crate_dir = base
        self.sources = []
        if base:
            for f in sorted(glob.glob(os.path.join(self.root, base, 'src', '**', '*.rs'), recursive=True)):
                self.sources.append(os.path.relpath(f, self.root))
        self.enum_full = {}
        for f in self.sources:
            txt = strip_comments('\n'.join(self.src_lines(f)))
            for m in re.finditer(r'\benum\s+(\w+)[^{;]*\{', txt):
                j = mir_match_brace(txt, m.end() - 1)
                body = txt[m.end():j]
                vs = []
                for part in split_variants(body):
                    part = re.sub(r'#\[[^\]]*\]', ' ', part).strip()
                    mm = re.match(r'^(\w+)', part)
                    if mm:
                        vs.append((mm.group(1), part[mm.end():].strip()))
                self.enums.setdefault(m.group(1), [v[0] for v in vs])
                self.enum_full[m.group(1)] = (vs, f)

    # ------------------------------------------------------------ resolution
    def resolve(self, func):
        """Item for a callee text, or None if it is outside the crate / unresolvable."""
        if func in self._resolve_cache:
            return self._resolve_cache[func]
        r = self._resolve(func)
        self._resolve_cache[func] = r
        return r

    def _resolve(self, func):
        s = strip_generics(func)
        if s in self.free:
            return self.free[s]
        m = re.match(r'^<(.*) as (.*)>::([\w#{}]+)$', s)
        if m:
            ty = m.group(1)
            tr = last_seg(m.group(2))
            tyl = last_seg(ty.lstrip('&').replace('mut ', ''))
            c = [x for x in self.by_method.get((tyl, m.group(3)), []) if x[1] == tr]
            if len(c) > 1:
                # generic trait (From<X>): match on the written impl's trait args is not needed unless ambiguous
                full = split_as(func[1:mir.match_close(func, 0)])[1]
                g = re.search(r'<(.*)>', full)
                want = last_seg(g.group(1).lstrip('&').replace('mut ', '')) if g else None
                c2 = [x for x in c if x[0].args and want and last_seg(x[0].args[0][1].lstrip('&').replace('mut ', '')) == want]
                if len(c2) >= 1:
                    c = c2
            if not c and tr == 'Into' and m.group(3) == 'into':
                # <A as Into<B>>::into  ->  <B as From<A>>::from
                full = split_as(func[1:mir.match_close(func, 0)])[1]
                g = re.search(r'<(.*)>', full)
                if g:
                    b = last_seg(g.group(1).strip())
                    c = [x for x in self.by_method.get((b, 'from'), []) if x[1] == 'From' and x[0].args
                         and last_seg(x[0].args[0][1].lstrip('&').replace('mut ', '')) == tyl]
            return c[0][0] if c else None
        m = re.match(r'^(?:(.*)::)?<impl (?!at )(.*)>::(\w+)$', s)
        if m:
            tgt = m.group(2)
            tgt = tgt.split(' for ')[-1]
            c = [x for x in self.by_method.get((last_seg(tgt), m.group(3)), []) if x[2] == (m.group(1) or '')]
            if not c:
                c = [x for x in self.by_method.get((last_seg(tgt), m.group(3)), []) if m.group(1) is None]
            return c[0][0] if c else None
        if '::' in s:
            ty, name = s.rsplit('::', 1)
            tyl = last_seg(ty)
            c = [x for x in self.by_method.get((tyl, name), []) if x[1] is None]
            if c and (ty.startswith(('std::', 'core::', 'alloc::', 'near_sdk::'))):
                return None
            if len(c) > 1:
                tmod = ty.rsplit('::', 1)[0] if '::' in ty else ''
                c2 = [x for x in c if x[2] == tmod]
                if c2:
                    c = c2
            if c:
                return c[0][0]
        return None

    def resolve_closure(self, ty):
        m = CLOSURE_TY.search(ty)
        return self.closures.get(m.group(1)) if m else None

    # ------------------------------------------------------------ names of integer constants
    # rustc prints an integer constant that is not yet evaluated as `const _`; its name is read off the span.
    def name_consts(self, it, body):
        for b in body.blocks.values():
            for i, s in enumerate(b.stmts):
                if s[0] == 'assign' and has_unnamed(s[2]):
                    b.stmts[i] = (s[0], s[1], self._name_rv(it, s[2], b.spans[i])) + tuple(s[3:])
            t = b.term
            if t[0] == 'call' and has_unnamed(t[3]):
                b.term = (t[0], t[1], t[2], self._name_args(it, t[3], b.span), t[4])
            elif t[0] == 'switch' and has_unnamed(t[1]):
                b.term = (t[0], self._name_one(it, t[1], self.span_text(b.span), b.span, 0)) + tuple(t[2:])

    def span_text(self, span):
        m = SPAN_RE.match(span)
        if not m:
            return ''
        lines = self.src_lines(m.group(1))
        l1, c1, l2, c2 = (int(x) for x in m.groups()[1:])
        if l2 > len(lines):
            return ''
        if l1 == l2:
            return lines[l1 - 1][c1 - 1:c2 - 1]
        return strip_comments('\n'.join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]]))

    def _cands(self, it, text):
        out = []
        for m in re.finditer(r'(?<![\w])((?:\w+::)*)([A-Za-z_]\w*)\b(?!\s*[(!:])', strip_strings(text)):
            p = self._const_lookup(it, m.group(1), m.group(2))
            if p:
                out.append(p)
        return out

    def _const_lookup(self, it, qual, name):
        q = qual.strip(':')
        if name in ('MAX', 'MIN', 'BITS') and q.rsplit('::', 1)[-1] in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128'):
            return '%s::%s' % (q.rsplit('::', 1)[-1], name)
        if not re.match(r'^[A-Z][A-Z0-9_]*$', name):
            return None
        c = self._cnames.get(name)
        if not c:
            return None
        c = [k for k in c if '/registry/' not in k] or c
        if len(c) > 1 and q:
            tail = [x for x in q.split('::') if x not in ('crate', 'self', 'super', 'Self')]
            c2 = [k for k in c if all(x in k for x in tail)]
            c = c2 or c
        if len(c) > 1:
            here = re.sub(r'<impl at .*?>.*', '', it.path).split('::')

            def common(k):
                n = 0
                for a, b in zip(here, k.split('::')):
                    if a != b:
                        break
                    n += 1
                return n
            best = max(common(k) for k in c)
            c = [k for k in c if common(k) == best]
            vals = {str(self.const_value(k)) for k in c}
            if len(c) > 1 and len(vals) > 1:
                return None
        return c[0]

    def _name_one(self, it, op, text, span, which):
        if not is_unnamed(op):
            return op
        c = self._cands(it, text)
        if c:
            return ('const', c[which], None)
        self.unnamed.append((it.path, span))
        return ('const', '?' + span, None)

    def _name_rv(self, it, rv, span):
        text = self.span_text(span)
        if rv[0] == 'bin':
            a, b = rv[2], rv[3]
            c = self._cands(it, text)
            if is_unnamed(a) and is_unnamed(b) and len(c) < 2:
                return rv
            return (rv[0], rv[1], self._name_one(it, a, text, span, 0), self._name_one(it, b, text, span, -1))
        if rv[0] == 'agg':
            ops = list(rv[3])
            idx = [i for i, o in enumerate(ops) if is_unnamed(o)]
            c = self._cands(it, text)
            if len(c) == len(idx):
                for i, k in zip(idx, c):
                    ops[i] = ('const', k, None)
            else:
                for i in idx:
                    ops[i] = ('const', '?%s#%d' % (span, i), None)
                    self.unnamed.append((it.path, span))
            return rv[:3] + (type(rv[3])(ops),) + tuple(rv[4:])
        return tuple(self._name_one(it, x, text, span, 0) if is_unnamed(x) else x for x in rv)

    def _name_args(self, it, args, span):
        text = self.span_text(span)
        args = list(args)
        idx = [i for i, o in enumerate(args) if is_unnamed(o)]
        parts = None
        t = text.rstrip()
        if t.endswith(')'):
            d = 0
            for j in range(len(t) - 1, -1, -1):
                if t[j] == ')':
                    d += 1
                elif t[j] == '(':
                    d -= 1
                    if d == 0:
                        try:
                            parts = [p for p in mir.split_top(t[j + 1:-1].replace('->', '  ').replace('=>', '  ')) if p]
                        except Exception:
                            parts = None
                        break
        off = None
        if parts is not None:
            if len(parts) == len(args):
                off = 0
            elif len(parts) == len(args) - 1:
                off = 1
        allc = self._cands(it, text)
        for i in idx:
            k = None
            if off is not None and 0 <= i - off < len(parts):
                c = self._cands(it, parts[i - off])
                if len(c) == 1:
                    k = c[0]
            elif len(allc) == len(idx):
                k = allc[idx.index(i)]
            if k is None and off == 1 and i == 0:
                c = self._cands(it, t[:j])
                k = c[0] if len(c) == 1 else None
            if k is None:
                k = '?%s#%d' % (span, i)
                self.unnamed.append((it.path, span))
            args[i] = ('const', k, None)
        return args

    # ------------------------------------------------------------ exports
    def exports(self):
        """{entry name: wrapper Item}: the #[no_mangle] functions the wasm module exports."""
        out = {}
        for it in self.items:
            if it.kind == 'fn' and not it.args and any('set_blockchain_interface' in ln for ln in it.lines):
                out[it.path.rsplit('::', 1)[-1]] = it
        return out

    def const_value(self, path):
        if path in self._const_cache:
            return self._const_cache[path]
        self._const_cache[path] = None
        it = self.consts.get(path)
        v = None
        if it is not None:
            try:
                v = eval_const(self, it)
            except Exception:
                v = None
        self._const_cache[path] = v
        return v

    # ------------------------------------------------------------ call graph
    def callees(self, it):
        if not hasattr(it, '_callees'):
            out = []
            try:
                for b in it.body.blocks.values():
                    for st in b.stmts:
                        for txt in fn_consts(st):
                            out.append(txt)
                    if b.term[0] == 'call':
                        out.append(b.term[2])
                        for a in b.term[3]:
                            if a[0] == 'const' and a[1] and ('::' in a[1]):
                                out.append(a[1])
                for t in it.body.locals.values():
                    for m in CLOSURE_TY.finditer(t):
                        out.append('[closure@%s]' % m.group(1))
            except Exception as e:      # pragma: no cover
                raise RuntimeError('cannot parse %s: %s' % (it.path, e))
            it._callees = out
        return it._callees

    def local_callees(self, it):
        if not hasattr(it, '_lcallees'):
            s = []
            for c in self.callees(it):
                r = self.resolve_closure(c) if c.startswith('[closure@') else self.resolve(c)
                if r is not None and r is not it and r not in s:
                    s.append(r)
            it._lcallees = s
        return it._lcallees

    def reachable(self, roots):
        seen = []
        ss = set()
        st = list(roots)
        while st:
            x = st.pop()
            if id(x) in ss:
                continue
            ss.add(id(x))
            seen.append(x)
            st.extend(self.local_callees(x))
        return seen

    def effectful(self, it):
        """Transitively performs a near_sdk host/collection operation (panics and logs aside)."""
        if self._eff is None:
            self._eff = {}
        k = id(it)
        if k in self._eff:
            return self._eff[k]
        res = False
        for f in self.reachable([it]):
            for c in self.callees(f):
                if 'near_sdk::' in c:
                    s = strip_generics(c)
                    if re.search(r'near_sdk::(env|collections|Promise|promise)', s) and not re.search(r'env::(panic|log)', s):
                        res = True
                        break
            if res:
                break
        self._eff[k] = res
        return res


SPAN_RE = re.compile(r'^(\S+?):(\d+):(\d+): (\d+):(\d+)')


def is_unnamed(o):
    return isinstance(o, tuple) and len(o) == 3 and o[0] == 'const' and o[1] == '_' and not o[2]


def has_unnamed(x):
    if is_unnamed(x):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_unnamed(y) for y in x)
    return False


def strip_strings(t):
    return re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)


def fn_consts(st):
    return ()


def strip_comments(t):
    out = []
    i = 0
    n = len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            i = n if j < 0 else j
        elif t.startswith('/*', i):
            j = t.find('*/', i)
            i = n if j < 0 else j + 2
        elif t[i] == '"':
            j = i + 1
            while j < n and t[j] != '"':
                if t[j] == '\\':
                    j += 1
                j += 1
            out.append(t[i:j + 1])
            i = j + 1
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def mir_match_brace(t, i):
    d = 0
    while i < len(t):
        c = t[i]
        if c == '"':
            i += 1
            while t[i] != '"':
                if t[i] == '\\':
                    i += 1
                i += 1
        elif c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(t)


def split_variants(body):
    out = []
    d = 0
    cur = ''
    for c in body:
        if c in '({[<':
            d += 1
        elif c in ')}]>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


INT_RE = re.compile(r'^(-?[\d_]+?)_?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$')


def lit_value(text):
    """Python value of a MIR literal ('10_u32', 'true', '"x"', '()') or None."""
    m = INT_RE.match(text)
    if m:
        return int(m.group(1).replace('_', ''))
    m = re.match(r'^([ui])(8|16|32|64|128|size)::(MAX|MIN|BITS)$', text)
    if m:
        n = 32 if m.group(2) == 'size' else int(m.group(2))
        if m.group(3) == 'BITS':
            return n
        if m.group(1) == 'u':
            return 2 ** n - 1 if m.group(3) == 'MAX' else 0
        return 2 ** (n - 1) - 1 if m.group(3) == 'MAX' else -2 ** (n - 1)
    if text == 'true':
        return True
    if text == 'false':
        return False
    if text.startswith('"') and text.endswith('"'):
        return text
    if text.startswith('b"') and text.endswith('"'):
        return text[1:]
    if text == '()':
        return '()'
    return None


def eval_const(prog, it):
    """Constant-fold a straight-line const body to an int/str, else None."""
    env = {}
    body = it.body

    def operand(o):
        if o[0] in ('copy', 'move'):
            p = o[1]
            v = env.get(p[0])
            for pr in p[1]:
                if pr[0] == '.' and isinstance(v, tuple):
                    v = v[pr[1]]
                elif pr[0] == '*':
                    pass
                else:
                    return None
            return v
        v = lit_value(o[1])
        if v is not None:
            return v
        p = const_path(o)
        if p:
            return prog.const_value(p)
        return None
    bb = 'bb0'
    for _ in range(200):
        b = body.blocks[bb]
        for st in b.stmts:
            if st[0] != 'assign' or st[1][1]:
                return None
            r = st[2]
            v = None
            if r[0] == 'use':
                v = operand(r[1])
            elif r[0] == 'ref':
                v = env.get(r[2][0])
            elif r[0] == 'cast':
                v = operand(r[2])
            elif r[0] == 'bin':
                a, c = operand(r[2]), operand(r[3])
                if a is None or c is None:
                    v = None
                else:
                    f = {'Add': lambda: a + c, 'Sub': lambda: a - c, 'Mul': lambda: a * c, 'Div': lambda: a // c, 'Rem': lambda: a % c,
                         'Eq': lambda: a == c, 'Shl': lambda: a << c,
                         'CheckedAdd': lambda: (a + c, False), 'CheckedSub': lambda: (a - c, False), 'CheckedMul': lambda: (a * c, False)}.get(r[1])
                    v = f() if f else None
            env[st[1][0]] = v
        t = b.term
        if t[0] == 'return':
            return env.get('_0')
        if t[0] == 'goto':
            bb = t[1]
        elif t[0] == 'assert':
            bb = t[3]
        elif t[0] == 'call':
            f = strip_generics(t[2])
            if f.endswith('::pow') and len(t[3]) == 2:
                a, c = operand(t[3][0]), operand(t[3][1])
                env[t[1][0]] = None if a is None or c is None else a ** c
                bb = t[4]
            else:
                return None
        else:
            return None
    return None


UNEV_RE = re.compile(r'Unevaluated\(')


def const_path(o):
    """Path of the named constant behind a const operand, if any."""
    if o[0] != 'const':
        return None
    if o[1] == '_' and o[2]:
        i = o[2].index('Unevaluated(') + len('Unevaluated(')
        j = mir.match_close(o[2], i - 1)
        parts = mir.split_top(o[2][i:j])
        if parts[-1].startswith('Some(promoted'):
            return None
        return parts[0]
    if o[1].startswith('?'):
        return o[1]
    if re.match(r'^[A-Za-z_<]', o[1]) and '::' in o[1]:
        return o[1]
    if re.match(r'^[A-Z_0-9]+$', o[1]):
        return o[1]
    return None


def promoted_key(o):
    if o[0] == 'const' and o[1] == '_' and o[2]:
        i = o[2].index('Unevaluated(') + len('Unevaluated(')
        j = mir.match_close(o[2], i - 1)
        parts = mir.split_top(o[2][i:j])
        m = re.match(r'Some\((promoted\[\d+\])\)', parts[-1])
        if m:
            return m.group(1)
    return None

"""Parser for the textual MIR that rustc 1.69 prints (-Zunpretty=mir).

Items are split once and parsed lazily: only bodies an analysis reaches are parsed.
"""
import re

SCOPE_RE = re.compile(r'\s+// (?:return place )?(?:in )?scope \d+ at (.*)$')
BB_RE = re.compile(r'^    (bb\d+)(?: \(cleanup\))?: \{$')
LET_RE = re.compile(r'^\s*let (?:mut )?(_\d+): (.*);$')
DEBUG_RE = re.compile(r'^\s*debug (\S+) => (.*);$')
LIT_RE = re.compile(r'^\s*// \+ literal: (.*)$')


def match_close(s, i):
    """s[i] is an opening bracket; index of its closing bracket (strings and -> aware)."""
    op = s[i]
    pairs = {'(': ')', '[': ']', '{': '}', '<': '>'}
    stack = []
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == '\\')):
            j = s.find("'", i + 2 if s[i + 1] != '\\' else i + 3)
            if j > 0 and j - i < 12:
                i = j
        elif c in pairs:
            stack.append(pairs[c])
        elif c in ')]}>':
            if c == '>' and (s[i - 1] == '-' or s[i - 1] == '='):
                pass
            else:
                if not stack or stack[-1] != c:
                    raise ValueError('bracket mismatch in %r at %d' % (s, i))
                stack.pop()
                if not stack:
                    return i
        i += 1
    raise ValueError('no close in %r' % s)


def split_top(s, sep=','):
    """Split at top-level separators."""
    out = []
    depth = 0
    cur = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        elif c == "'" and i + 2 < n and s[i + 2] == "'":
            i += 2
        elif c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>':
            if i > 0 and s[i - 1] in '-=':
                pass
            else:
                depth -= 1
        elif c == sep and depth == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    last = s[cur:].strip()
    if last:
        out.append(last)
    return out


# ---------------------------------------------------------------- places

def parse_place(s):
    """-> (local:str, proj:tuple)"""
    p, rest = _place(s, 0)
    if rest != len(s):
        raise ValueError('trailing in place %r' % s)
    return p


def _place(s, i):
    c = s[i]
    if c == '_':
        j = i + 1
        while j < len(s) and s[j].isdigit():
            j += 1
        base = (s[i:j], ())
        i = j
    elif c == '(':
        j = match_close(s, i)
        inner = s[i + 1:j]
        if inner[0] == '*':
            p, k = _place(inner, 1)
            assert k == len(inner), s
            base = (p[0], p[1] + (('*',),))
        else:
            p, k = _place(inner, 0)
            if inner.startswith(' as ', k):
                base = (p[0], p[1] + (('as', inner[k + 4:]),))
            elif inner[k] == '.':
                m = re.match(r'\.(\d+): ', inner[k:])
                base = (p[0], p[1] + (('.', int(m.group(1)), inner[k + m.end():]),))
            else:
                raise ValueError('place %r' % s)
        i = j + 1
    else:
        raise ValueError('place %r' % s)
    while i < len(s) and s[i] == '[':
        j = match_close(s, i)
        base = (base[0], base[1] + (('[]', s[i + 1:j]),))
        i = j + 1
    return base, i


PLACE_START = re.compile(r'^(_\d+|\()')


def is_place(s):
    if not PLACE_START.match(s):
        return False
    if s[0] == '(':
        # tuple aggregate or place: places start with (* or (_N. / (_N as / ((
        try:
            p, k = _place(s, 0)
            return k == len(s)
        except Exception:
            return False
    return re.match(r'^_\d+(\[.*\])*$', s) is not None


def parse_operand(s, lits):
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:], lits.take(s[6:]))
    if is_place(s):
        return ('copy', parse_place(s))
    if re.match(r'^[A-Za-z_<\[]', s):
        return ('const', s, None)      # a function item used as a value
    raise ValueError('operand %r' % s)


class Lits:
    """Literal comments following one statement, in order."""

    def __init__(self, lits):
        self.l = [x for x in lits]

    def take(self, text):
        if text == '_':
            for k, x in enumerate(self.l):
                if 'Unevaluated(' in x:
                    return self.l.pop(k)
            return None
        return None


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt', 'Offset',
          'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}
UNOPS = {'Not', 'Neg'}
FIELD_RE = re.compile(r'^([A-Za-z_][A-Za-z0-9_]*): (.*)$', re.S)


def parse_rvalue(s, lits):
    if s.startswith('&mut '):
        return ('ref', 'mut', parse_place(s[5:]))
    if s.startswith('&raw const ') or s.startswith('&raw mut '):
        return ('ref', 'mut' if 'mut' in s[:9] else '', parse_place(s.split(' ', 2)[2]))
    if s[0] == '&':
        t = s[1:]
        if t.startswith('shallow '):
            t = t[8:]
        return ('ref', '', parse_place(t))
    m = re.match(r'^([A-Za-z]+)\(', s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        nm = m.group(1)
        inner = s[m.end():-1]
        if nm in BINOPS:
            a = split_top(inner)
            if len(a) == 2:
                return ('bin', nm, parse_operand(a[0], lits), parse_operand(a[1], lits))
        if nm in UNOPS:
            return ('un', nm, parse_operand(inner, lits))
        if nm == 'Len':
            return ('len', parse_place(inner))
        if nm == 'discriminant':
            return ('discr', parse_place(inner))
        if nm in ('SizeOf', 'AlignOf'):
            return ('opaque', s)
        if nm == 'ShallowInitBox':
            return ('opaque', s)
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    # casts
    m = re.match(r'^(.*?) as (.*) \(([A-Za-z]+(?:\([A-Za-z() ]*\))?)\)$', s)
    if m and (m.group(1).startswith(('move ', 'const ', '_', '('))):
        try:
            return ('cast', m.group(3), parse_operand(m.group(1), lits), m.group(2))
        except ValueError:
            pass
    if s.startswith('move ') or s.startswith('const ') or is_place(s):
        return ('use', parse_operand(s, lits))
    if s[0] == '(':
        items = split_top(s[1:-1])
        return ('agg', '(tuple)', None, [parse_operand(x, lits) for x in items])
    if s.startswith('[closure@') or s.startswith('[generator@'):
        j = match_close(s, 0)
        ty = s[:j + 1]
        rest = s[j + 1:].strip()
        names, ops = [], []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                fm = FIELD_RE.match(x)
                names.append(fm.group(1))
                ops.append(parse_operand(fm.group(2), lits))
        return ('agg', ty, names, ops)
    if s[0] == '[':
        inner = s[1:-1]
        rep = split_top(inner, ';')
        if len(rep) == 2:
            return ('repeat', parse_operand(rep[0], lits), rep[1])
        return ('agg', '[array]', None, [parse_operand(x, lits) for x in split_top(inner)])
    # struct/enum aggregates
    if s.endswith('}'):
        # find ' {' at top level
        depth = 0
        for i, c in enumerate(s):
            if c in '<([':
                depth += 1
            elif c in '>)]' and not (c == '>' and s[i - 1] in '-='):
                depth -= 1
            elif c == '{' and depth == 0:
                break
        path = s[:i].strip()
        names, ops = [], []
        for x in split_top(s[i + 1:-1]):
            fm = FIELD_RE.match(x)
            names.append(fm.group(1))
            ops.append(parse_operand(fm.group(2), lits))
        return ('agg', path, names, ops)
    if s.endswith(')'):
        depth = 0
        i = len(s)
        # find the '(' matching the last ')'
        for k, c in enumerate(s):
            if c == '(' and depth == 0 and match_close(s, k) == len(s) - 1:
                i = k
                break
            if c in '<[(':
                depth += 1
            elif c in '>])' and not (c == '>' and s[k - 1] in '-='):
                depth -= 1
        return ('agg', s[:i], None, [parse_operand(x, lits) for x in split_top(s[i + 1:-1])])
    if re.match(r'^[A-Za-z_<]', s):
        return ('agg', s, None, [])
    return ('opaque', s)


ARROW_RE = re.compile(r' -> (bb\d+|\[return: (bb\d+).*\]|\[.*\])$')


def parse_stmt(s, lits):
    if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'Coverage', 'Retag', 'ConstEvalCounter', 'Deinit', 'PlaceMention')):
        return None
    m = re.match(r'^discriminant\((.*)\) = (\d+)$', s)
    if m:
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    k = find_assign(s)
    if k < 0:
        return ('other', s)
    return ('assign', parse_place(s[:k]), parse_rvalue(s[k + 3:], lits))


def find_assign(s):
    depth = 0
    for i, c in enumerate(s):
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        elif c == ' ' and depth == 0 and s.startswith(' = ', i):
            return i
        elif c == '"':
            return -1
    return -1


def parse_call(body, lits):
    """body: 'FUNC(args)' -> (func_text, [operands])"""
    # the argument list is the last top-level paren group
    depth = 0
    start = None
    i = 0
    n = len(body)
    while i < n:
        c = body[i]
        if c == '"':
            i += 1
            while body[i] != '"':
                if body[i] == '\\':
                    i += 1
                i += 1
        elif c == '(' and depth == 0:
            j = match_close(body, i)
            if j == n - 1:
                start = i
                break
            i = j
        elif c in '<[{':
            i = match_close(body, i)
        i += 1
    func = body[:start]
    args = [parse_operand(x, lits) for x in split_top(body[start + 1:-1])]
    return func, args


def parse_term(s, lits):
    if s == 'return':
        return ('return',)
    if s in ('unreachable', 'resume', 'abort'):
        return ('unreachable',)
    m = re.match(r'^goto -> (bb\d+)$', s)
    if m:
        return ('goto', m.group(1))
    m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', s)
    if m:
        op = parse_operand(m.group(1), lits)
        tgts = []
        other = None
        for x in split_top(m.group(2)):
            k, b = x.rsplit(': ', 1)
            if k == 'otherwise':
                other = b
            else:
                tgts.append((int(k), b))
        return ('switch', op, tgts, other)
    m = re.match(r'^drop\((.*)\) -> (?:\[return: )?(bb\d+).*$', s)
    if m:
        return ('goto', m.group(2))
    m = re.match(r'^assert\((.*)\) -> (?:\[success: )?(bb\d+).*$', s)
    if m:
        parts = split_top(m.group(1))
        c = parts[0]
        expected = True
        if c.startswith('!'):
            expected = False
            c = c[1:]
        return ('assert', parse_operand(c, lits), expected, m.group(2), parts[1] if len(parts) > 1 else '')
    m = ARROW_RE.search(s)
    tgt = None
    if m:
        tgt = m.group(2) or m.group(1)
        if not tgt.startswith('bb'):
            tgt = None
        s = s[:m.start()]
    k = find_assign(s)
    if k >= 0:
        dest = parse_place(s[:k])
        func, args = parse_call(s[k + 3:], lits)
        return ('call', dest, func, args, tgt)
    raise ValueError('terminator %r' % s)


class Block:
    __slots__ = ('stmts', 'term', 'span', 'name', 'spans')


class Body:
    """One parsed MIR body."""

    def __init__(self, item):
        self.item = item
        self.locals = {}
        self.debug = []
        self.blocks = {}
        self.nargs = len(item.args)
        for i, (n, t) in enumerate(item.args):
            self.locals[n] = t
        self.locals['_0'] = item.ret
        self._parse(item.lines)

    def _parse(self, lines):
        cur = None
        pend = []      # [text, span, lits]
        for raw in lines:
            if cur is None:
                m = BB_RE.match(raw)
                if m:
                    cur = m.group(1)
                    pend = []
                    continue
                line = SCOPE_RE.sub('', raw)
                m = LET_RE.match(line)
                if m:
                    self.locals[m.group(1)] = m.group(2)
                    continue
                m = DEBUG_RE.match(line)
                if m:
                    self.debug.append((m.group(1), m.group(2)))
                continue
            if raw == '    }':
                self._block(cur, pend)
                cur = None
                continue
            m = LIT_RE.match(raw)
            if m:
                if pend:
                    pend[-1][2].append(m.group(1))
                continue
            st = raw.strip()
            if not st or st.startswith('//'):
                continue
            m = SCOPE_RE.search(raw)
            span = m.group(1) if m else ''
            text = raw[:m.start()] if m else raw
            text = text.strip()
            if text.endswith(';'):
                text = text[:-1]
            pend.append([text, span, []])

    def _block(self, name, pend):
        b = Block()
        b.name = name
        b.stmts = []
        b.spans = []
        for text, span, lits in pend[:-1]:
            st = parse_stmt(text, Lits(lits))
            if st:
                b.stmts.append(st)
                b.spans.append(span)
        text, span, lits = pend[-1]
        b.term = parse_term(text, Lits(lits))
        b.span = span
        self.blocks[name] = b

    def debug_name(self, local):
        for n, p in self.debug:
            if p == local:
                return n
        return None


FN_RE = re.compile(r'^fn ')


class Item:
    """A top-level MIR item (fn, const, static, promoted)."""

    def __init__(self, kind, path, args, ret, lines, lineno):
        self.kind, self.path, self.args, self.ret, self.lines, self.lineno = kind, path, args, ret, lines, lineno
        self._body = None

    post = None

    @property
    def body(self):
        if self._body is None:
            self._body = Body(self)
            if self.post:
                self.post(self, self._body)
        return self._body

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.path)


def parse_header(h):
    """-> (kind, path, args, ret)"""
    h = h.rstrip()
    assert h.endswith('{'), h
    h = h[:-1].rstrip()
    if h.startswith('fn '):
        s = h[3:]
        # locate the arg list: first top-level '(' that follows the path
        i = 0
        n = len(s)
        while i < n:
            c = s[i]
            if c == '<' or c == '{' or c == '[':
                i = match_close(s, i)
            elif c == '(':
                break
            i += 1
        j = match_close(s, i)
        args = []
        for a in split_top(s[i + 1:j]):
            nme, t = a.split(': ', 1)
            args.append((nme, t))
        ret = s[j + 1:].strip()
        ret = ret[3:].strip() if ret.startswith('->') else '()'
        return 'fn', s[:i], args, ret
    m = re.match(r'^(promoted\[\d+\]) in (.*): (.*) =$', h)
    if m:
        k = split_type_suffix(h[:-1].rstrip())
        return 'promoted', (k[0]), [], k[1]
    for kw in ('const ', 'static mut ', 'static '):
        if h.startswith(kw):
            k = split_type_suffix(h[len(kw):-1].rstrip())
            return 'const', k[0], [], k[1]
    k = split_type_suffix(h[:-1].rstrip()) if h.endswith('=') else (h, '')
    return 'other', k[0], [], k[1]


def split_type_suffix(s):
    """'path: type' -> (path, type), colon outside brackets and not '::'"""
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in '<([{':
            i = match_close(s, i)
        elif c == ':':
            if i + 1 < n and s[i + 1] == ':':
                i += 1
            else:
                return s[:i].strip(), s[i + 1:].strip()
        i += 1
    return s, ''


def load(path):
    items = []
    cur = None
    with open(path, encoding='utf-8', errors='replace') as f:
        for no, line in enumerate(f, 1):
            line = line.rstrip('\n')
            if cur is None:
                if not line or line.startswith((' ', '//', '}')):
                    continue
                if not line.endswith('{'):
                    # alloc dumps and the like: skip to a blank line
                    continue
                if re.match(r'^alloc\d+', line):
                    cur = ('skip', [], no)
                    continue
                cur = (line, [], no)
            else:
                if line == '}':
                    if cur[0] != 'skip':
                        kind, p, args, ret = parse_header(cur[0])
                        items.append(Item(kind, p, args, ret, cur[1], cur[2]))
                    cur = None
                else:
                    cur[1].append(line)
    return items

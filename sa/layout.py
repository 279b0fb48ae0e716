"""The Borsh layout of stored types, read from the declarations in the source."""
import re
from model import strip_comments, split_variants, mir_match_brace

ALIAS = {'AccountId': 'String', 'Balance': 'u128', 'StorageUsage': 'u64', 'Timestamp': 'u64', 'BlockHeight': 'u64', 'U128': 'u128', 'U64': 'u64', 'I64': 'i64', 'Gas': 'u64',
         'ValidAccountId': 'String', 'EpochHeight': 'u64', 'WrappedTimestamp': 'u64', 'WrappedBalance': 'u128'}


class Decls:
    def __init__(self, P):
        self.structs, self.enums, self.alias = {}, {}, {}
        for f in P.sources:
            txt = strip_comments('\n'.join(P.src_lines(f)))
            for m in re.finditer(r'\btype\s+(\w+)\s*=\s*([^;]+);', txt):
                self.alias.setdefault(m.group(1), m.group(2).strip())
            for m in re.finditer(r'\bstruct\s+(\w+)(<[^>{(]*>)?\s*(\{|\()', txt):
                if m.group(3) == '{':
                    j = mir_match_brace(txt, m.end() - 1)
                    self.structs.setdefault(m.group(1), []).append((f, fields(txt[m.end():j], True)))
                else:
                    j = close(txt, m.end() - 1)
                    self.structs.setdefault(m.group(1), []).append((f, fields(txt[m.end():j], False)))
            for m in re.finditer(r'\benum\s+(\w+)[^{;]*\{', txt):
                j = mir_match_brace(txt, m.end() - 1)
                vs = []
                for part in split_variants(txt[m.end():j]):
                    part = attrs(part)[1]
                    mm = re.match(r'^(\w+)', part)
                    if mm:
                        rest = part[mm.end():].strip()
                        inner = rest[1:-1] if rest[:1] in '({' and rest[-1:] in ')}' and rest else ''
                        vs.append((mm.group(1), fields(inner, rest[:1] == '{')))
                self.enums.setdefault(m.group(1), []).append((f, vs))

    def pick(self, tab, name, f):
        c = tab.get(name)
        if not c:
            return None
        return next((x for x in c if x[0] == f), c[0])

    def type(self, t, f, seen=()):
        """canonical layout of a type as named in file f"""
        t = re.sub(r'\s+', '', t)
        m = re.match(r'^([\w:]+)(?:<(.*)>)?$', t)
        if t.startswith('(') and t.endswith(')'):
            return ['tuple'] + [['', self.type(x, f, seen)] for x in split_variants(t[1:-1])]
        m2 = re.match(r'^\[(.*);(.*)\]$', t)
        if m2:
            return ['array', m2.group(2), self.type(m2.group(1), f, seen)]
        if not m:
            return t
        n = m.group(1).rsplit('::', 1)[-1]
        if m.group(2):
            return [n] + [self.type(x, f, seen) for x in split_variants(m.group(2))]
        if n in self.alias and n not in seen:
            return self.type(self.alias[n], f, seen + (n,))
        if n in seen:
            return n
        s = self.pick(self.structs, n, f)
        if s and n not in ('U256', 'U384'):
            return ['struct'] + [[k, self.type(x, s[0], seen + (n,))] for k, x in s[1]]
        e = self.pick(self.enums, n, f)
        if e:
            return ['enum'] + [[v, [[k, self.type(x, e[0], seen + (n,))] for k, x in fs]] for v, fs in e[1]]
        return ALIAS.get(n, n)


def close(txt, i):
    d = 0
    for j in range(i, len(txt)):
        d += (txt[j] in '([{') - (txt[j] in ')]}')
        if d == 0:
            return j
    return len(txt)


def attrs(part):
    """(attributes, the rest)"""
    part = part.strip()
    at = ''
    while part.startswith('#'):
        j = close(part, part.index('['))
        at += part[:j + 1]
        part = part[j + 1:].strip()
    return at, part


def fields(body, named):
    out = []
    for n, part in enumerate(split_variants(body)):
        at, part = attrs(part)
        if not part or 'borsh_skip' in at:
            continue
        part = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', part)
        if named:
            k, t = part.split(':', 1)
            out.append((k.strip(), t.strip()))
        else:
            out.append((str(n), part))
    return out


def differs(old, new, path=''):
    """the first place where data written with the old layout would not be read as it was meant, or None"""
    if isinstance(old, str) or isinstance(new, str):
        return None if old == new else '%s: %s became %s' % (path, brief(old), brief(new))
    if old[0] in ('struct', 'enum', 'tuple'):
        if new[0] != old[0]:
            return '%s: %s became %s' % (path, old[0], brief(new))
        if len(new) < len(old) or old[0] != 'enum' and len(new) != len(old):
            return '%s: %d parts became %d' % (path, len(old) - 1, len(new) - 1)
        return parts(old[1:], new[1:], path, old[0] == 'enum')
    if len(old) != len(new) or old[0] != new[0]:
        return '%s: %s became %s' % (path, brief(old), brief(new))
    for a, b in zip(old[1:], new[1:]):
        d = differs(a, b, path)
        if d:
            return d
    return None


def parts(old, new, path, enum=False):
    names = [k for k, _ in old]
    for (k, a), (k2, b) in zip(old, new):
        if k2 != k and k2 in names:
            return '%s: %s now stands where %s stood' % (path, k2, k)
        if enum:
            if len(a) != len(b):
                return '%s.%s: %d parts became %d' % (path, k, len(a), len(b))
            d = parts(a, b, path + '.' + k)
        else:
            d = differs(a, b, path + '.' + k)
        if d:
            return d
    return None


def brief(x):
    return x if isinstance(x, str) else x[0]

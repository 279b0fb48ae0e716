"""Pool parameters and fees."""
from framework import Rule
from base import *  # noqa
from shares import pools_store
from slippage import les

KINDS = {'SimplePool': ('token_account_ids', 'total_fee'),
         'StableSwapPool': ('token_account_ids', 'token_decimals', 'total_fee', 'init_amp_factor', 'target_amp_factor', 'init_amp_time', 'stop_amp_time'),
         'RatedSwapPool': ('token_account_ids', 'token_decimals', 'total_fee', 'init_amp_factor', 'target_amp_factor', 'init_amp_time', 'stop_amp_time'),
         'DegenSwapPool': ('token_account_ids', 'token_decimals', 'total_fee', 'init_amp_factor', 'target_amp_factor', 'init_amp_time', 'stop_amp_time')}
DIVISOR = 10000
MAXAMP = 1000000
DAY = 86400 * 10**9
RAMP = ('init_amp_factor', 'target_amp_factor', 'init_amp_time', 'stop_amp_time')
NOW = mk('call', 'env::block_timestamp', ())


def unchanged(x, fld):
    """the field of a stored pool, as it was"""
    if x.op != 'proj' or x.a[1] != fld:
        return False
    return any(y.op == 'call' and y.a[0] == 'Vector::get' for y in subterms(x))


def uppers(facts, x):
    """constants x is known not to exceed"""
    out = []
    if is_c(x):
        out.append(cval(x))
    for f in facts:
        if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt', 'Eq'):
            o, a, b = f.a[0].a
            if o == 'Eq':
                if f.op == 'T' and (a is x and is_c(b) or b is x and is_c(a)):
                    out.append(cval(b if a is x else a))
                continue
            strict = o == 'Lt'
            if f.op == 'F':
                a, b, strict = b, a, not strict
            if strip(a) is strip(x) and is_c(b) and isinstance(cval(b), int):
                out.append(cval(b) - (1 if strict else 0))
    return out


def lowers(facts, x):
    out = []
    if is_c(x):
        out.append(cval(x))
    for f in facts:
        if f.op in ('T', 'F') and f.a[0].op == 'bin':
            o, a, b = f.a[0].a
            if o not in ('Le', 'Lt'):
                if o == 'Eq' and f.op == 'F' and (strip(a) is strip(x) and is_c(b) and cval(b) == 0 or strip(b) is strip(x) and is_c(a) and cval(a) == 0):
                    out.append(1)
                if o == 'Eq' and f.op == 'T' and (a is x and is_c(b) or b is x and is_c(a)):
                    out.append(cval(b if a is x else a))
                continue
            strict = o == 'Lt'
            if f.op == 'F':
                a, b, strict = b, a, not strict
            if strip(b) is strip(x) and is_c(a) and isinstance(cval(a), int):
                out.append(cval(a) + (1 if strict else 0))
    return out


def stored(cx, fld):
    """(event, kind, new?, value, facts) of a pool field at each store of a pool"""
    I = cx.I
    for e in pools_store(cx):
        new = e.name.endswith('push')
        v = e.args[1] if new else e.args[2]
        for x, f in resolve(I, e.facts, v, deep=False):
            kv = I.variant_of(x) if x.op == 'ctor' else None
            for k, fs in KINDS.items():
                if fld not in fs or kv is not None and kv != k:
                    continue
                for y, g in resolve(I, f, I.project(x, (k, 0, fld)), deep=False):
                    yield e, k, new, y, g, x


class PoolParams(Rule):
    id = 'X02'
    rule = ('at every store of a pool: total_fee is what it was or is bounded by a must-hold fact below the divisor; the token list and decimals of an existing pool are untouched; '
            'a new pool has a token list whose length is checked and whose duplicates are rejected; referral and admin fees are written only with values checked in range')
    floors = {'fees': 20, 'tokens': 20, 'new pools': 4, 'fee settings': 3}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['modify_total_fee', 'modify_admin_fee', 'insert_referral', 'update_referral', 'add_simple_pool', 'add_stable_swap_pool', 'add_rated_swap_pool', 'add_degen_swap_pool']

    def check(self, cx):
        I = cx.I
        seen = set()
        for e, k, new, y, g, x in stored(cx, 'total_fee'):
            if unchanged(y, 'total_fee'):
                cx.count('fees')
                continue
            fs = g | cx.facts
            ok = any(u < DIVISOR for u in uppers(fs, y)) or self.anyway(cx, e, y)
            cx.ob(ok, 'total_fee-%s' % k, 'the fee of a pool is below 100 per cent', e, count='fees')
        for fld in ('token_account_ids', 'token_decimals'):
            for e, k, new, y, g, x in stored(cx, fld):
                if new:
                    continue
                cx.ob(unchanged(y, fld), '%s-%s' % (fld, k), 'the %s of an existing pool never change' % fld, e, count='tokens')
        for e in pools_store(cx):
            if not e.name.endswith('push'):
                continue
            for x, f in resolve(I, e.facts, e.args[1], deep=False):
                k = I.variant_of(x)
                if k not in KINDS:
                    cx.viol('new-pool', 'a new pool of unknown kind', e)
                    continue
                cx.ob(self.no_dups(cx, e, f | cx.facts), 'duplicates-%s' % k, 'a new pool has no token twice', e, count='new pools')
                cx.ob(self.counted(cx, e, f | cx.facts), 'count-%s' % k, 'the number of tokens of a new pool is checked', e, count='new pools')
        if cx.name == 'new':
            return
        for e in cx.evs:
            if e.kind == 'write' and e.locs[0][0] == ('R', 'self') and e.locs[0][1] == ('admin_fee_bps',):
                ok = any(u < DIVISOR for u in uppers(e.facts | cx.facts, e.args[0]))
                cx.ob(ok, 'admin_fee_bps', 'the admin fee is below 100 per cent', e, count='fee settings')
            if collection_write(e) and e.name.endswith('insert') and e.args[0].op == 'proj' and e.args[0].a[1] == 'referrals' and len(e.args) > 2:
                fs = e.facts | cx.facts
                ok = any(u < DIVISOR for u in uppers(fs, e.args[2])) and any(u >= 1 for u in lowers(fs, e.args[2]))
                cx.ob(ok, 'referral-fee', 'a referral fee is above zero and below 100 per cent', e, count='fee settings')

    def anyway(self, cx, e, y):
        return always(cx.I, e.facts | cx.facts, e.may, lambda fs: any(u < DIVISOR for u in uppers(fs, y)))

    def no_dups(self, cx, e, facts):
        """a set of the tokens was built and found as large as the list"""
        for f in facts:
            if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Eq':
                s = [any(self.toks(cx.I, x) for x in [t]) for t in f.a[0].a[1:]]
                if all(s):
                    return True
            if f.op == 'E' and str(f.a[0]).endswith('check_token_duplicates'):
                return True
            if f.op == 'forall' and f.a[1].op == 'T' and any(x.op == 'call' and x.a[0].endswith('::insert') for x in subterms(f.a[1])):
                return True
        return False

    def toks(self, I, t):
        return any(x.op == 'proj' and x.a[1] == 'tokens' or is_arg(x, 'tokens') for x in subterms(t))

    def counted(self, cx, e, facts):
        """the length of the list equals a constant, or that of the decimals list"""
        for f in facts:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Eq', 'Le', 'Lt'):
                if any(self.toks(cx.I, t) and any(x.op == 'len' or x.op == 'call' and x.a[0].endswith('len') for x in subterms(t)) for t in f.a[0].a[1:]):
                    return True
        return False


class Amp(Rule):
    id = 'X03'
    rule = ('at every store of a pool, each amplification field is what it was, or: for a new pool both factors are one value checked within [MIN_AMP, MAX_AMP]; on a change the start of the ramp '
            'is the current block time; the target equals the start value (stop), or is checked positive, below MAX_AMP, within a factor of 10 of the current value, '
            'at least a day after the last change and at least a day long')
    floors = {'new': 3, 'ramps': 3, 'kept': 30}

    def select(self, P, crate, name):
        return nonview(P, crate, name)

    def required(self, crate):
        return ['stable_swap_ramp_amp', 'stable_swap_stop_ramp_amp', 'add_stable_swap_pool', 'add_rated_swap_pool', 'add_degen_swap_pool']

    def check(self, cx):
        I = cx.I
        for e in pools_store(cx):
            new = e.name.endswith('push')
            for x, f in resolve(I, e.facts, e.args[1 if new else 2], deep=False):
                kv = I.variant_of(x) if x.op == 'ctor' else None
                for k, fs in KINDS.items():
                    if RAMP[0] in fs and kv in (None, k):
                        for vals, g in together(I, f, [I.project(x, (k, 0, fl)) for fl in RAMP]):
                            self.one(cx, e, k, new, vals, g | cx.facts)

    def one(self, cx, e, k, new, vals, fs):
        I = cx.I
        z, y, start, stop = vals
        if new:
            ok = z is y and any(u <= MAXAMP for u in uppers(fs, y)) and any(u >= 1 for u in lowers(fs, y))
            cx.ob(ok, 'new-%s' % k, 'the amplification of a new pool is within its bounds', e, count='new')
            return
        if all(unchanged(v, fl) for v, fl in zip(vals, RAMP)):
            cx.count('kept')
            return
        cx.ob(start is NOW, 'start-%s' % k, 'a ramp starts at the current block time', e, count='ramps')
        ws = resolve(I, fs, z)
        cx.ob(bool(ws) and all(self.in_force(w, h) for w, h in ws), 'from-%s' % k, 'a ramp starts from the amplification in force', e, count='ramps')
        if z is y:
            return

        def bounded(f):
            return any(u < MAXAMP for u in uppers(f, y)) and any(u >= 1 for u in lowers(f, y))
        cx.ob(bounded(fs) or always(I, fs, e.may, bounded), 'range-%s' % k, 'the target amplification is positive and below the maximum', e, count='ramps')
        cx.ob(always(I, fs, e.may, lambda f: self.tenfold(f, y, z)), 'change-%s' % k, 'the amplification changes at most tenfold', e, count='ramps')
        cx.ob(self.apart(fs, NOW, stop), 'length-%s' % k, 'a ramp takes at least a day', e, count='ramps')
        cx.ob(self.apart_old(fs), 'again-%s' % k, 'a ramp starts at least a day after the last one started', e, count='ramps')

    def in_force(self, w, facts):
        """the old target once the ramp is over, else interpolated from the old ramp and the clock"""
        if unchanged(w, 'target_amp_factor'):
            return any(a.op == 'proj' and a.a[1] == 'stop_amp_time' and b is NOW for a, b in les(facts))
        xs = list(subterms(w))
        return NOW in xs and all(any(x.op == 'proj' and x.a[1] == fl for x in xs) for fl in RAMP)

    def tenfold(self, facts, y, z):
        up = dn = above = below = False
        for a, b in les(facts):
            if a is y and self.times(b, z):
                up = True
            if a is z and self.times(b, y):
                dn = True
            if a is z and b is y:
                above = True
            if a is y and b is z:
                below = True
        return up and (above or dn) or dn and (below or up)

    def times(self, t, z):
        return t.op == 'bin' and t.a[0] == 'Mul' and any(t.a[i] is z and is_c(t.a[3 - i]) and cval(t.a[3 - i]) <= 10 for i in (1, 2))

    def apart(self, facts, a, b):
        return any(x.op == 'bin' and x.a[0] == 'Add' and any(x.a[i] is a and is_c(x.a[3 - i]) and cval(x.a[3 - i]) >= DAY for i in (1, 2)) and y is b for x, y in les(facts))

    def apart_old(self, facts):
        return any(x.op == 'bin' and x.a[0] == 'Add' and any(x.a[i].op == 'proj' and x.a[i].a[1] == 'init_amp_time' and is_c(x.a[3 - i]) and cval(x.a[3 - i]) >= DAY
                                                                 for i in (1, 2)) and y is NOW for x, y in les(facts))

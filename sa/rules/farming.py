"""The farming contract's ledgers: stakes, rewards, reward funds, farms."""
import farmbooks
from framework import Rule
from base import *  # noqa
from tokens import cross_call, inner, same_val, inevitable, amounts, zero_value
from terms import T, mk, C, is_c, cval, phis, subst, subterms, show

SEEDS = st('farming', 'seeds')
FARMS = st('farming', 'farms')
DEPOSITS = ('ft_on_transfer', 'mft_on_transfer')
CALLBACKS = {'callback_post_withdraw_reward': 'rew', 'callback_post_withdraw_ft_seed': 'stake', 'callback_post_withdraw_mft_seed': 'stake'}


def events(I):
    return sorted((e for e in I.__dict__.get('farm_events', {}).values() if e.extra), key=lambda e: e.seq)


def changes(I):
    """every write to a farmer's stakes or rewards: (event or None, kind, key, form, who)"""
    out = [(e,) + tuple(e.extra) for e in events(I) if len(e.extra) == 4]
    return out + [(None,) + x for x in I.__dict__.get('farm_refs', {}).values()]


def errors(I, *starts):
    return [(e, w) for e, w in I.__dict__.get('book_errors', {}).values() if any(w.startswith(s) for s in starts)]


def pends(a, *tags):
    return [f for f in a if f.op == 'pend' and f.a[0][0] in tags]


def key_eq(I, facts, a, b):
    a, b = strip(a), strip(b)
    return a is b or mk('T', eq(a, b)) in facts or phi_eq(I, facts, a, b) or phi_eq(I, facts, b, a)


def shared(facts, xs, ys):
    return any(ledger.equal(facts, inner(x), inner(y)) for x in xs for y in ys)


def live(cx):
    """path alternatives that can be taken"""
    return [a for a in cx.alts if not contradicts(cx.facts, a)]


def left(cx, *tags):
    """what a loop went on from without booking the other side"""
    return [f for d in cx.I.dropped.values() for f in d if f.op == 'pend' and f.a[0][0] in tags]


def site(cx, f):
    return cx.I.__dict__.get('pend_sites', {}).get(f)


def nothing(facts):
    """the argument amount is zero"""
    return any(ledger.zero(facts, x) for x in amounts(facts))


class Farming(Rule):
    crates = ('farming',)

    def select(self, P, crate, name):
        return nonview(P, crate, name)


class SeedTotals(Farming):
    id = 'F03'
    rule = ('double-entry typestate over every path: each write to a farmer\'s stake map is the previous entry plus or minus an amount, and at every return the amounts booked in '
            'stake maps equal, seed by seed, those booked in the seeds\' totals')
    floors = {'stake writes': 5, 'total writes': 5, 'moves': 4, 'entries': 18}

    def required(self, crate):
        return ['ft_on_transfer', 'mft_on_transfer', 'withdraw_seed', 'callback_post_withdraw_ft_seed', 'callback_post_withdraw_mft_seed']

    def check(self, cx):
        I = cx.I
        cx.count('entries')
        for e, w in errors(I, 'seeds-', 'seed-'):
            cx.viol('write', 'a stake or a seed total becomes something other than what it was plus or minus an amount', e)
        for e, kind, key, form, who in changes(I):
            if kind == 'stake':
                cx.ob(len(who) == 1, 'who', 'the stake written belongs to one farmer', e, count='stake writes')
        cx.count('total writes', sum(1 for e in events(I) if e.extra[0] == 'total'))
        for a in live(cx):
            facts = cx.facts | a
            tot = pends(a, 'total')
            for f in pends(a, 'stake'):
                hit = next((g for g in tot if g.a[2] == f.a[2] and key_eq(I, facts, g.a[0][1], f.a[0][1]) and shared(facts, f.a[1], g.a[1])), None)
                if hit is not None:
                    tot.remove(hit)
                cx.ob(hit is not None, 'stake', 'the seed total moves with the stake (%s)' % pend_name(f), site(cx, f), count='moves')
            for g in tot:
                cx.ob(False, 'total', 'a seed total moves without a stake (%s)' % pend_name(g), site(cx, g))
        for f in left(cx, 'stake', 'total'):
            cx.viol('loop', 'a loop goes on with a stake booked on one side only (%s)' % pend_name(f), site(cx, f))


class FarmDeposits(Farming):
    id = 'F04'
    rule = ('on every returning path of ft_on_transfer and mft_on_transfer the value returned is 0 and exactly the amount received is booked once: as stake of the named sender '
            'in the seed named by the calling contract (and the pool), no less than the seed\'s minimum; or as reward of a farm whose reward token is the caller, and in the '
            'reward total of that token')
    floors = {'paths': 4, 'returns': 2, 'stakes': 2, 'funds': 1, 'least': 2}

    def select(self, P, crate, name):
        return name in DEPOSITS

    def required(self, crate):
        return DEPOSITS

    def seed_ok(self, cx, key):
        k = strip(key)
        if cx.name == 'ft_on_transfer':
            return k is PRED
        xs = deep(cx.I, k)
        return k is not PRED and any(x is PRED for x in xs) and any(is_arg(x, 'token_id') for x in xs) and not any(
            is_arg(x, 'sender_id') or is_arg(x, 'msg') for x in xs)

    def check(self, cx):
        I = cx.I
        for e, w in errors(I, 'reward-'):
            cx.viol('info', 'the reward total of a token becomes something other than what it was plus an amount', e)
        for a in live(cx):
            facts = cx.facts | a
            ps = pends(a, 'stake', 'total', 'fund', 'info')
            ok = all(p.a[2] == 1 and any(is_arg(x, 'amount') for x in p.a[1]) for p in ps)
            kinds = sorted(p.a[0][0] for p in ps)
            if not ps:
                ok = nothing(facts)
            elif kinds == ['fund', 'info']:
                tok = {p.a[0][0]: p.a[0][-1] for p in ps}
                at = [site(cx, p) for p in ps]
                there = facts.union(*[e.facts for e in at if e is not None])
                ok = ok and strip(tok['info']) is PRED and key_eq(I, there, tok['fund'], PRED) and cx.name == 'ft_on_transfer'
            elif kinds == ['stake', 'total']:
                ok = ok and all(self.seed_ok(cx, p.a[0][1]) for p in ps)
            else:
                ok = False
            cx.ob(ok, 'once', 'exactly the amount received is booked, once (%s)' % '; '.join('%s %s' % (p.a[0][0], pend_name(p)) for p in ps)[:200],
                  site(cx, ps[0]) if ps else None, count='paths')
            cx.count('funds' if 'fund' in kinds else 'stakes' if kinds else 'empty')
        for e, kind, key, form, who in changes(I):
            if kind == 'stake':
                cx.ob(bool(who) and all(is_arg(w, 'sender_id') for w in who), 'who', 'the stake goes to the account that sent the tokens', e)

                def least(fs):
                    for f in fs:
                        if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                            x, y = f.a[0].a[1:3]
                            lo, hi = (x, y) if f.op == 'T' else (y, x)
                            if any(z.op == 'proj' and z.a[1] == 'min_deposit' for z in subterms(lo)) and is_arg(inner(hi), 'amount'):
                                return True
                    return False
                cx.ob(always(I, e.facts if e else cx.facts, e.may if e else cx.alts, least), 'least', 'a stake deposit is at least the seed\'s minimum', e, count='least')
        for e in cx.evs:
            if e.kind == 'call' and (e.name.endswith('value_return') or e.name.endswith('promise_return') or e.name.endswith('as_return')):
                z = False
                if e.name.endswith('value_return'):
                    x = e.args[-1]
                    while x.op in ('proj', 'as') or x.op == 'call' and x.a[1]:
                        x = x.a[0] if x.op != 'call' else x.a[1][0]
                    z = all(zero_value(l) for l in leafset(I, x))
                cx.ob(z, 'value', 'the token contract is told that nothing is to be refunded', e, count='returns')


class FarmWithdrawals(Farming):
    id = 'F05'
    rule = ('on every path a stake or reward goes down only for the caller and only by what is sent, in the same call, to the caller from the contract that stake or reward is in; '
            'the transfer is followed, on every path, by a private callback given the same seed or token, account and amount, which books exactly that back when the promise '
            'failed and nothing when it succeeded')
    floors = {'debits': 3, 'sends': 3, 'callbacks': 3, 'outcomes': 6}

    def required(self, crate):
        return ['withdraw_seed', 'withdraw_reward'] + list(CALLBACKS)

    def token_ok(self, I, facts, kind, key, tok, ids):
        if kind == 'rew':
            return not ids and key_eq(I, facts, tok, key)
        if not ids:
            return key_eq(I, facts, tok, key)
        args = {arg_path(x) for t in (tok,) + tuple(ids) for y in may_be(I, t) for x in deep(I, y)} - {None, ()}
        return bool(args) and all(p[:1] == arg_path(strip(key))[:1] for p in args) if arg_path(strip(key)) else False

    def check(self, cx):
        I = cx.I
        for e, kind, key, form, who in changes(I):
            if any(n < 0 for n in form.values()) or not form:
                cx.ob(len(who) == 1 and who[0] is PRED, 'owner', 'a stake or reward taken out is the caller\'s', e, count='debits')
        if cx.name in CALLBACKS:
            return self.callback(cx)
        for a in live(cx):
            facts = cx.facts | a
            sent = pends(a, 'sent')
            for f in pends(a, 'stake', 'rew'):
                if f.a[2] > 0:
                    if f.a[0][0] == 'rew' or cx.name not in DEPOSITS:
                        cx.viol('credit', 'a %s goes up with nothing received (%s)' % ('stake' if f.a[0][0] == 'stake' else 'reward', pend_name(f)), site(cx, f))
                    continue
                hit = next((g for g in sent if g.a[2] == -f.a[2] and shared(facts, f.a[1], g.a[1]) and strip(g.a[0][3]) is PRED and
                            self.token_ok(I, facts, f.a[0][0], f.a[0][1], g.a[0][1], g.a[0][2])), None)
                if hit is not None:
                    sent.remove(hit)
                cx.ob(hit is not None, 'paid', 'what is taken out of a stake or reward is sent to the caller (%s)' % pend_name(f), site(cx, f), count='paths')
            for g in sent:
                cx.ob(False, 'sent', 'what is sent was taken out of the caller\'s stake or rewards (%s)' % pend_name(g), site(cx, g))
        for e in I.__dict__.get('sends', {}).values():
            self.send(cx, e)

    def send(self, cx, e):
        I = cx.I
        ft = e.name.endswith('ft_transfer') and not e.name.endswith('mft_transfer')
        recv, amt, tok = (e.args[0], e.args[1], e.args[3]) if ft else (e.args[1], e.args[2], e.args[4])
        debits = [(k, key) for (ev, k, key, form, who) in changes(I) if any(n < 0 for n in form.values()) or not form]
        why = 'no callback'
        for t in cx.calls('Promise::then'):
            if t.args[0] is not e.ret:
                continue
            c = cross_call(t.args[1])
            if c is None:
                continue
            acct, name, d, dep = c
            f = e.facts
            kind = CALLBACKS.get(name)
            if acct is not CURRENT or kind is None:
                why = 'the callback is %s' % name
            elif kind == 'stake' and (name.endswith('_mft_seed')) == ft:
                why = 'the callback is for another kind of seed'
            elif not any(k == kind for k, key in debits):
                why = 'the callback books another ledger'
            elif not same_val(I, f, d.get('amount'), amt):
                why = 'the callback is given another amount'
            elif not same_val(I, f, d.get('sender_id'), recv):
                why = 'the callback refunds another account'
            elif not all(same_val(I, f, d.get('token_id' if kind == 'rew' else 'seed_id'), key) for k, key in debits if k == kind):
                why = 'the callback is given another seed or token'
            elif not inevitable(I, (e.ctx, e.bb), (t.ctx, t.bb)):
                why = 'the callback is skipped on some path'
            else:
                why = None
                break
        cx.ob(why is None, 'send', 'a transfer out is followed by the callback that takes it back if it fails' + (': ' + why if why else ''), e, count='sends')

    def callback(self, cx):
        I = cx.I
        kind = CALLBACKS[cx.name]
        cx.count('callbacks')
        for a in live(cx):
            facts = cx.facts | a
            failed = any(f.op == 'V' and f.a[1] == 'Failed' for f in facts)
            ok = any(f.op == 'V' and f.a[1] == 'Successful' for f in facts)
            ps = pends(a, 'stake', 'total', 'rew', 'fund', 'info', 'sent')
            if failed:
                want = ['rew'] if kind == 'rew' else ['stake', 'total']
                good = sorted(p.a[0][0] for p in ps) == want and all(
                    p.a[2] == 1 and any(is_arg(x, 'amount') for x in p.a[1]) and is_arg(p.a[0][1], 'token_id' if kind == 'rew' else 'seed_id') for p in ps)
                cx.ob(good or not ps and nothing(facts), 'refund', 'when the transfer failed exactly the amount is booked back', count='outcomes')
            elif ok:
                cx.ob(not ps, 'norefund', 'when the transfer succeeded nothing is booked', count='outcomes')
            else:
                cx.ob(False, 'outcome', 'every path knows whether the transfer failed')
        for e, k, key, form, who in changes(I):
            if k == kind and any(is_arg(x, 'amount') for x in form):
                cx.ob(bool(who) and all(is_arg(w, 'sender_id') for w in who), 'refund-who', 'what is booked back goes to the account that was withdrawing', e)


TOTAL = {'amount_of_reward': 1, 'undistributed': -1, 'unclaimed': -1, 'amount_of_claimed': -1}


class FarmFunds(Farming):
    id = 'F06'
    rule = ('whenever a farm is stored, on every path its received reward moved exactly as much as undistributed + unclaimed + claimed; what a farm counts as claimed and '
            'not for the beneficiary is booked, in the farm\'s reward token, to the rewards of the farmer being settled before the call returns or the loop goes on')
    floors = {'farm saves': 8, 'reward writes': 6, 'entries': 18}

    def required(self, crate):
        return ['claim_reward_by_farm', 'claim_reward_by_seed', 'ft_on_transfer', 'withdraw_seed', 'force_clean_farm']

    def check(self, cx):
        I = cx.I
        cx.count('entries')
        for e, w in errors(I, 'rewards-', 'farm-'):
            cx.viol('write', 'a reward or an amount of a farm becomes something other than what it was plus or minus an amount', e)
        for e, evs in I.__dict__.get('farm_saves', {}).values():
            bad = None
            for v, f, tok, ch, base in evs:
                d = {}
                for k, n in TOTAL.items():
                    for x, c in ch[k].items():
                        d[x] = d.get(x, 0) + n * c
                d = {x: c for x, c in d.items() if c and not ledger.zero(f, x)}
                if d:
                    bad = ' '.join('%+d x %s' % (c, show(x, 4)[:60]) for x, c in d.items())
            cx.ob(bad is None, 'balance', 'the farm stored accounts for all the reward it received' + (' (off by %s)' % bad if bad else ''), e, count='farm saves')
        for e, kind, key, form, who in changes(I):
            if kind == 'rew':
                cx.ob(len(who) == 1, 'who', 'the reward written belongs to one farmer', e, count='reward writes')
        out = {'fund'} if cx.name in DEPOSITS else set()
        for a in live(cx):
            facts = cx.facts | a
            rew, sent = pends(a, 'rew'), pends(a, 'sent')
            if cx.name in CALLBACKS:
                rew = [p for p in rew if not (p.a[2] == 1 and any(is_arg(x, 'amount') for x in p.a[1]))]
            for f in rew:
                if f.a[2] < 0 and any(shared(facts, f.a[1], g.a[1]) for g in sent):
                    continue
                cx.ob(False, 'credit', 'a reward is %s (%s)' % ('credited that no farm counts as claimed' if f.a[2] > 0 else 'counted as claimed by a farm but credited to nobody', pend_name(f)), site(cx, f))
            for f in pends(a, 'fund', 'info'):
                cx.ob(cx.name in DEPOSITS, 'fund', 'reward funds change only with a deposit (%s)' % pend_name(f), site(cx, f))
        for f in left(cx, 'rew', 'fund', 'info'):
            cx.viol('loop', 'a loop goes on with a reward booked on one side only (%s)' % pend_name(f), site(cx, f))


class FarmUpdates(Farming):
    id = 'U02'
    rule = ('typestate over every path: a farmer, seed or farm record that was loaded and changed is written back (or removed) under the key it was loaded with before the call '
            'returns or the loop goes on to another record; what is written under a key was loaded under that key, with no other write for that key in between')
    floors = {'returns': 18, 'saves': 30, 'rooted': 30}
    NAMES = {'farmer': 'farmer', 'seed': 'seed', 'farm': 'farm'}

    def required(self, crate):
        return ['claim_reward_by_farm', 'claim_reward_by_seed', 'ft_on_transfer', 'mft_on_transfer', 'withdraw_seed', 'withdraw_reward', 'create_simple_farm', 'force_clean_farm']

    def check(self, cx):
        I = cx.I
        lost = {f for a in live(cx) for f in a if f.op == 'dirty' and f.a[0] in self.NAMES}
        cx.count('returns')
        for f in lost:
            cx.viol('lost:' + f.a[0], 'a changed %s is not written back (key %s)' % (f.a[0], show(f.a[1], 5)[:120]))
        for k, d in I.dropped.items():
            for f in d:
                if f.op == 'dirty' and f.a[0] in self.NAMES and not any(f.a[0] == g.a[0] for g in lost):
                    cx.viol('lost:loop:' + f.a[0], 'a changed %s is not written back before the loop goes on (key %s)' % (f.a[0], show(f.a[1], 5)[:120]))
        for (e, kind, key, rs, stale, other) in sorted(I.__dict__.get('saves', {}).values(), key=lambda x: x[0].seq):
            if rs:
                cx.count('rooted')
            cx.ob(not other, 'other', 'the %s written was loaded under the same key' % kind, e, count='saves')
            cx.ob(not stale, 'stale', 'the %s written was loaded after the last write for its key' % kind, e, count='saves')


# ---------------------------------------------------------------- settling before a stake changes
def through(I, facts, pred, depth=4, seen=frozenset()):
    """pred holds of the facts, or of every feasible way into some join they speak of"""
    if pred(facts):
        return True
    if depth == 0:
        return False
    ps = {x for f in facts for y in f.a if isinstance(y, T) for x in subterms(y) if x.op == 'phi' and x in I.phi_info} - seen
    done = set()
    for p in sorted(ps, key=lambda x: -x.id):
        info = I.phi_info[p]
        if p.a[:2] in done or any(b for (_, _, b) in info.values()):
            continue
        done.add(p.a[:2])
        same = [q for q in ps if one_join(I, p, q)]
        ok = True
        for k, (o, pf, b) in info.items():
            m = {q: I.phi_info[q][k][0] for q in same}
            there = pf | {mk(f.op, subst(f.a[0], m), *f.a[1:]) for f in facts if f.op in ('T', 'F', 'V', 'NV') and phis(f.a[0]) & {q.id for q in same}}
            if clash(facts, pf) or clash(there, there) or any(f.op == 'V' and I.variant_of(f.a[0]) not in (None, f.a[1]) for f in there):
                continue
            if not through(I, there | pf, pred, depth - 1, seen | set(same)):
                ok = False
                break
        if ok:
            return True
    return False


def user_rps(e):
    return e.kind == 'call' and e.name.startswith('LookupMap::') and e.locs and e.locs[0] is not None and books.last(e.locs[0]) == 'user_rps'


def farms_of(I, t, seed):
    """t walks over the farms listed in the seed's record"""
    for x in deep(I, t):
        if x.op == 'proj' and x.a[1] == 'farms' and x.a[0] is not FDATA:
            if any(k == 'seed' and key_eq(I, frozenset(), g.a[1][1], seed) for k, g in books.roots(I, x)):
                return True
    return False


def settles(I, seed, who):
    """test: the facts say a loop over the seed's farms is through, in which each farm was settled with the farmer"""
    def pred(facts):
        for f in facts:
            if f.op == 'V' and f.a[1] == 'None' and f.a[0].op == 'call' and f.a[0].a[0].endswith('::next') and f.a[0].a[1][0].op == 'phi':
                p = f.a[0].a[1][0]
                info = I.phi_info.get(p) or {}
                if not any(b for (_, _, b) in info.values()):
                    continue
                if not all(b or farms_of(I, o, seed) for (o, pf, b) in info.values()):
                    continue
                elem = mk('proj', mk('as', f.a[0], 'Some'), 0)
                if all(settled(I, pf, who, elem) for (o, pf, b) in info.values() if b):
                    return True
        return False
    return pred


def settled(I, facts, who, elem):
    """one round: the farm's accrual is recorded for the farmer and the farm is stored"""
    rps = farm = False
    for f in facts:
        if f.op != 'E':
            continue
        if f.a[0] == 'LookupMap::insert' and any(x.op == 'proj' and x.a[1] == 'user_rps' for x in deep(I, f.a[1][0])):
            ks = {g.a[1][1] for k, g in books.roots(I, f.a[1][0]) if k == 'farmer'}
            rps = rps or bool(ks) and all(key_eq(I, facts, k, w) for k in ks for w in who)
        if f.a[0] == 'UnorderedMap::insert' and 'farm' in books.coll_kind(I, f.a[1][0]) and strip(f.a[1][1]) is strip(elem):
            farm = True
    return rps and farm


def factors(t):
    """product terms, through the big-integer calls"""
    t = inner(t)
    if t.op == 'bin' and t.a[0] == 'Mul':
        return factors(t.a[1]) + factors(t.a[2])
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('mul', 'checked_mul') and len(t.a[1]) == 2:
        return factors(t.a[1][0]) + factors(t.a[1][1])
    if t.op == 'proj' and t.a[1] == 0 and t.a[0].op == 'as' and t.a[0].a[1] == 'Some':
        return factors(t.a[0].a[0])
    return [t]


def quotient(t):
    """(numerator factors, divisor) of a rounded-down quotient"""
    t = inner(t)
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] == 'as_u128':
        t = inner(t.a[1][0])
    if t.op == 'bin' and t.a[0] == 'Div':
        return factors(t.a[1]), inner(t.a[2])
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('div', 'checked_div') and len(t.a[1]) == 2:
        return factors(t.a[1][0]), inner(t.a[1][1])
    return None


def sides(t, *ops):
    t = inner(t)
    if t.op == 'bin' and t.a[0] in ops:
        return inner(t.a[1]), inner(t.a[2])
    if t.op == 'call' and t.a[0].rsplit('::', 1)[-1].replace('checked_', '') in [o.lower() for o in ops] and len(t.a[1]) == 2:
        return inner(t.a[1][0]), inner(t.a[1][1])
    return None


def le_of(t):
    return inner(t.a[1][0]) if t.op == 'call' and t.a[0].endswith('from_little_endian') else None


DENOM = 10 ** 24


class Settled(Farming):
    id = 'F07'
    rule = ('on every path a farmer\'s stake in a seed is written only after a loop over all farms of that seed in which the farmer\'s reward-per-seed marker was set to the farm\'s '
            'and the farm stored; the reward credited there is stake x (farm\'s reward per seed - the farmer\'s marker) / DENOM, rounded down, with the new marker the same reward per '
            'seed; a farm\'s reward per seed grows by what leaves undistributed x DENOM / the seed\'s total, rounded down; a marker is dropped only when the farm is no longer in the '
            'seed or the stake is zero')
    floors = {'stake writes': 5, 'markers': 4, 'rewards': 4, 'accruals': 40, 'drops': 2}

    def required(self, crate):
        return ['ft_on_transfer', 'mft_on_transfer', 'withdraw_seed', 'callback_post_withdraw_ft_seed', 'callback_post_withdraw_mft_seed', 'claim_reward_by_farm', 'claim_reward_by_seed',
                'remove_user_rps_by_farm']

    def check(self, cx):
        I = cx.I
        for e, kind, key, form, who in changes(I):
            if kind != 'stake':
                continue
            f = e.facts if e is not None else cx.facts
            cx.ob(through(I, f, settles(I, key, who)), 'settle', 'every farm of the seed is settled with the farmer before the stake changes', e, count='stake writes')
        saves = [(e, ev) for e, ev in I.__dict__.get('farm_saves', {}).values() if 'farm' in books.coll_kind(I, e.args[0])]
        marks = []
        for e in cx.evs:
            if not user_rps(e):
                continue
            if e.name.endswith('::insert'):
                v = strip(e.args[2])
                marks.append((e, v))
                mine = {x for x, f in resolve(I, frozenset(), v, 20)}
                same = [s for s, ev in saves if {x for (vv, f, tok, ch, base) in ev for x, g in resolve(I, frozenset(), self.rps(I, vv), 20)} == mine]
                cx.ob(bool(same), 'marker', 'the marker becomes the reward per seed of the farm that is stored', e, count='markers')
            elif e.name.rsplit('::', 1)[-1] == 'remove':
                cx.ob(self.drop_ok(cx, e), 'drop', 'a marker is dropped only when the farm left the seed or the stake is zero', e, count='drops')
        for e, kind, key, form, who in changes(I):
            if kind == 'rew' and cx.name not in CALLBACKS and any(n > 0 for n in form.values()):
                ok = len(form) == 1 and list(form.values()) == [1] and self.reward(cx, next(iter(form)), who, marks)
                cx.ob(ok, 'reward', 'the reward credited is stake x (new marker - old marker) / DENOM', e, count='rewards')
        for e, ev in I.__dict__.get('farm_saves', {}).values():
            for v, f, tok, ch, base in ev:
                if base is not None:
                    cx.ob(self.accrual(cx, v, f, ch, base), 'accrual', 'the reward per seed grows by the reward distributed x DENOM / the seed total', e, count='accruals')

    def rps(self, I, v):
        return I.project(v, ('SimpleFarm', 0, 'last_distribution', 'rps'))

    def reward(self, cx, t, who, marks):
        I = cx.I
        q = quotient(t)
        if q is None or not (is_c(q[1]) and cval(q[1]) == DENOM) or len(q[0]) != 2:
            return False
        for stake, diff in (q[0], q[0][::-1]):
            d = sides(diff, 'Sub')
            if d is None:
                continue
            new, old = le_of(d[0]), le_of(d[1])
            if new is None or old is None or not any(new is v or {x for x, f in resolve(I, frozenset(), new, 20)} == {x for x, f in resolve(I, frozenset(), v, 20)} for e, v in marks):
                continue
            o = [x for x in deep(I, old) if x.op == 'call' and x.a[0] == 'LookupMap::get' and any(y.op == 'proj' and y.a[1] == 'user_rps' for y in deep(I, x.a[1][0]))]
            s = [x for x in deep(I, stake) if x.op == 'call' and x.a[0] == 'HashMap::get' and any(y.op == 'proj' and y.a[1] == 'seeds' for y in deep(I, x.a[1][0]))]
            if not o or not s:
                continue
            good = all(any(strip(x.a[1][1]) is strip(e.args[1]) for e, v in marks) for x in o)
            for x in o + s:
                ks = {g.a[1][1] for k, g in books.roots(I, x.a[1][0]) if k == 'farmer'}
                good = good and bool(ks) and all(key_eq(I, frozenset(), k, w) for k in ks for w in who)
            if good:
                return True
        return False

    def accrual(self, cx, v, facts, ch, base):
        I = cx.I
        r, old = self.rps(I, v), I.project(base, ('SimpleFarm', 0, 'last_distribution', 'rps'))
        out = {x: -n for x, n in ch['undistributed'].items()}
        if r is old:
            return not {x: n for x, n in out.items() if n > 0 and not ledger.zero(facts, x)}
        if r.op != 'after' or not r.a[0].endswith('to_little_endian'):
            return False
        x = inner(r.a[2][0])
        if is_c(x):
            # nobody staked: what was not claimed goes to the beneficiary
            return cval(x) == 0 and any(f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] in ('Eq', 'Le') and any(self.total(I, y) for y in f.a[0].a[1:3]) and
                                        any(ledger.zero_const(y) for y in f.a[0].a[1 if f.a[0].a[0] == 'Eq' else 2:3]) for f in facts)
        s = sides(x, 'Add')
        if s is None:
            return False
        for a, b in (s, s[::-1]):
            if le_of(a) is not old:
                continue
            q = quotient(b)
            if q is None or len(q[0]) != 2 or not self.total(I, q[1]):
                continue
            for amt, den in (q[0], q[0][::-1]):
                if is_c(den) and cval(den) == DENOM and (len(out) == 1 and list(out.values()) == [1] and next(iter(out)) in leafset(I, amt) | may_be(I, amt) or
                                                         all(ledger.zero(facts, y) for y in out)):
                    return True
        return False

    def total(self, I, t):
        """the amount staked in a seed, as loaded"""
        return any(x.op == 'proj' and x.a[1] == 'amount' and any(k == 'seed' for k, g in books.roots(I, x)) for x in leafset(I, t))

    def drop_ok(self, cx, e):
        I = cx.I
        who = {g.a[1][1] for k, g in books.roots(I, e.args[0]) if k == 'farmer'}
        stakes = [x for x in changes(I) if x[1] == 'stake']

        def pred(fs):
            for f in fs:
                if f.op == 'F' and f.a[0].op == 'call' and f.a[0].a[0].endswith('HashSet::contains') and strip(f.a[0].a[1][1]) is strip(e.args[1]) and any(
                        x.op == 'proj' and x.a[1] == 'farms' for x in deep(I, f.a[0].a[1][0])):
                    return True
                if f.op == 'V' and f.a[1] == 'None' and f.a[0].op == 'call' and f.a[0].a[0] == 'HashMap::get' and any(
                        x.op == 'proj' and x.a[1] == 'seeds' for x in deep(I, f.a[0].a[1][0])):
                    return True
                if f.op == 'E' and f.a[0] == 'HashMap::remove' and any(s[0] is not None and s[0].name == 'HashMap::remove' and f.a[1][0] is s[0].args[0] and f.a[1][1] is s[0].args[1] for s in stakes):
                    return True
                if f.op == 'T' and f.a[0].op == 'bin' and f.a[0].a[0] in ('Eq', 'Le') or f.op == 'F' and f.a[0].op == 'bin' and f.a[0].a[0] == 'Lt':
                    a, b = f.a[0].a[1:3]
                    if any(ledger.zero_const(x) for x in (a, b)) and any(
                            y.op == 'call' and y.a[0].startswith('HashMap::') and any(z.op == 'proj' and z.a[1] == 'seeds' for z in subterms(y)) for x in (a, b) for y in deep(I, x)):
                        return True
            return False
        return always(I, e.facts, e.may, pred) or through(I, e.facts, pred)


# ---------------------------------------------------------------- life of a farm
NEXT = {'Running': {'Created'}, 'Ended': {'Running'}, 'Cleared': {'Running', 'Ended'}}
TERMS = ('seed_id', 'reward_token', 'reward_per_session', 'session_interval')


def farm_set(e):
    """a change of the farms a seed lists"""
    return e.kind == 'call' and e.name.startswith('HashSet::') and e.locs and e.locs[0] is not None and books.last(e.locs[0]) == 'farms' and \
        e.name.rsplit('::', 1)[-1] in ('insert', 'remove', 'clear', 'take', 'replace', 'retain', 'drain', 'extend')


def with_each(I, a, b):
    """whenever a returning path goes through one of the two points it goes through the other"""
    pa, pb = (a.ctx, a.bb), (b.ctx, b.bb)
    return inevitable(I, pa, pb) and (a.seq < b.seq) or inevitable(I, pb, pa) and (b.seq < a.seq)


class FarmLife(Farming):
    id = 'F08'
    rule = ('a farm stored was only moved Created -> Running (by its first reward), Running -> Ended (nothing left undistributed) or to Cleared (from Ended or Running); its terms stay, '
            'except a start of 0 set to now by the first reward; reward is added only to a farm that is Created or Running with something left; a farm is taken out of the farms only '
            'when Ended or out of undistributed reward, and kept, under its id, in the outdated farms; a seed lists a farm exactly while the farm exists, and a new farm starts '
            'Created and empty under a fresh index')
    floors = {'saves': 8, 'states': 40, 'new': 1, 'removed': 1, 'listed': 2, 'funds': 1}

    def required(self, crate):
        return ['create_simple_farm', 'force_clean_farm', 'ft_on_transfer', 'claim_reward_by_farm']

    def check(self, cx):
        I = cx.I
        for e, ev in sorted(I.__dict__.get('farm_saves', {}).values(), key=lambda x: x[0].seq):
            cx.count('saves')
            kinds = books.coll_kind(I, e.args[0])
            for v, f, tok, ch, base in ev:
                new = I.project(v, ('SimpleFarm', 0, 'status'))
                if base is None:
                    cx.ob(new.op == 'ctor' and I.variant_of(new) == 'Created' and not any(ch.values()) and 'farm' in kinds, 'new', 'a new farm starts Created with no reward', e, count='new')
                    continue
                old = I.project(base, ('SimpleFarm', 0, 'status'))
                cx.ob(self.state_ok(I, v, new, old, f), 'state', 'the state of a farm only moves forward (%s)' % (I.variant_of(new) or 'kept'), e, count='states')
                for t in TERMS:
                    cx.ob(I.project(v, ('SimpleFarm', 0, 'terms', t)) is I.project(base, ('SimpleFarm', 0, 'terms', t)), 'terms', 'the terms of a farm stay (%s)' % t, e, count='terms')
                a, b = (I.project(x, ('SimpleFarm', 0, 'terms', 'start_at')) for x in (v, base))
                ok = a is b or mk('T', eq(b, C(0))) in f and mk('V', old, 'Created') in f and any(x.op == 'call' and x.a[0] == 'env::block_timestamp' for x in subterms(a))
                cx.ob(ok, 'start', 'the start of a farm stays, or is set to now by the first reward', e, count='terms')
                if any(not ledger.zero(f, x) for x in ch['amount_of_reward']):
                    cx.ob(mk('V', old, 'Created') in f or mk('V', old, 'Running') in f and all(self.unfinished(I, f | a, e) for a in e.may if not contradicts(f, a) and not clash(f, a)), 'fund',
                          'reward is added only to a farm that is Created, or Running with something left to distribute', e, count='funds')
        self.lists(cx)

    def state_ok(self, I, v, new, old, f):
        if new is old:
            return True
        x = I.variant_of(new)
        if x not in NEXT or not any(mk('V', old, y) in f for y in NEXT[x]):
            # a farm that was seen to be over need not be looked at again
            return x == 'Cleared' and (mk('NV', old, 'Created') in f and mk('NV', old, 'Cleared') in f)
        if x == 'Ended' or x == 'Cleared' and mk('V', old, 'Running') in f:
            u = I.project(v, ('SimpleFarm', 0, 'last_distribution', 'undistributed'))
            return any(ledger.zero(f, y) for y in {u} | may_be(I, u)) or any(
                g.op == 'T' and g.a[0].op == 'bin' and g.a[0].a[0] in ('Eq', 'Le') and any(ledger.zero_const(y) for y in g.a[0].a[1 if g.a[0].a[0] == 'Eq' else 2:3]) and
                any(z.op == 'proj' and z.a[1] == 'undistributed' for y in g.a[0].a[1:3] for z in deep(I, y)) for g in f) or x == 'Cleared' and self.over(I, f)
        return True

    def unfinished(self, I, f, e):
        def pred(fs):
            for g in fs:
                if g.op == 'F' and g.a[0].op == 'bin' and g.a[0].a[0] in ('Eq', 'Le') or g.op == 'T' and g.a[0].op == 'bin' and g.a[0].a[0] == 'Lt':
                    z0 = (1, 3) if g.a[0].a[0] == 'Eq' else (2, 3) if g.a[0].a[0] == 'Le' else (1, 2)
                    if any(ledger.zero_const(y) for y in g.a[0].a[z0[0]:z0[1]]) and any(z.op == 'proj' and z.a[1] == 'undistributed' for y in g.a[0].a[1:3] for z in deep(I, y)):
                        return True
                if g.op == 'V' and g.a[1] == 'None' and any(z.op == 'ctor' and any(w.op == 'proj' and w.a[1] == 'last_distribution' for w in subterms(z)) for z in may_be(I, g.a[0])):
                    return True
                if g.op == 'T' and g.a[0].op == 'bin' and g.a[0].a[0] == 'Lt' and g.a[0].a[1].op == 'call' and g.a[0].a[1].a[0] == 'env::block_timestamp':
                    return True
            return False
        return entails(I, f, pred, 5) or through(I, f, pred)

    def over(self, I, facts):
        """the farm has ended, or has nothing left to distribute"""
        def pred(fs):
            run = False
            for g in fs:
                if g.op == 'V' and g.a[1] == 'Ended' and g.a[0].op == 'proj' and g.a[0].a[1] == 'status':
                    return True
                if g.op == 'V' and g.a[1] == 'Running' and g.a[0].op == 'proj' and g.a[0].a[1] == 'status':
                    run = True
            return run and any(g.op == 'T' and g.a[0].op == 'bin' and g.a[0].a[0] in ('Eq', 'Le') and any(ledger.zero_const(y) for y in g.a[0].a[1 if g.a[0].a[0] == 'Eq' else 2:3]) and
                               any(z.op == 'proj' and z.a[1] == 'undistributed' for y in g.a[0].a[1:3] for z in deep(I, y)) for g in fs)
        return entails(I, facts, pred, 6) or through(I, facts, pred, 6)

    def lists(self, cx):
        I = cx.I
        news = [e for e, ev in I.__dict__.get('farm_saves', {}).values() if 'farm' in books.coll_kind(I, e.args[0]) and any(b is None for (v, f, t, c, b) in ev)]
        gone = [e for e in cx.evs if e.kind == 'call' and e.name.startswith('UnorderedMap::') and e.args and 'farm' in books.coll_kind(I, e.args[0]) and
                e.name.rsplit('::', 1)[-1] in ('remove', 'clear', 'drain')]
        sets = [e for e in cx.evs if farm_set(e)]
        for e in sets:
            op = e.name.rsplit('::', 1)[-1]
            mate = news if op == 'insert' else gone if op == 'remove' else []
            cx.ob(any(strip(m.args[1]) is strip(e.args[1]) and with_each(I, e, m) for m in mate), 'list', 'the farms a seed lists change with the farms', e, count='listed')
        for e in news:
            cx.ob(any(s.name.endswith('::insert') and strip(s.args[1]) is strip(e.args[1]) and with_each(I, e, s) for s in sets), 'listed', 'a new farm is listed by its seed', e)
            k = {x for x in deep(I, e.args[1]) if x.op == 'proj' and x.a[1] == 'next_index'}
            cx.ob(bool(k) and self.bumped(cx, k), 'index', 'a new farm gets the next index of its seed, which is then used up', e)
        for e in gone:
            ok = e.name.endswith('::remove')
            cx.ob(ok and self.over(I, e.facts), 'over', 'a farm is taken out only when it has ended or has nothing left to distribute', e, count='removed')
            cx.ob(ok and any(s.name.endswith('::remove') and strip(s.args[1]) is strip(e.args[1]) and with_each(I, e, s) for s in sets), 'unlisted', 'a farm taken out is no longer listed by its seed', e)
            kept = [o for o, ev in I.__dict__.get('farm_saves', {}).values() if 'old' in books.coll_kind(I, o.args[0])]
            cx.ob(ok and any(strip(o.args[1]) is strip(e.args[1]) and inevitable(I, (e.ctx, e.bb), (o.ctx, o.bb)) and
                             any(x.op == 'call' and x is e.ret or x.op == 'call' and x.a[0] == 'UnorderedMap::get' and x.a[1] == e.args[:2] for x in deep(I, o.args[2])) for o in kept),
                  'kept', 'a farm taken out is kept among the outdated farms', e)
        for e in cx.evs:
            if e.kind == 'call' and e.name.startswith('UnorderedMap::') and e.args and 'old' in books.coll_kind(I, e.args[0]):
                cx.ob(e.name.rsplit('::', 1)[-1] not in ('remove', 'clear', 'drain'), 'old', 'outdated farms stay', e)

    def bumped(self, cx, ks):
        I = cx.I
        for e in events(I):
            if e.extra[0] != 'total':
                continue
            n = I.project(e.args[2], ('V101', 0, 'next_index'))
            d = lin(n)
            if any(d == {k: 1, ledger.ONE: 1} for k in ks):
                return True
        return False


# ---------------------------------------------------------------- NEAR left for storage
GROW = ('ft_on_transfer', 'mft_on_transfer', 'claim_reward_by_farm', 'claim_reward_by_seed')


def ways(I, t):
    return {x for x, f in resolve(I, frozenset(), t, 12)}


def usage(I, t):
    """storage a farmer takes up, 0 for nobody"""
    def one(t):
        xs = set(subterms(t))
        return any(x.op == 'call' and x.a[0] == 'env::storage_byte_cost' for x in xs) and all(any(
            x.op == 'proj' and x.a[1] == f for x in deep(I, t)) for f in ('seeds', 'rewards', 'rps_count'))
    ws = ways(I, t)
    return any(map(one, ws)) and all(one(w) or ledger.zero_const(w) for w in ws)


def held(I, t):
    """the NEAR a farmer left, 0 for nobody"""
    def one(t):
        return t.op == 'proj' and t.a[1] == 'amount' and any(k == 'farmer' for k, g in books.roots(I, t))
    ws = ways(I, t)
    return any(map(one, ws)) and all(one(w) or ledger.zero_const(w) for w in ws)


def one_deposit(I, x, y):
    """both are what the record of one farmer holds"""
    if x is y:
        return True
    ks = [{strip(g.a[1][1]) for w in ways(I, t) if w.op == 'proj' and w.a[1] == 'amount' for k, g in books.roots(I, w) if k == 'farmer'} for t in (x, y)]
    return len(ks[0]) == 1 and ks[0] == ks[1]


class FarmStorage(Farming):
    id = 'F09'
    rule = ('double-entry over every path: what a farmer record holds in NEAR changes only by storage_deposit (by the attached NEAR less what is sent back to the caller), by '
            'storage_withdraw and by storage_unregister (by exactly what is sent, in the same call, to the caller whose record it is); a withdrawal leaves at least the storage in '
            'use covered; a record is removed only when it lists no seeds and no rewards; stake deposits and reward claims end with the storage in use covered')
    floors = {'deposits': 3, 'paid out': 2, 'removals': 1, 'covered': 4, 'kept': 1}

    def required(self, crate):
        return ['storage_deposit', 'storage_withdraw', 'storage_unregister'] + list(GROW)

    def check(self, cx):
        I = cx.I
        for e, w in errors(I, 'deposit-'):
            cx.viol('write', 'the NEAR a farmer left becomes something other than what it was plus or minus an amount', e)
        for f in left(cx, 'dep', 'near'):
            cx.viol('loop', 'a loop goes on with NEAR booked on one side only (%s)' % pend_name(f), site(cx, f))
        for a in live(cx):
            facts = cx.facts | a
            ps = pends(a, 'dep', 'near')
            tot = self.sum(facts, ps)
            if cx.name == 'storage_deposit':
                tot = sub_lin(tot, {DEPOSIT: 1})
                cx.ob(self.zero(I, facts, tot), 'deposit', 'all the NEAR attached is kept for the account or sent back (%s)' % '; '.join(map(pend_name, ps))[:200], site(cx, ps[0]) if ps else None, count='deposits')
            elif ps and all(p.a[0][0] == 'near' for p in ps) and tot.get(DEPOSIT) == 1 and all(n < 0 for x, n in tot.items() if x is not DEPOSIT):
                # what is left of the NEAR attached
                cx.count('refunds')
            else:
                cx.ob(self.zero(I, facts, tot), 'paid', 'what leaves a farmer\'s NEAR is sent out, and the other way round (%s)' % '; '.join(map(pend_name, ps))[:200],
                      site(cx, ps[0]) if ps else None, count='paid out' if ps else 'paths')
            for p in ps:
                if p.a[0][0] == 'near':
                    cx.ob(strip(p.a[0][1]) is PRED, 'to', 'NEAR is sent to the caller only', site(cx, p))
        for e, key, d in I.__dict__.get('dep_events', {}).values():
            if any(n < 0 for n in d.values()) and cx.name != 'storage_deposit':
                cx.ob(strip(key) is PRED, 'owner', 'only the caller\'s NEAR is taken', e)
            if e.name == 'LookupMap::remove':
                for fld in ('rewards', 'seeds'):
                    cx.ob(entails(I, e.facts, lambda fs: any(emptied(I, f, fld, 'farmer', key) for f in fs)), 'empty', 'a farmer is removed only with no %s' % fld, e, count='removals')
            elif any(n < 0 for n in d.values()):
                cx.ob(always(I, e.facts, e.may, lambda fs: self.covers(I, fs, d)), 'kept', 'what is left after a withdrawal covers the storage in use', e, count='kept')
        if cx.name in GROW:
            n = 0
            for a in live(cx):
                if cx.name in DEPOSITS and not pends(a, 'stake'):
                    continue
                n += 1
                cx.ob(self.enough(I, cx.facts | a), 'covered', 'the call ends with the storage in use covered', count='covered')

    def sum(self, facts, ps):
        out = {}
        for p in ps:
            x = p.a[1][0]
            out[x] = out.get(x, 0) + p.a[2]
        return {x: n for x, n in out.items() if n}

    def zero(self, I, facts, d):
        d = {x: n for x, n in d.items() if n and not ledger.zero(facts, x)}
        if not d:
            return True
        pos, neg = [x for x in d if d[x] > 0], [x for x in d if d[x] < 0]
        if len(pos) == 1 and len(neg) == 1 and d[pos[0]] == -d[neg[0]]:
            return pos[0] in ledger.same_amount(facts, neg[0]) or neg[0] in ledger.same_amount(facts, pos[0]) or one_deposit(I, pos[0], neg[0])
        return False

    def covers(self, I, fs, d):
        """some comparison says: what is held - what is taken >= the storage in use"""
        for f in fs:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                x, y = f.a[0].a[1:3]
                lo, hi = (x, y) if f.op == 'T' else (y, x)
                g = sub_lin(lin(hi), lin(lo))
                took = [z for z, n in d.items() if n < 0]
                rest = {z: n for z, n in g.items() if z not in took}
                if all(any(z is q or z in may_be(I, q) or q in may_be(I, z) for z in g if g[z] < 0) for q in took) and any(usage(I, z) for z in rest if rest[z] < 0) and \
                        any(held(I, z) and n == 1 for z, n in rest.items()) and not any(n > 0 and not held(I, z) for z, n in rest.items()):
                    return True
        return False

    def enough(self, I, fs):
        for f in fs:
            if f.op in ('T', 'F') and f.a[0].op == 'bin' and f.a[0].a[0] in ('Le', 'Lt'):
                x, y = f.a[0].a[1:3]
                lo, hi = (x, y) if f.op == 'T' else (y, x)
                if usage(I, lo) and not usage(I, hi) and held(I, hi):
                    return True
        return False

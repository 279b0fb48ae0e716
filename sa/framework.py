"""Run rules over every exported entry point of the contracts and report."""
import json
import multiprocessing
import os
import sys
import time
import traceback

import build
import interp
import model
from query import *  # noqa

VERIF = build.VERIF
HEAVY = ['ft_on_transfer', 'execute_actions_in_va', 'execute_actions', 'swap_by_output', 'swap', 'on_burrow_liquidation', 'batch_predict_swap_actions',
         'predict_swap_actions', 'predict_hot_zap', 'donation_share', 'remove_liquidity_by_tokens', 'add_stable_liquidity', 'get_pools']


class Cx:
    """One entry point under one rule."""

    def __init__(self, P, crate, name, I, res):
        self.P, self.crate, self.name, self.I, self.res = P, crate, name, I, res
        self.out = {'viol': [], 'n': 0, 'counts': {}, 'samples': []}
        self.evs = sorted(I.events.values(), key=lambda e: e.seq) if I else []
        self._by = None

    @property
    def facts(self):
        return self.res[0].facts if self.res else frozenset()

    @property
    def alts(self):
        return self.res[0].may if self.res else frozenset()

    def always(self, pred, extra=frozenset(), e=None):
        """pred holds whenever the entry returns (or already at event e), given extra"""
        if e is not None and always(self.I, e.facts | extra, e.may, pred):
            return True
        return always(self.I, self.facts | extra, self.alts, pred)

    def calls(self, *names):
        if self._by is None:
            self._by = {}
            for e in self.evs:
                if e.kind == 'call':
                    self._by.setdefault(e.name, []).append(e)
        if len(names) == 1:
            return self._by.get(names[0], [])
        return [e for n in names for e in self._by.get(n, [])]

    def where(self, e):
        if e is None:
            return None
        span = e.span
        i = span.find('/src/')
        # spans of the scratch copy: make them relative to the repository
        for c in ('ref-exchange/', 'ref-farming/'):
            k = span.find(c)
            if k >= 0:
                span = span[k:]
                break
        tr = self.I.trace(e.ctx)
        return {'at': span, 'fn': interp.fn_label(e.fn), 'path': [t[0] for t in tr]}

    def viol(self, key, msg, e=None):
        """key: stable, without line numbers"""
        v = {'key': '%s:%s:%s' % (self.crate, self.name, key), 'entry': self.name, 'crate': self.crate, 'msg': msg}
        w = self.where(e)
        if w:
            v.update(w)
        self.out['viol'].append(v)

    def ob(self, ok, key, msg, e=None, count='obligations'):
        """One obligation."""
        self.out['n'] += 1
        self.count(count)
        if not ok:
            self.viol(key, msg, e)
        elif len(self.out['samples']) < 3:
            w = self.where(e)
            self.out['samples'].append({'entry': self.name, 'rule': key, 'holds': msg_ok(msg), 'at': (w or {}).get('at'), 'fn': (w or {}).get('fn')})
        return ok

    def count(self, k, n=1):
        self.out['counts'][k] = self.out['counts'].get(k, 0) + n


def msg_ok(m):
    return m if len(m) < 200 else m[:200]


class Rule:
    id = None
    crates = ('exchange',)
    statement = ''
    floors = {}          # count name -> least number seen on the confirmed tree

    def select(self, P, crate, name):
        return True

    def required(self, crate):
        """entry points that must exist"""
        return ()

    def check(self, cx):
        raise NotImplementedError

    def program(self, P, crate, out):
        """whole-program obligations; out is a Cx without an entry"""

    def final(self, agg):
        pass


_W = {}


def _work(job):
    crate, name = job
    P, rules, cfgmk = _W['P'][crate], _W['rules'], _W['cfg']
    t = time.time()
    outs = {}
    sel = [r for r in rules if crate in r.crates and r.select(P, crate, name)]
    if not sel:
        return crate, name, {}, 0, 0, None
    try:
        I, res = interp.run_entry(P, _W['exports'][crate][name], cfgmk(P, crate, name))
    except Exception:
        return crate, name, {}, 0, 0, 'analysis of %s failed: %s' % (name, traceback.format_exc()[-1500:])
    err = None
    for r in sel:
        cx = Cx(P, crate, name, I, res)
        try:
            if res is None and not getattr(r, 'noret_ok', False):
                cx.viol('no-return', 'no path through this entry point returns')
            else:
                r.check(cx)
        except Exception:
            err = 'rule %s on %s failed: %s' % (r.id, name, traceback.format_exc()[-1500:])
        outs[r.id] = cx.out
    if os.environ.get('SA_TIME'):
        print('%-45s %.2f' % (name, time.time() - t), file=sys.stderr)
    return crate, name, outs, I.nblocks, len(I.events), err


def run(rules, jobs=8, repo=None, entries=None):
    """-> {rule id: aggregate}, meta"""
    import config
    crates = sorted({c for r in rules for c in r.crates})
    Ps, exps, meta = {}, {}, {'crates': {}}
    for c in crates:
        m, root, h = build.build(c, repo)
        Ps[c] = model.Program(m, root=root)
        exps[c] = Ps[c].exports()
        meta['crates'][c] = {'tree': h, 'functions': sum(len(v) for v in Ps[c].fns.values()), 'exports': len(exps[c])}
    _W.update(P=Ps, exports=exps, rules=rules, cfg=config.make)
    work = []
    agg = {r.id: {'viol': [], 'n': 0, 'counts': {}, 'samples': [], 'entries': 0, 'errors': [], 'blocks': 0, 'events': 0, 'entry_names': []} for r in rules}
    for c in crates:
        for n in exps[c]:
            if entries and n not in entries:
                continue
            if any(c in r.crates and r.select(Ps[c], c, n) for r in rules):
                work.append((c, n))
        if not entries:
            for r in rules:
                if c not in r.crates:
                    continue
                for n in r.required(c):
                    if n not in exps[c]:
                        agg[r.id]['viol'].append({'key': '%s:%s:missing' % (c, n), 'entry': n, 'crate': c,
                                                  'msg': 'the exported function %s this rule is anchored on is gone' % n})
    work.sort(key=lambda w: (HEAVY.index(w[1]) if w[1] in HEAVY else 99, w))
    if jobs > 1 and len(work) > 2:
        with multiprocessing.get_context('fork').Pool(min(jobs, len(work))) as pool:
            results = list(pool.imap_unordered(_work, work, chunksize=1))
    else:
        results = [_work(w) for w in work]
    for c, n, outs, blocks, events, err in sorted(results, key=lambda r: r[:2]):
        for rid, o in outs.items():
            a = agg[rid]
            a['viol'] += o['viol']
            a['n'] += o['n']
            for k, v in o['counts'].items():
                a['counts'][k] = a['counts'].get(k, 0) + v
            a['samples'] += o['samples']
            a['entries'] += 1
            a['entry_names'].append(n)
            a['blocks'] += blocks
            a['events'] += events
        if err:
            for r in rules:
                if c in r.crates and r.select(Ps[c], c, n):
                    agg[r.id]['errors'].append(err)
    for r in rules:
        for c in r.crates:
            cx = Cx(Ps[c], c, '-', None, None)
            r.program(Ps[c], c, cx)
            a = agg[r.id]
            a['viol'] += cx.out['viol']
            a['n'] += cx.out['n']
            for k, v in cx.out['counts'].items():
                a['counts'][k] = a['counts'].get(k, 0) + v
            a['samples'] += cx.out['samples']
        if not entries:
            for k, v in r.floors.items():
                got = agg[r.id]['counts'].get(k, 0)
                if got < v:
                    agg[r.id]['viol'].append({'key': 'floor:%s' % k, 'entry': '-', 'crate': '-',
                                              'msg': 'only %d %s found, %d confirmed by hand: the code this rule decides is no longer where it was' % (got, k, v)})
        r.final(agg[r.id])
    return agg, meta

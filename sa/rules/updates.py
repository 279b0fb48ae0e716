"""Loaded records must be written back, and not over newer ones."""
from base import *  # noqa
from framework import Rule
from terms import *  # noqa


class Updates(Rule):
    id = 'U01'
    rule = ('typestate over every path: an account or pool record that was loaded and changed is written back (or its account removed) under the key it was loaded with before the '
            'call returns or the loop goes on to another record; what is written under a key was loaded under that key, with no other write for that key in between')
    floors = {'returns': 40, 'saves': 40, 'rooted': 30}

    def select(self, P, crate, name):
        return crate == 'exchange' and nonview(P, crate, name)

    def required(self, crate):
        return ['swap', 'withdraw', 'ft_on_transfer', 'add_liquidity', 'remove_liquidity', 'storage_unregister'] if crate == 'exchange' else []

    def check(self, cx):
        I = cx.I
        left = {f for a in cx.alts for f in a if f.op == 'dirty' and f.a[0] in ('acct', 'pool')}
        cx.count('returns')
        for f in left:
            cx.viol('lost:' + f.a[0], 'a changed %s is not written back (key %s)' % ('account' if f.a[0] == 'acct' else 'pool', show(f.a[1], 5)[:120]))
        for k, d in I.dropped.items():
            for f in d:
                if f.op == 'dirty' and f.a[0] in ('acct', 'pool') and not any(f.a[0] == g.a[0] for g in left):
                    cx.viol('lost:loop:' + f.a[0], 'a changed %s is not written back before the loop goes on (key %s)' % (f.a[0], show(f.a[1], 5)[:120]))
        for (e, kind, key, rs, stale, other) in sorted(I.__dict__.get('saves', {}).values(), key=lambda x: x[0].seq):
            if rs:
                cx.count('rooted')
            cx.ob(not other, 'other', 'the %s written was loaded under the same key' % kind, e, count='saves')
            cx.ob(not stale, 'stale', 'the %s written was loaded after the last write for its key' % kind, e, count='saves')

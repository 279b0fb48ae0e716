"""check.py <property id> | all   -- decide properties on /repo's current tree"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))

import build  # noqa
import framework  # noqa
import registry  # noqa

VERIF = build.VERIF


def known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    # known: property=<id> key=<key> <what fails>
                    parts = line[7:].split(' ', 2)
                    pid = parts[0].split('=', 1)[1]
                    key = parts[1].split('=', 1)[1]
                    out[(pid, key)] = parts[2] if len(parts) > 2 else ''
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='+')
    ap.add_argument('--repo')
    ap.add_argument('--entries')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.tier == 'thorough':
        os.environ.setdefault('SA_ALTS', '512')
    t0 = time.time()
    allr = registry.rules()
    if a.property == ['all']:
        sel = allr
    else:
        sel = [r for r in allr if r.id in a.property]
        if len(sel) != len(set(a.property)):
            print('unknown property', a.property)
            return 2
    try:
        agg, meta = framework.run(sel, a.jobs, a.repo, set(a.entries.split(',')) if a.entries else None)
    except build.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    kf = known()
    rc = 0
    for r in sel:
        g = agg[r.id]
        new, old = [], []
        seen = set()
        for v in g['viol']:
            k = (r.id, v['key'])
            if k in seen:
                continue
            seen.add(k)
            (old if k in kf else new).append(v)
        for err in g['errors'][:3]:
            print('ERROR property=%s %s' % (r.id, err), file=sys.stderr)
        for v in old:
            print('KNOWN-FINDING: property=%s %s %s' % (r.id, v['key'], kf[(r.id, v['key'])]))
        rp = os.path.join(VERIF, 'evidence', '%s.violations.json' % r.id)
        if new:
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (r.id, rp))
            for v in new[:12]:
                print('  %s  %s  [%s in %s]  via %s' % (v['key'], v['msg'], v.get('at', '-'), v.get('fn', '-'), ' > '.join(v.get('path', []))[-300:]))
            if len(new) > 12:
                print('  ... %d more in the replay file' % (len(new) - 12))
            rc = max(rc, 1) if rc != 2 else 2
        elif os.path.exists(rp):
            os.unlink(rp)
        if g['errors'] and not new:
            rc = 2
        if not a.no_evidence:
            write_evidence(r, g, meta, a, time.time() - t0, len(new), len(old))
        if not new and not g['errors']:
            print('OK property=%s %d obligations over %d entry points, %s' % (r.id, g['n'], g['entries'], json.dumps(g['counts'], sort_keys=True)))
    if any(agg[r.id]['viol'] for r in sel) and rc == 2 and len(sel) == 1:
        pass
    return rc


def write_evidence(r, g, meta, a, wall, nviol, nknown):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {
        'property': r.id, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the MIR rustc 1.69 produces for the wasm32 build of the current tree. Each exported entry point is analysed '
                           'interprocedurally to a fixpoint (value numbering + must-facts + path alternatives); no code is run. Rule: ' + r.rule,
            'analysed': meta['crates'],
            'entry_points': g['entries'], 'entry_point_names': g['entry_names'],
            'program_points': g['blocks'], 'call_and_write_sites': g['events'],
            'obligations': g['n'], 'discharged': g['n'] - min(g['n'], nviol + nknown),
            'rule_instances': g['counts'], 'floors': r.floors,
            'samples': g['samples'][:12], 'known_findings': nknown,
            'exhaustive': True,
        },
        'assumptions': getattr(r, 'assumptions', []) + [
            'near-sdk, the NEAR host and rustc behave as documented; library calls are modelled as in sa/interp.py'],
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    with open(os.path.join(d, r.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())

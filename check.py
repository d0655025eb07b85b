#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]   -- decides one property on /repo's current sources"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'specs')]
import vlib


def load_findings():
    """known-findings.txt:  'KNOWN <property> <key> | text'  and  'fixed: property=..'"""
    out = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN '):
                head, _, text = l[6:].partition('|')
                prop, key = head.split()
                out.setdefault(prop, {})[key] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module(a.prop.lower())
        rep = mod.check(a.tier)
    except vlib.CheckError as e:
        print('check error: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = load_findings().get(a.prop, {})
    # a finding: {'key', 'text', 'detail'}
    viol, seen = [], set()
    for f in rep['findings']:
        if f['key'] in known:
            if f['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s [%s]' % (a.prop, known[f['key']], f['key']))
            seen.add(f['key'])
        else:
            viol.append(f)
    cov = rep['coverage']
    cov['known_findings'] = sorted(seen)
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': rep['level'], 'coverage': cov,
          'assumptions': rep.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    if viol:
        rp = os.path.join(V, 'evidence', a.prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1, ensure_ascii=False, default=str)
        for v in viol[:20]:
            print('violation of %s: %s' % (a.prop, v['text']))
            for l in v.get('detail', [])[:12]:
                print('    ' + str(l))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if rep.get('too_small'):
        print('check error: %s' % rep['too_small'])
        return 2
    print('%s holds: %s' % (a.prop, rep['summary']))
    return 0


if __name__ == '__main__':
    sys.exit(main())

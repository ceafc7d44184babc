#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: generates behaviours from the specification, runs them on the
library built from /repo's working tree, and has TLC check the recorded traces and the
saved packages against the specification.  Exit 0: held on everything explored.
Exit 1 with VIOLATION lines: broken.
"""
import argparse, base64, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from oxlib import *
import gen, plans

REPLAY = os.path.join(VERIF, 'replays')


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get('kind') == 'finding':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    work = Work(a.prop)
    try:
        exe = build()
        tb = time.time()
        if a.replay:
            res = replay(a, exe, work)
        else:
            res = plans.run(a.prop, a.tier, a.seed, exe, work)
            if a.tier == 'thorough':
                # other scripts on the build that users ship: wrapping arithmetic, another root attribute
                shipped = Work(a.prop + '-r')
                try:
                    more = plans.run(a.prop, 'quick', a.seed + 1000, build(release=True), shipped)
                    for v in more['violations'][:200]:
                        v.update(build='release', files=inputs(v.get('script')))
                finally:
                    if not a.keep:
                        shipped.close()
                res['violations'] += more['violations']
                res['coverage']['release_build'] = {k: v for k, v in more['coverage'].items() if isinstance(v, int)}
        # a finding can be replayed: the files its script starts from travel with it
        for v in res['violations'][:200]:
            v.setdefault('files', inputs(v.get('script')))
    finally:
        if not a.keep:
            work.close()
    viols = res['violations']
    listed = [k for k in known() if k['property'] == a.prop]
    fresh, seen = [], {}
    for v in viols:
        k = next((k for k in listed if k['script'] == v['sid'] and v['what'].startswith(k['finding'])), None)
        if k:
            seen[k['script']] = k
        else:
            fresh.append(v)
    for k in seen.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    cov = res['coverage']
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': res['level'], 'coverage': cov,
          'assumptions': res.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.replay:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, ensure_ascii=True, default=str)
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        done = set()
        for v in fresh:
            if v['sid'] in done or len(done) >= 5:
                continue
            done.add(v['sid'])
            p = os.path.join(REPLAY, '%s-%d.json' % (a.prop, len(done)))
            json.dump({'property': a.prop, 'seed': a.seed, 'tier': a.tier, 'finding': v['what'], 'build': v.get('build', 'debug'), 'at': v['i'], 'script': v.get('script'), 'files': v.get('files', {})},
                      open(p, 'w'), indent=1, default=str)
            print('  %s op %s: %s' % (v['sid'], v['i'], v['what'][:300]))
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('%d findings in %d scripts' % (len(fresh), len({v['sid'] for v in fresh})))
        return 1
    print('%s held: %s (%.0f s, driver build %.0f s)' % (a.prop, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int)), time.time() - t0, tb - t0))
    return 0


def inputs(script):
    out, made = {}, set()
    for op in (script or {}).get('ops', ()):
        f = op.get('file')
        if not f:
            continue
        if op['op'].endswith('save'):
            made.add(f)
        elif f not in made and f not in out and os.path.isfile(f) and os.path.getsize(f) < 1 << 21:
            out[f] = base64.b64encode(open(f, 'rb').read()).decode()
    return out


def replay(a, exe, work):
    d = json.load(open(a.replay))
    s = d['script']
    if d.get('build') == 'release':
        exe = build(release=True)
    for f, b in d.get('files', {}).items():
        f = re.sub(r'^/tmp/oxo-[^/"]*/', work.dir + '/', f)
        if f.startswith(work.dir):
            open(f, 'wb').write(base64.b64decode(b))
    return plans.run_scripts(d['property'], exe, work, [relocate(s, work)])


def relocate(s, work):
    t = re.sub(r'/tmp/oxo-[^/"]*/', work.dir + '/', json.dumps(s))
    return json.loads(t)


if __name__ == '__main__':
    try:
        rc = main()
    except Broken as ex:
        print('CHECK BROKEN:', ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

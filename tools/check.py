#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree.

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it is broken.
  check.py ID --replay FILE   runs one saved case again
"""
import argparse
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import checks  # noqa: E402

VERIF = build.VERIF


def symbolize(text):
    """Replaces [pc EXE+0xOFFSET] by the function and line."""
    def one(m):
        try:
            r = subprocess.run(['addr2line', '-Cfsp', '-e', m.group(1), m.group(2)],
                               stdout=subprocess.PIPE, timeout=60)
            return r.stdout.decode().strip() or m.group(0)
        except Exception:
            return m.group(0)
    return re.sub(r'\[pc ([^ +]+)\+(0x[0-9a-f]+)\]', one, text)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--only')
    args = ap.parse_args()
    t0 = time.time()
    env = dict(os.environ)
    if args.thorough:
        env['VERIF_TIER'] = 'thorough'
    tier = 'thorough' if env.get('VERIF_TIER') == 'thorough' else 'quick'
    env['VERIF_TIER'] = tier
    if args.seed is not None:
        env['VERIF_SEED'] = str(args.seed)
    try:
        seed = int(env.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    env['VERIF_SEED'] = str(seed)
    os.environ.update(env)

    check = checks.CHECKS[args.id]
    ev_dir = os.path.join(VERIF, 'evidence')
    replay_dir = os.path.join(VERIF, 'replays')
    os.makedirs(ev_dir, exist_ok=True)
    os.makedirs(replay_dir, exist_ok=True)

    if 'custom' in check:
        sys.exit(check['custom'](args, tier, seed, ev_dir, replay_dir))

    try:
        b = build.Builder()
        linkers = []
        for h in check['harnesses']:
            if args.only and args.only not in h['name']:
                continue
            if h.get('tier') and h['tier'] != tier:
                continue
            spec = {k: v for k, v in h.items() if k not in ('tier', 'args', 'scale')}
            linkers.append((h, b.harness(**spec)))
        b.run()
        bins = [(h, link()) for h, link in linkers]
    except build.BuildError as e:
        print(e)
        print('BUILD FAILED: the tree or the harness does not compile')
        sys.exit(2)
    build_s = time.time() - t0
    if args.build_only:
        return

    if args.replay:
        text = open(args.replay).read()
        for h, exe in bins:
            if '# harness: %s\n' % h['name'] in text:
                sys.exit(subprocess.run([exe, '--replay', args.replay]).returncode)
        print('no harness of this check wrote that replay file')
        sys.exit(2)

    results = []
    violations = []
    errors = []
    for h, exe in bins:
        out = os.path.join(build.BUILD, 'ev.%d.json' % os.getpid())
        cmd = [exe, '--evidence', out, '--replay-dir', replay_dir,
               '--property', args.id, '--name', h['name'], '--scale', str(args.scale * h.get('scale', 1.0))]
        cmd += h.get('args', [])
        print('[%s] %s' % (args.id, h['name']), flush=True)
        r = subprocess.run(cmd)
        if not os.path.exists(out):
            errors.append('%s exited with %d and wrote no result' %
                          (h['name'], r.returncode))
            continue
        res = json.load(open(out))
        os.unlink(out)
        results.append(res)
        print('[%s] %s: %d cases, %d distinct non-trivial, %.1f s%s' % (
            args.id, h['name'], res['evaluations'], res['distinct_nontrivial'],
            res['wall_s'], ' (time cap)' if res['time_capped'] else ''), flush=True)
        if r.returncode == 1 and res['violation']:
            violations.append((symbolize(res['violation']), res['replay']))
            break
        elif r.returncode != 0:
            errors.append('%s exited with %d' % (h['name'], r.returncode))

    ev = {
        'property': args.id,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in results),
            'rule': ' || '.join(sorted(set(r['rule'] for r in results))),
            'samples': [s for r in results for s in r['samples'][:3]],
            'per_harness': [{k: r[k] for k in (
                'harness', 'evaluations', 'planned', 'nontrivial',
                'distinct_nontrivial', 'labels', 'wall_s', 'time_capped',
                'unreproduced', 'shrink_runs')} for r in results],
        },
        'assumptions': check.get('assumptions', []),
        'build_s': round(build_s, 1),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(ev_dir, args.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for msg, replay in violations:
        print('%s' % msg)
        print('VIOLATION property=%s replay=%s' % (args.id, replay))
    if violations:
        sys.exit(1)
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        sys.exit(2)
    print('[%s] held on everything explored (%.1f s, build %.1f s)' % (
        args.id, time.time() - t0, build_s))


if __name__ == '__main__':
    main()

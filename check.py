#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : exit 0 held, 1 violated, 2 no answer"""
import argparse, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    import run, props, build
    ctx = run.Ctx(a.prop, a.tier, a.seed)
    rc = 0; viol = None
    try:
        for part in props.T[a.prop]: part(ctx)
    except run.Violation as v:
        viol = v; rc = 1
    except build.BuildError as x:
        print('BUILD FAILED', x); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    wall = round(time.time() - ctx.t0, 1)
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=props.LEVEL.get(a.prop, 'model_checking'), wall_s=wall,
              coverage=dict(dict(states=0, transitions=0, traces_validated_against_impl=0), **ctx.cov), violations=0 if viol is None else 1)
    ev['coverage']['samples'] = ctx.samples
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if viol is not None:
        rp = ctx.path('violation.json')
        with open(rp, 'w') as f: json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, message=str(viol), detail=viol.detail), f, indent=1, default=repr)
        print(str(viol)[:2000])
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    else:
        print('%s %s in %.1f s: %s' % (a.prop, 'HELD' if rc == 0 else 'NO ANSWER', wall, json.dumps(ctx.cov)))
    sys.stdout.flush()
    sys.exit(rc)
main()

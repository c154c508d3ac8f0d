#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property of /repo's working tree:
  1. TLC checks the design models of the property exhaustively in a small scope;
  2. instances and transitions printed by TLC are replayed on the real code;
  3. random histories are run on the real code;
  and TLC validates every recorded trace against the trace specification.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the machinery failed.
"""
import argparse, json, os, random, shutil, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import props, runner, tlcrun                            # noqa: E402


def known(prop):
    """findings that are not repaired: 'finding: property=<id> clause=<name> input=<text>' lines"""
    out = []
    try:
        with open(os.path.join(ROOT, 'known-findings.txt')) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    out.append(line.strip())
    except OSError:
        pass
    return out


def models(P, tier, scratch, seed):
    """start the design models -> list of (name, run, parser)"""
    out = []
    for m in P.models(tier):
        args = list(m.get('args', ()))
        if m.get('simulate'):
            args += ['-simulate', 'num=%d' % m['simulate'][0], '-depth', str(m['simulate'][1]), '-seed', str(seed)]
        run = tlcrun.Run(m['module'], m['cfg'], scratch, workers=m.get('workers', 2), heap=m.get('heap', '3g'),
                         args=args, name='m')
        out.append((m, run))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--nomodels', action='store_true')
    a = ap.parse_args()
    P = props.get(a.prop)
    t0 = time.time()
    if a.tier != 'quick':
        runner.BUDGET[:] = [10 ** 6] * 2
    scratch = tempfile.mkdtemp(prefix='vp-check-')
    try:
        return run(a, P, scratch, t0)
    except Exception:
        traceback.print_exc()
        print('ERROR: the check could not decide %s' % a.prop)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, P, scratch, t0):
    ev = os.path.join(ROOT, 'evidence')
    rep = os.path.join(ev, 'replays')
    os.makedirs(rep, exist_ok=True)
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        o = runner.validate(d['module'], a.prop, [d['session']], scratch, 1)
        for s, e, c in o.problems:
            print(json.dumps(e)[:3000])
            print('clauses:', c)
        if o.problems:
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1 if o.problems else 0

    ms = [] if a.nomodels else models(P, a.tier, scratch, a.seed)
    # code to spec
    outs = []
    for module, gen in P.random(a.tier, a.seed, a.scale):
        outs.append((module, runner.validate(module, a.prop, gen, scratch, isjudged=P.judged, tag='r' + module)))
    # the design
    stats, undone = [], []
    for m, r in ms:
        r.wait(max(10, 600 - (time.time() - t0)) if a.tier == 'quick' else m.get('timeout', 3000))
        if not r.finished:
            undone.append('model %s: %s' % (m['name'], r.error_text() or 'not finished'))
            continue
        stats.append({'model': m['name'], 'module': m['module'], 'states': r.distinct, 'transitions': r.generated,
                      'wall_s': round(r.wall, 1)})
    # spec to code
    replayed = 0
    for m, r in ms:
        if m.get('replay') and r.finished:
            got = m['replay'](r.out, a.tier, random.Random('%s/%s' % (m['name'], a.seed)))
            if not got:
                raise tlcrun.TLCError('model %s printed nothing to replay' % m['name'])
            for module, sess, count in got:
                replayed += count
                outs.append((module, runner.validate(module, a.prop, sess, scratch, isjudged=P.judged, tag='s')))
    sessions = sum(o.sessions for _, o in outs)
    if not sessions:
        raise Exception('nothing was run')
    byop = {}
    for _, o in outs:
        for k, v in o.byop.items():
            byop[k] = byop.get(k, 0) + v
    problems = []
    for module, o in outs:
        for s, e, c in o.problems:
            problems.append((module, s, e, c))
    kn = known(a.prop)
    new, old = [], []
    for module, s, e, c in problems:
        hit = [k for k in kn if all(('clause=%s ' % x[1]) in k for x in c)]
        (old if hit else new).append((module, s, e, c))
    cov = {'states': sum(x['states'] for x in stats), 'transitions': sum(x['transitions'] for x in stats),
           'traces_validated_against_impl': sessions, 'recorded_calls_validated': sum(o.events for _, o in outs),
           'calls_decisive_for_this_property': byop, 'spec_behaviours_replayed_on_impl': replayed,
           'design_models': stats, 'exhaustive': False,
           'samples': [s for _, o in outs for s in o.samples][:3],
           'hangs': sum(o.timeouts for _, o in outs)}
    doc = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking', 'coverage': cov,
           'assumptions': P.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    with open(os.path.join(ev, a.prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k.split(' ', 2)[2]))
    print('%s: %d traces, %d calls, %s; models %s; %.1f s' % (
        a.prop, sessions, cov['recorded_calls_validated'], byop,
        ['%s %d/%d' % (x['model'], x['states'], x['transitions']) for x in stats], time.time() - t0))
    if undone and not new:
        raise tlcrun.TLCError('; '.join(undone))
    if not new:
        return 0
    shown = {}
    for i, (module, s, e, c) in enumerate(new):
        key = c[0][1]
        if key in shown:
            continue
        path = os.path.join(rep, '%s-%d.json' % (a.prop, len(shown)))
        shown[key] = path
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'module': module, 'clauses': c, 'session': s, 'event': e}, f)
        print('%s: %s' % (a.prop, '; '.join(x[1] for x in c)))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        if len(shown) >= 5:
            break
    print('%d calls violate %s' % (len(new), a.prop))
    return 1


if __name__ == '__main__':
    sys.exit(main())

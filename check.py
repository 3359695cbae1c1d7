#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'rules'))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 << 20)


LIMIT = int(os.environ.get('NN_LIMIT', '780'))
EVID = os.environ.get('NN_EVID', os.path.join(VERIF, 'evidence'))


def known(pid):
    r = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                o = json.loads(l)
                if o.get('property') == pid and o.get('status') == 'finding':
                    r.append(o)
    return r


class Box(object):
    ctx = None
    mod = None
    prog = None


def analyse(pid, tier, box):
    """fills box.ctx; returns None or the reason why the analysis did not complete"""
    import build
    import core
    from load import AnchorMissing
    try:
        mod = box.mod = importlib.import_module(pid.lower())
        box.prog = build.load(list(mod.UNITS))
        box.ctx = core.Ctx(pid, box.prog, tier)
        mod.check(box.ctx)
        if not box.ctx.obs:
            raise AnchorMissing('no obligation was generated')
        box.ctx.finish()
    except Exception as e:
        if os.environ.get('NN_DEBUG'):
            traceback.print_exc()
        return '%s: %s' % (type(e).__name__, str(e)[:500])
    return None


def report(pid, tier, box, broken, t0):
    import core
    ctx, mod, prog = box.ctx, box.mod, box.prog
    if broken:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, broken))
        if ctx is None or not [o for o in ctx.obs if not o[2]]:
            return 2
    # what was already refuted stands
    kn = known(pid)
    bad = [o for o in ctx.obs if not o[2]]
    seen_known = []
    viol = []
    for o in bad:
        k = [x for x in kn if x['rule'] == o[0] and x['fingerprint'] == o[4]]
        if k and o[4] is not None:
            seen_known.append((k[0], o))
        else:
            viol.append(o)
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o[0], [0, 0])
        r[0] += 1
        r[1] += 1 if o[2] else 0
    funcs = set()
    ncs = 0
    nev = 0
    notes = set()
    for I in ctx.interps:
        funcs |= I.analysed
        ncs += I.callsites
        nev += len(I.events)
        notes |= set(I.notes)
    rep = os.path.join(EVID, '%s.report.json' % pid)
    os.makedirs(EVID, exist_ok=True)
    reals = lambda o: {'rule': o[0], 'where': o[1], 'detail': o[3]}
    with open(rep, 'w') as f:
        json.dump({'property': pid, 'violations': [reals(o) for o in viol],
                   'known': [reals(o) for _, o in seen_known],
                   'how_to_replay': 'python3 %s/check.py %s' % (VERIF, pid)}, f, indent=1)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLANATION if hasattr(mod, 'EXPLANATION') else (mod.__doc__ or '').strip(),
            'obligations': len(ctx.obs), 'discharged': len(ctx.obs) - len(bad),
            'units_parsed': [core.rel(u) for u in [t.name for t in prog.tus]],
            'functions_analysed': sorted(set(prog.funcs[k].qn if k in prog.funcs else k for k in funcs)) + sorted(getattr(ctx, 'extra_funcs', ())),
            'call_sites_interpreted': ncs, 'effects_recorded': nev,
            'obligations_per_rule': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(rules.items())},
            'instances': ctx.sites,
            'samples': [{'rule': o[0], 'where': o[1], 'ok': o[2]} for o in ctx.obs[:6]],
            'analysis_notes': sorted(notes)[:40],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    with open(os.path.join(EVID, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('property %s: %d functions analysed, %d obligations, %d discharged (%.1f s)' % (
        pid, len(ev['coverage']['functions_analysed']), len(ctx.obs), len(ctx.obs) - len(bad), time.time() - t0))
    for k, v in sorted(rules.items()):
        print('  rule %-52s %d/%d' % (k, v[1], v[0]))
    if os.environ.get('NN_VERBOSE'):
        for o in ctx.obs:
            print('    %s %s %s %s' % ('ok ' if o[2] else 'BAD', o[0], o[1], o[3][:300]))
    done = set()
    for k, o in seen_known:
        if k['fingerprint'] in done:
            continue
        done.add(k['fingerprint'])
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, k['what'], o[1]))
    if viol:
        for o in viol:
            print('  violated rule: %s\n    at %s\n    %s' % (o[0], o[1], o[3][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 2 if broken else 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    box = Box()
    rc = ['not run']

    def body():
        rc[0] = analyse(pid, tier, box)
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(LIMIT)
    if t.is_alive():
        rc[0] = 'time limit of %d s' % LIMIT
    rc = [report(pid, tier, box, rc[0], t0)]
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    main()

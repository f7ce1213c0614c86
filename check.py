#!/usr/bin/env python3
"""check.py <property> [--thorough]: analyse /repo's current source for one property."""
import os
import signal
import sys

PY = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('PYTHONHASHSEED') != '0' or 'MQTTSA' not in os.environ:
    env = dict(os.environ, PYTHONHASHSEED='0', MQTTSA='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import json
import time
import collections
import harness


# a call or access that is reached is a fact whatever else is imprecise
CERTAIN = ('pure',)


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s key=' % pid):
                k, _, what = l[len('known: property=%s key=' % pid):].rstrip('\n').partition(' ## ')
                out[k] = what
    return out


def late(*a):
    raise TimeoutError('too slow')


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    prog = harness.load()
    import props
    pr = props.BY[pid]
    jl = []
    undecided = []
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(240)
        jl = pr.jobs(prog)
        if tier == 'thorough' and pr.deep:
            seen = {j[0] for j in jl}
            jl += [j for j in pr.deep(prog) if j[0] not in seen]
    except Exception as x:
        import traceback
        undecided.append('obligations could not be enumerated: %s' % traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    res = harness.pmap(jl, limit=600, overall=max(60, 780 - (time.time() - t0)))
    obl = collections.OrderedDict()
    found = {}
    fns = set()
    bytag = collections.Counter()
    empty = []
    for name, _, _ in jl:
        r = res.get(name, 'no result')
        if isinstance(r, str):
            undecided.append('%s: %s' % (name, r.strip().splitlines()[-1]))
            continue
        fns |= r.fns
        n = 0
        # obligations that fail in a job the analysis could not finish precisely are not verdicts
        unsure = bool(r.undecided)
        for u in r.undecided:
            undecided.append('%s: %s' % (name, u.strip().replace('\n', ' | ')[:600]))
        for tag, key, ok in r.tags:
            if tag not in pr.tags:
                continue
            n += 1
            bytag[tag] += 1
            k = (name, tag, key)
            obl[k] = obl.get(k, True) and ok
        for f in r.findings:
            if f['tag'] in pr.tags and (pr.only is None or pr.only(f)):
                if unsure and f['tag'] not in CERTAIN and not f.get('sure'):
                    undecided.append('%s: not decided: %s' % (name, f['what'][:200]))
                else:
                    found.setdefault(f['key'], f)
        if n == 0 and not unsure:
            empty.append(name)
    kn = known(pid)
    bad = [f for k, f in found.items() if k not in kn]
    for k in found:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[k], k))
    floor = pr.floor
    if len(obl) < floor:
        undecided.append('only %d obligations were found' % len(obl))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'proof',
        'coverage': {
            'obligations': len(obl), 'discharged': sum(1 for v in obl.values() if v),
            'checker_cmd': './check.py %s' % pid,
            'trusted_base': ['rustc nightly front end and MIR (overflow checks on, no MIR optimisation)',
                             'the abstract interpreter in /verif/sa',
                             'models of bytes and core/alloc functions without MIR (sa/models.py)',
                             'lengths of in-memory buffers below 2^40'],
            'rule': pr.statement, 'jobs': len(jl), 'instances_by_rule': dict(bytag),
            'functions_analysed': len(fns), 'local_functions': sorted(f for f in fns if f.startswith('mqttbytes') or '<mqttbytes' in f)[:200],
            'undecided': undecided, 'jobs_without_instance': empty,
            'samples': [{'job': k[0], 'rule': k[1], 'instance': k[2], 'holds': v} for k, v in list(obl.items())[:: max(1, len(obl) // 12)]][:12],
        },
        'assumptions': ['properties are decided for all values of the abstract inputs; joins are exact except where '
                        'the evidence lists a limit under undecided'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in undecided[:20]:
        print('UNDECIDED', u[:400])
    print('%s: %d obligations, %d discharged, %d functions, %d jobs, %.1f s' % (
        pid, len(obl), ev['coverage']['discharged'], len(fns), len(jl), ev['wall_s']))
    if bad:
        d = os.path.join(HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + '.json')
        json.dump(bad, open(rp, 'w'), indent=1, default=str)
        for f in bad[:10]:
            print('  %s:%s %s [%s] in %s' % (f['fn'], f['line'], f['what'][:300], f['key'][:120], f['job']))
            for s in (f.get('stack') or [])[:6]:
                print('      ', str(s)[:160])
            if f.get('cond'):
                print('       when', ' and '.join(f['cond'])[:500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--repo DIR]: decides one property on the source tree."""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import threading  # noqa: E402

threading.stack_size(512 * 1024 * 1024)


def findings():
    """Listed findings: property -> {obligation: what fails}."""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property='):
                    head, _, what = line[len('finding: '):].partition(' :: ')
                    prop, _, ident = head.partition(' ')
                    out.setdefault(prop.split('=', 1)[1], {})[ident.strip()] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    t0 = time.time()
    from sa import props
    from sa.check import Checker
    from sa.frontend import FrontendError
    prop = a.property
    try:
        ck = Checker(os.path.join(HERE, 'spec'), a.repo)
    except FrontendError as e:
        print('ERROR: cannot read the tree: %s' % e)
        return 2
    lost = props.unmatched(ck.sp.funcs)
    if lost:
        print('ERROR: the table names functions the reviewed tree does not have: %s' % lost)
        return 2
    for m in ck.sp.modules:
        if m not in ck.tp.modules and not any(q.startswith(m + '.') for q in ck.tp.funcs):
            if m.startswith('sudachipy') and ck.sp.modules[m].funcs or ck.sp.modules[m].classes:
                print('note: module %s is gone' % m)
    obs = ck.obligations(prop, a.tier)
    if not obs:
        print('ERROR: no obligations for %s' % prop)
        return 2
    known = findings().get(prop, {})
    bad, listed, seen = [], [], set()
    for o in obs:
        if o.verdict == 'bad' and o.ident() not in seen:
            seen.add(o.ident())
            (listed if o.ident() in known else bad).append(o)
    und = [o for o in obs if o.verdict == 'undecided']
    good = [o for o in obs if o.verdict == 'ok']
    os.makedirs(a.evidence, exist_ok=True)
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static: every obligation was decided from the source of the current tree. A summary obligation '
                           'compares the input/output/state summary of one function (all paths, loops as recurrences) with '
                           'that of the reviewed reference; other obligations are structural rules, constants, parameter '
                           'defaults and C integer widths. Undecided obligations raise no alarm and are not counted as '
                           'discharged.',
            'obligations': len(obs), 'discharged': len(good), 'undecided': len(und), 'violated': len(bad) + len(listed),
            'by_rule': count(obs), 'files_parsed': ck.tp.files, 'lines_parsed': ck.tp.lines,
            'functions_in_tree': len(ck.tp.funcs), 'comparisons': ck.stats['comparisons'],
            'facets_compared': ck.stats['facets'], 'loops_summarised': ck.stats['loops'],
            'bodies_inlined': len(ck.stats['inlined']), 'callees_kept_as_calls': len(ck.stats['called']),
            'samples': [{'obligation': o.ident(), 'at': o.where, 'verdict': o.verdict, 'detail': o.detail[:200]}
                        for o in (good[:6] + und[:6])],
            'undecided_list': [{'obligation': o.ident(), 'why': o.detail[:160]} for o in und],
        },
        'assumptions': ['the reviewed reference under spec/ states the intended behaviour',
                        'callees are compared separately under their own obligations',
                        'C compilers, CPython, NumPy, dartsclone and sortedcontainers behave as documented'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    tmp = os.path.join(a.evidence, prop + '.json')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    for o in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o.ident(), known[o.ident()]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' %
          (prop, len(obs), len(good), len(und), len(bad), time.time() - t0))
    for o in und:
        print('  undecided %s: %s' % (o.ident(), o.detail[:200]))
    if not bad:
        return 0
    d = os.path.join(a.evidence, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.txt')
    with open(path, 'w', encoding='utf-8') as f:
        for o in bad:
            f.write('%s\n  at %s\n  %s\n\n' % (o.ident(), o.where, o.detail))
    for o in bad:
        print('  %s at %s: %s' % (o.ident(), o.where, o.detail[:600]))
    print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE) if path.startswith(HERE) else path))
    return 1


def count(obs):
    out = {}
    for o in obs:
        out[o.rule] = out.get(o.rule, 0) + 1
    return out


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code if isinstance(e.code, int) else 2)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source.

exit 0 held; 1 violated (VIOLATION line); 2 the analysis could not be carried out."""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import program
from program import AnalysisError, Extraction
from report import Report, finish, ROOT
from registry import CHECKS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    props = a.property
    if props == ['all']:
        props = sorted(CHECKS)
    cfgs = []
    for p in props:
        if p not in CHECKS:
            print('unknown property', p)
            return 2
        c = CHECKS[p]
        for x in c['configs'] + (c.get('thorough', []) if tier == 'thorough' else []):
            if x not in cfgs:
                cfgs.append(x)
    ex = Extraction(cfgs)
    worst = 0
    try:
        P = ex.extract()
        for p in props:
            c = CHECKS[p]
            rep = Report(p, tier)
            try:
                mod, fn = c['run'].split(':')
                f = getattr(importlib.import_module(mod), fn)
                use = c['configs'] + (c.get('thorough', []) if tier == 'thorough' else [])
                f(rep, {k: P[k] for k in use}, ex)
                for k in use:
                    rep.configs[k] = {'translation_units': P[k].nfiles, 'functions': len(P[k].fns)}
                rc, ev, total = finish(rep, ex.stats, seed)
                ev['coverage']['extraction'] = ex.stats
                ev['assumptions'] = c.get('assumptions', []) + ['the compiler front end (clang 18) resolves the program as gcc does',
                                                                'the configuration analysed is the one /opt/vp/build.sh configures']
                json.dump(ev, open(os.path.join(ROOT, 'evidence', p + '.json'), 'w'), indent=1)
                print('%s: %s; instances: %s; %.1fs' % (p, 'held' if rc == 0 else 'VIOLATED', ', '.join(
                    '%s=%d' % kv for kv in ev['coverage']['instances'].items()), ev['wall_s']))
                worst = max(worst, rc) if worst != 2 else 2
            except AnalysisError as e:
                print('%s: ANALYSIS ERROR: %s' % (p, e))
                worst = 2
            except Exception:
                traceback.print_exc()
                print('%s: ANALYSIS ERROR (internal)' % p)
                worst = 2
    except AnalysisError as e:
        print('ANALYSIS ERROR: %s' % e)
        return 2
    finally:
        ex.close()
    return worst


if __name__ == '__main__':
    sys.exit(main())

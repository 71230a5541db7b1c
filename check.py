#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current source."""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'engine')); sys.path.insert(0, os.path.join(HERE, 'props'))
import core
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(prop.lower())
    rep = core.Rep(prop, tier)
    try:
        try: mod.run(rep)
        except core.AnalysisBroken: raise
        except Exception as e:      # the code left the analysed domain: undecided, recorded (the minimum number of discharged obligations still applies)
            rep.add('analysis', None, 'run', repr(e) + ' ' + ' '.join(traceback.format_exc().splitlines()[-4:])[:300])
            traceback.print_exc()
        rc = core.finish(rep, mod.LEVEL, mod.RULE, mod.TECHNIQUE, getattr(mod, 'TRUSTED', None), getattr(mod, 'ASSUMPTIONS', None))
    except core.AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e); rc = 3
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    return rc
if __name__ == '__main__': sys.exit(main())

#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's working tree."""
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    import core
    import registry
    c = core.Check(prop, tier)
    try:
        registry.CHECKS[prop](c, tier)
    except core.MachineryError as e:
        print('CHECK ERROR', prop, e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    c.finish()


main()

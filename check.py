"""python check.py <property id> [--replay FILE] [--sub NAME] [--tier quick|thorough] [--seed N]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', os.path.join(HERE, '.cache', 'hypothesis'))
PYTHON = '/opt/venv/bin/python'      # the interpreter /repo is built for
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    from harness import env
    env.install(env.build('opt'))
    mod = importlib.import_module('checks.' + prop.lower())
    from harness import core
    return core.main(prop, mod.SUBS, assumptions=getattr(mod, 'ASSUMPTIONS', ()),
                     pre=getattr(mod, 'pre', None))


if __name__ == '__main__':
    if os.path.exists(PYTHON) and sys.prefix != '/opt/venv':
        os.execv(PYTHON, [PYTHON] + sys.argv)
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

"""Nothing to build: checks that the package in /repo can be loaded under the scheduler."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
sys.dont_write_bytecode = True

if __name__ == '__main__':
    base = os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='hsmc-')
    try:
        from explore import get_inst
        S = get_inst('server')
        assert S.server.ServerThread
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('ok')
    sys.stdout.flush()
    os._exit(0)

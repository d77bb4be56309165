import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO_SRC = os.path.join(os.environ.get('MC_REPO', '/repo'), 'src')
sys.path.insert(0, REPO_SRC)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def main():
    import graph_scheduler
    if not os.path.abspath(graph_scheduler.__file__).startswith(os.path.abspath(REPO_SRC) + os.sep):
        print(f'graph_scheduler imported from {graph_scheduler.__file__}, not {REPO_SRC}', file=sys.stderr)
        return 2
    from mc import common
    if sys.argv[1:] == ['--selftest']:
        # imports everything once; nothing has to be built
        from mc import graphs, histories, impl, menus, model  # noqa: F401
        for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
            if f.startswith('c'):
                importlib.import_module(f'mc.checks.{f[:-3]}')
        print('ok')
        return 0
    name = sys.argv[1].lower()
    module = importlib.import_module(f'mc.checks.{name}')
    return common.main(module, sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())

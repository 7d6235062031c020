'''
Make the clingodl package importable.
'''
import importlib.util
import os
import sys


def load():
    '''
    Load the binding given on the command line.
    '''
    sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), sys.argv[1]]
    # (libclingo has to be available before)
    import clingo  # pylint: disable=unused-import,import-outside-toplevel,import-error
    spec = importlib.util.spec_from_file_location("_clingodl", sys.argv[2])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["_clingodl"] = mod
    sys.modules["clingodl._clingodl"] = mod
    spec.loader.exec_module(mod)

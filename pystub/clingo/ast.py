'''
Abstract syntax trees.
'''
import ctypes as c

from . import _c
from ._c import P, BOOL, SIZE, STR, sig, handle, guard

_acquire = sig("clingo_ast_acquire", None, P)
_release = sig("clingo_ast_release", None, P)
_init = sig("clingo_control_program_builder", BOOL, P, c.POINTER(P)) if hasattr(_c.lib, "clingo_control_program_builder") \
    else sig("clingo_program_builder_init", BOOL, P, c.POINTER(P))
_begin = sig("clingo_program_builder_begin", BOOL, P)
_add = sig("clingo_program_builder_add", BOOL, P, P)
_end = sig("clingo_program_builder_end", BOOL, P)
_parse_files = sig("clingo_ast_parse_files", BOOL, c.POINTER(STR), SIZE, _c.AST_CB, P, P, P, P, c.c_uint)


class AST:
    '''
    A (reference counted) syntax tree.
    '''
    __getattr__ = _c.missing('AST')

    def __init__(self, rep):
        _acquire(rep)
        self._rep = rep

    def __del__(self):
        _release(self._rep)


class ProgramBuilder:
    '''
    Adds statements to a program.
    '''
    __getattr__ = _c.missing('ProgramBuilder')

    def __init__(self, control):
        self._rep = P()
        handle(_init(control._rep, c.byref(self._rep)))

    def __enter__(self):
        handle(_begin(self._rep))
        return self

    def __exit__(self, kind, value, trace):
        handle(_end(self._rep))
        return False

    def add(self, stm):
        handle(_add(self._rep, stm._rep))


_parse_string = sig("clingo_ast_parse_string", BOOL, STR, _c.AST_CB, P, P, P, P, c.c_uint)


def parse_string(program, callback, control=None, logger=None, message_limit=20):
    '''
    Pass the statements of a program to a callback.
    '''
    assert logger is None
    cb = _c.AST_CB(guard(lambda ptr, _data: callback(AST(ptr))))
    handle(_parse_string(program.encode(), cb, None, control._rep if control is not None else None, None, None,
                         message_limit))


def parse_files(files, callback, control=None, logger=None, message_limit=20):
    '''
    Pass the statements of files to a callback.
    '''
    assert logger is None
    cb = _c.AST_CB(guard(lambda ptr, _data: callback(AST(ptr))))
    arr = (STR * len(files))(*[f.encode() for f in files])
    handle(_parse_files(arr, len(files), cb, None, control._rep if control is not None else None, None, None,
                        message_limit))


__getattr__ = _c.missing('ast')

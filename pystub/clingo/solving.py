'''
Models.
'''
import ctypes as c

from . import _c
from ._c import P, SYM, BOOL, SIZE, sig, handle
from .symbol import Symbol

_size = sig("clingo_model_symbols_size", BOOL, P, c.c_uint, c.POINTER(SIZE))
_syms = sig("clingo_model_symbols", BOOL, P, c.c_uint, c.POINTER(SYM), SIZE)
_thread = sig("clingo_model_thread_id", BOOL, P, c.POINTER(c.c_uint32))
_number = sig("clingo_model_number", BOOL, P, c.POINTER(c.c_uint64))


_contains = sig("clingo_model_contains", BOOL, P, SYM, c.POINTER(BOOL))
_extend = sig("clingo_model_extend", BOOL, P, c.POINTER(SYM), SIZE)


class SolveResult:
    '''
    Result of a search.
    '''
    def __init__(self, rep):
        self._rep = rep

    @property
    def satisfiable(self):
        return True if self._rep & 1 else False if self._rep & 2 else None

    @property
    def unsatisfiable(self):
        ret = self.satisfiable
        return None if ret is None else not ret

    @property
    def unknown(self):
        return self.satisfiable is None

    @property
    def exhausted(self):
        return bool(self._rep & 4)

    @property
    def interrupted(self):
        return bool(self._rep & 8)


class SolveHandle:
    '''
    A search in progress whose answers are yielded.
    '''
    def __init__(self, rep, keep):
        self._rep = rep
        self._keep = keep

    def __enter__(self):
        return self

    def __exit__(self, kind, value, trace):
        handle(_close(self._rep))
        return False

    def __iter__(self):
        while True:
            handle(_resume(self._rep))
            mod = P()
            handle(_model(self._rep, c.byref(mod)))
            if not mod:
                return
            yield Model(mod)

    def get(self):
        res = c.c_uint()
        handle(_get(self._rep, c.byref(res)))
        return SolveResult(res.value)


_get = sig("clingo_solve_handle_get", BOOL, P, c.POINTER(c.c_uint))
_close = sig("clingo_solve_handle_close", BOOL, P)
_resume = sig("clingo_solve_handle_resume", BOOL, P)
_model = sig("clingo_solve_handle_model", BOOL, P, c.POINTER(P))


class Model:
    '''
    A model.
    '''
    __getattr__ = _c.missing('Model')

    def __init__(self, rep):
        self._rep = rep

    @property
    def thread_id(self):
        ret = c.c_uint32()
        handle(_thread(self._rep, c.byref(ret)))
        return ret.value

    @property
    def number(self):
        ret = c.c_uint64()
        handle(_number(self._rep, c.byref(ret)))
        return ret.value

    def contains(self, symbol):
        ret = BOOL()
        handle(_contains(self._rep, symbol._rep, c.byref(ret)))
        return ret.value

    def extend(self, symbols):
        arr = (SYM * len(symbols))(*[x._rep for x in symbols])
        handle(_extend(self._rep, arr, len(symbols)))

    def __str__(self):
        return " ".join(str(x) for x in self.symbols(shown=True))

    def symbols(self, atoms=False, terms=False, shown=False, theory=False, complement=False):
        show = 2 * shown + 4 * atoms + 8 * terms + 16 * theory + 32 * complement
        size = SIZE()
        handle(_size(self._rep, show, c.byref(size)))
        buf = (SYM * size.value)()
        handle(_syms(self._rep, show, buf, size.value))
        return [Symbol(x) for x in buf]


__getattr__ = _c.missing('solving')

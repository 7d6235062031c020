'''
Control objects.
'''
import ctypes as c

from . import _c
from ._c import P, SYM, BOOL, SIZE, STR, sig, handle, guard
from .solving import Model, SolveHandle, SolveResult
from .statistics import StatisticsMap

_ground = sig("clingo_control_ground", BOOL, P, c.POINTER(_c.Part), SIZE, P, P)
_solve = sig("clingo_control_solve", BOOL, P, c.c_uint, P, SIZE, _c.EVENT_CB, P, c.POINTER(P))
_get = sig("clingo_solve_handle_get", BOOL, P, c.POINTER(c.c_uint))
_new = sig("clingo_control_new", BOOL, c.POINTER(STR), SIZE, P, P, c.c_uint, c.POINTER(P))
_free = sig("clingo_control_free", None, P)
_close = sig("clingo_solve_handle_close", BOOL, P)


class Control:
    '''
    A control object (created from arguments or referring to one owned by the application).
    '''
    __getattr__ = _c.missing('Control')

    def __init__(self, arguments=(), logger=None, message_limit=20):
        self._owned = not isinstance(arguments, int)
        self._rep = arguments
        if self._owned:
            assert logger is None
            rep = P()
            self._rep = None
            args = (STR * len(arguments))(*[x.encode() for x in arguments])
            handle(_new(args, len(arguments), None, None, message_limit, c.byref(rep)))
            self._rep = rep.value

    def __del__(self):
        if self._owned and self._rep is not None:
            _free(self._rep)

    def ground(self, parts=(("base", ()),), context=None):
        assert context is None
        arr = (_c.Part * len(parts))()
        keep = []
        for x, (name, params) in zip(arr, parts):
            syms = (SYM * len(params))(*[s._rep for s in params])
            keep.append(syms)
            x.name, x.params, x.size = name.encode(), c.cast(syms, c.POINTER(SYM)), len(params)
        handle(_ground(self._rep, arr, len(parts), None, None))

    def solve(self, assumptions=(), on_model=None, on_unsat=None, on_statistics=None, on_finish=None, yield_=False,
              async_=False):
        assert not assumptions and on_unsat is None and on_finish is None and not async_

        @guard
        def event(kind, ptr, _data, goon):
            if kind == 0 and on_model is not None:
                ret = on_model(Model(ptr))
                goon[0] = bool(ret is None or ret)
            elif kind == 2 and on_statistics is not None:
                stats = c.cast(ptr, c.POINTER(P))
                on_statistics(StatisticsMap(stats[0]), StatisticsMap(stats[1]))

        cb = _c.EVENT_CB(event)
        hnd = P()
        handle(_solve(self._rep, 2 if yield_ else 0, None, 0, cb, None, c.byref(hnd)))
        if yield_:
            return SolveHandle(hnd, cb)
        res = c.c_uint()
        ret = _get(hnd, c.byref(res))
        err = None
        if not ret:
            try:
                handle(ret)
            except Exception as e:  # pylint: disable=broad-except
                err = e
        handle(_close(hnd))
        if err is not None:
            raise err
        return SolveResult(res.value)


__getattr__ = _c.missing('control')

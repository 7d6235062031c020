'''
Symbols.
'''
import ctypes as c
from enum import Enum
from functools import total_ordering

from . import _c
from ._c import P, SYM, BOOL, SIZE, STR, sig, handle

_type = sig("clingo_symbol_type", c.c_int, SYM)
_lt = sig("clingo_symbol_is_less_than", BOOL, SYM, SYM)
_eq = sig("clingo_symbol_is_equal_to", BOOL, SYM, SYM)
_hash = sig("clingo_symbol_hash", SIZE, SYM)
_name = sig("clingo_symbol_name", BOOL, SYM, c.POINTER(STR))
_pos = sig("clingo_symbol_is_positive", BOOL, SYM, c.POINTER(BOOL))
_args = sig("clingo_symbol_arguments", BOOL, SYM, c.POINTER(c.POINTER(SYM)), c.POINTER(SIZE))
_strsize = sig("clingo_symbol_to_string_size", BOOL, SYM, c.POINTER(SIZE))
_str = sig("clingo_symbol_to_string", BOOL, SYM, P, SIZE)
_num = sig("clingo_symbol_number", BOOL, SYM, c.POINTER(c.c_int))
_string = sig("clingo_symbol_string", BOOL, SYM, c.POINTER(STR))


class SymbolType(Enum):
    '''
    Types of symbols.
    '''
    Infimum = 0
    Number = 1
    String = 4
    Function = 5
    Supremum = 7


@total_ordering
class Symbol:
    '''
    A gringo symbol.
    '''
    __getattr__ = _c.missing('Symbol')

    def __init__(self, rep):
        self._rep = rep

    @property
    def type(self):
        return SymbolType(_type(self._rep))

    @property
    def name(self):
        ret = STR()
        handle(_name(self._rep, c.byref(ret)))
        return ret.value.decode()

    @property
    def string(self):
        ret = STR()
        handle(_string(self._rep, c.byref(ret)))
        return ret.value.decode()

    @property
    def number(self):
        ret = c.c_int()
        handle(_num(self._rep, c.byref(ret)))
        return ret.value

    @property
    def positive(self):
        ret = BOOL()
        handle(_pos(self._rep, c.byref(ret)))
        return ret.value

    @property
    def negative(self):
        return not self.positive

    @property
    def arguments(self):
        args, size = c.POINTER(SYM)(), SIZE()
        handle(_args(self._rep, c.byref(args), c.byref(size)))
        return [Symbol(args[i]) for i in range(size.value)]

    def match(self, name, arity, positive=True):
        return (self.type == SymbolType.Function and self.positive == positive and self.name == name and
                len(self.arguments) == arity)

    def __str__(self):
        size = SIZE()
        handle(_strsize(self._rep, c.byref(size)))
        buf = c.create_string_buffer(size.value)
        handle(_str(self._rep, c.cast(buf, P), size.value))
        return buf.value.decode()

    def __repr__(self):
        return str(self)

    def __hash__(self):
        return _hash(self._rep)

    def __eq__(self, other):
        return isinstance(other, Symbol) and bool(_eq(self._rep, other._rep))

    def __lt__(self, other):
        return bool(_lt(self._rep, other._rep))


_mkfun = sig("clingo_symbol_create_function", BOOL, STR, c.POINTER(SYM), SIZE, BOOL, c.POINTER(SYM))
_mknum = sig("clingo_symbol_create_number", None, c.c_int, c.POINTER(SYM))
_mkstr = sig("clingo_symbol_create_string", BOOL, STR, c.POINTER(SYM))
_mkinf = sig("clingo_symbol_create_infimum", None, c.POINTER(SYM))
_mksup = sig("clingo_symbol_create_supremum", None, c.POINTER(SYM))


def Function(name, arguments=(), positive=True):
    ret = SYM()
    arr = (SYM * len(arguments))(*[x._rep for x in arguments])
    handle(_mkfun(name.encode(), arr, len(arguments), positive, c.byref(ret)))
    return Symbol(ret.value)


def Tuple_(arguments):
    return Function("", arguments)


def Number(number):
    ret = SYM()
    _mknum(number, c.byref(ret))
    return Symbol(ret.value)


def String(string):
    ret = SYM()
    handle(_mkstr(string.encode(), c.byref(ret)))
    return Symbol(ret.value)


def _constant(fun):
    ret = SYM()
    fun(c.byref(ret))
    return Symbol(ret.value)


Infimum = _constant(_mkinf)
Supremum = _constant(_mksup)

__getattr__ = _c.missing('symbol')

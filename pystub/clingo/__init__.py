'''
Stand-in for the clingo package, which is not installed here: the subset of
its interface that the clingodl package uses, on top of ctypes.
'''
from . import _c, application, ast, control, script, solving, statistics, symbol, theory
from .application import Application, ApplicationOptions, Flag, clingo_main
from .control import Control
from .solving import Model, SolveHandle, SolveResult
from .statistics import StatisticsMap
from .symbol import Function, Infimum, Number, String, Supremum, Symbol, SymbolType
from .theory import Theory

__getattr__ = _c.missing("clingo")

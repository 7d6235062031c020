'''
Statistics.
'''
from . import _c


class StatisticsMap:
    '''
    A (root) map in the statistics.
    '''
    __getattr__ = _c.missing('StatisticsMap')

    def __init__(self, rep):
        self._rep = rep


__getattr__ = _c.missing('statistics')

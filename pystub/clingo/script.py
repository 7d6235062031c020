'''
Scripts.
'''
from . import _c


def enable_python():
    '''
    Scripts are not supported by the stand-in.
    '''


__getattr__ = _c.missing('script')

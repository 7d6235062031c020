'''
Applications.
'''
import ctypes as c

from . import _c
from ._c import P, BOOL, SIZE, STR, sig, handle, guard
from .control import Control
from .solving import Model

_main = sig("clingo_main", c.c_int, c.POINTER(_c.App), c.POINTER(STR), SIZE, P)
_flag = sig("clingo_options_add_flag", BOOL, P, STR, STR, STR, c.POINTER(BOOL))


class Flag:
    '''
    A flag set by an option.
    '''
    def __init__(self, value=False):
        self._flag = BOOL(value)

    def __bool__(self):
        return self._flag.value

    @property
    def flag(self):
        return self._flag.value


class ApplicationOptions:
    '''
    The options of an application.
    '''
    __getattr__ = _c.missing('ApplicationOptions')

    def __init__(self, rep):
        self._rep = rep

    def add_flag(self, group, option, description, target):
        handle(_flag(self._rep, group.encode(), option.encode(), description.encode(), c.byref(target._flag)))


class Application:
    '''
    Base class of applications.
    '''
    program_name = "clingo"
    version = "1.0"
    message_limit = 20


def clingo_main(app, arguments=()):
    '''
    Run an application.
    '''
    over = lambda name: name in dir(type(app))
    name = c.create_string_buffer(app.program_name.encode())
    version = c.create_string_buffer(app.version.encode())
    keep = []

    def cast(kind, fun):
        keep.append(kind(fun))
        return c.cast(keep[-1], P)

    def main(ctl, files, size, _data):
        app.main(Control(ctl), [files[i].decode() for i in range(size)])

    def printer(model, default, data, _data):
        app.print_model(Model(model), lambda: handle(_c.DEFPRINT_CB(default)(data)))

    ca = _c.App()
    ca.program_name = cast(_c.NAME_CB, lambda _data: c.addressof(name))
    ca.version = cast(_c.NAME_CB, lambda _data: c.addressof(version))
    ca.message_limit = cast(_c.LIMIT_CB, lambda _data: app.message_limit)
    ca.main = cast(_c.MAIN_CB, guard(main))
    if over("print_model"):
        ca.printer = cast(_c.PRINT_CB, guard(printer))
    if over("register_options"):
        ca.register_options = cast(_c.OPTS_CB, guard(lambda opts, _data: app.register_options(ApplicationOptions(opts))))
    if over("validate_options"):
        ca.validate_options = cast(_c.VALID_CB, guard(lambda _data: bool(app.validate_options())))
    args = (STR * len(arguments))(*[x.encode() for x in arguments])
    return _main(c.byref(ca), args, len(arguments), None)


__getattr__ = _c.missing('application')

'''
Low level access to libclingo.
'''
import ctypes as c
import os

lib = c.CDLL(os.environ.get("STUB_CLINGO", "libclingo.so.4"))

P = c.c_void_p
STR = c.c_char_p
SYM = c.c_uint64
BOOL = c.c_bool
SIZE = c.c_size_t


def sig(name, res, *args):
    '''
    Declare a function.
    '''
    fun = getattr(lib, name)
    fun.restype = res
    fun.argtypes = list(args)
    return fun


AST_CB = c.CFUNCTYPE(BOOL, P, P)
MAIN_CB = c.CFUNCTYPE(BOOL, P, c.POINTER(STR), SIZE, P)
NAME_CB = c.CFUNCTYPE(P, P)
LIMIT_CB = c.CFUNCTYPE(c.c_uint, P)
DEFPRINT_CB = c.CFUNCTYPE(BOOL, P)
PRINT_CB = c.CFUNCTYPE(BOOL, P, P, P, P)
OPTS_CB = c.CFUNCTYPE(BOOL, P, P)
VALID_CB = c.CFUNCTYPE(BOOL, P)
EVENT_CB = c.CFUNCTYPE(BOOL, c.c_int, P, P, c.POINTER(BOOL))


class App(c.Structure):
    '''
    Callbacks of an application.
    '''
    _fields_ = [("program_name", P), ("version", P), ("message_limit", P), ("main", P), ("logger", P), ("printer", P),
                ("register_options", P), ("validate_options", P)]


class Part(c.Structure):
    '''
    A program part.
    '''
    _fields_ = [("name", STR), ("params", c.POINTER(SYM)), ("size", SIZE)]


class Missing(Exception):
    '''
    Raised when something not provided by the stand-in is used.
    '''


def missing(name):
    '''
    Function to call for unknown members.
    '''
    def get(*args):
        if args[-1].startswith("_"):
            raise AttributeError(args[-1])
        raise Missing("not provided by the clingo stand-in: {}.{}".format(name, args[-1]))
    return get


error_message = sig("clingo_error_message", STR)
set_error = sig("clingo_set_error", None, c.c_int, STR)

# an exception raised in a callback that is on the way through the library
pending = []


def handle(ret):
    '''
    Translate errors of the library.
    '''
    if not ret:
        if pending:
            raise pending.pop()
        msg = error_message()
        raise RuntimeError(msg.decode() if msg else "no message")


def guard(fun):
    '''
    Let exceptions in callbacks pass through the library.
    '''
    def wrapped(*args):
        try:
            ret = fun(*args)
            return True if ret is None else ret
        except BaseException as e:  # pylint: disable=broad-except
            pending.append(e)
            set_error(1, str(e).encode())
            return False
    return wrapped

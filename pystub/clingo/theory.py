'''
Theories.
'''
from . import _c
from .ast import AST
from .symbol import Symbol


class Theory:
    '''
    Interface to a theory implemented by a library (and accessed through its compiled binding).
    '''
    __getattr__ = _c.missing('Theory')

    def __init__(self, prefix, lib, ffi):
        self._pre = prefix
        self._lib = lib
        self._ffi = ffi
        self._error = None
        ptr = ffi.new(prefix + "_theory_t**")
        self._theory = None
        self._handle("create", ptr)
        self._theory = ptr[0]
        ffi.def_extern(name="py" + prefix + "_rewrite", onerror=self._onerror)(self._on_rewrite)

    def __del__(self):
        if self._theory is not None:
            self._call("destroy", self._theory)
            self._theory = None

    def _call(self, name, *args):
        return getattr(self._lib, self._pre + "_" + name)(*args)

    def _handle(self, name, *args):
        ret = self._call(name, *args)
        err, self._error = self._error, None
        if not ret and err is not None:
            raise err
        _c.handle(ret)

    def _cast(self, kind, rep):
        # objects are passed as addresses
        return self._ffi.cast(kind, rep if isinstance(rep, int) else rep.value)

    @staticmethod
    def _onerror(_kind, exc, _trace):
        _c.set_error(1, str(exc).encode())
        return False

    def _on_rewrite(self, ptr, data):
        try:
            self._ffi.from_handle(data)(AST(int(self._ffi.cast("uintptr_t", ptr))))
        except BaseException as e:  # pylint: disable=broad-except
            self._error = e
            _c.set_error(1, str(e).encode())
            return False
        return True

    def version(self):
        res = [self._ffi.new("int*") for _ in range(3)]
        self._call("version", *res)
        return tuple(x[0] for x in res)

    def configure(self, key, value):
        self._handle("configure", self._theory, key.encode(), value.encode())

    def register(self, control):
        self._handle("register", self._theory, self._cast("clingo_control_t*", control._rep))

    def rewrite_ast(self, stm, add):
        data = self._ffi.new_handle(add)
        self._handle("rewrite_ast", self._theory, self._cast("clingo_ast_t*", stm._rep),
                     getattr(self._lib, "py" + self._pre + "_rewrite"), data)

    def prepare(self, control):
        self._handle("prepare", self._theory, self._cast("clingo_control_t*", control._rep))

    def register_options(self, options):
        self._handle("register_options", self._theory, self._cast("clingo_options_t*", options._rep))

    def validate_options(self):
        self._handle("validate_options", self._theory)

    def on_model(self, model):
        self._handle("on_model", self._theory, self._cast("clingo_model_t*", model._rep))

    def on_statistics(self, step, accu):
        self._handle("on_statistics", self._theory, self._cast("clingo_statistics_t*", step._rep),
                     self._cast("clingo_statistics_t*", accu._rep))

    def lookup_symbol(self, symbol):
        index = self._ffi.new("size_t*")
        return index[0] if self._call("lookup_symbol", self._theory, symbol._rep, index) else None

    def get_symbol(self, index):
        return Symbol(self._call("get_symbol", self._theory, index))

    def has_value(self, thread_id, index):
        return bool(self._call("assignment_has_value", self._theory, thread_id, index))

    def get_value(self, thread_id, index):
        val = self._ffi.new(self._pre + "_value_t*")
        self._call("assignment_get_value", self._theory, thread_id, index, val)
        kind = val.type
        if kind == getattr(self._lib, self._pre + "_value_type_int"):
            return val.int_number
        if kind == getattr(self._lib, self._pre + "_value_type_double"):
            return val.double_number
        if kind == getattr(self._lib, self._pre + "_value_type_symbol"):
            return Symbol(val.symbol)
        raise RuntimeError("unknown type of value {}".format(kind))

    def assignment(self, thread_id):
        index = self._ffi.new("size_t*")
        self._call("assignment_begin", self._theory, thread_id, index)
        while self._call("assignment_next", self._theory, thread_id, index):
            if self.has_value(thread_id, index[0]):
                yield self.get_symbol(index[0]), self.get_value(thread_id, index[0])


__getattr__ = _c.missing('theory')

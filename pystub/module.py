'''
Solve programs given in files step by step using the theory of the clingodl package as a module.

Arguments: package and binding (see run.py), number of options of the control object, these options, number of options
of the theory, keys and values of these options, files with the program part of each step.
'''
import sys

import loader  # pylint: disable=import-error

loader.load()
from clingo.ast import ProgramBuilder, parse_string  # noqa: E402 pylint: disable=all
from clingo.control import Control  # noqa: E402
from clingo.symbol import Function  # noqa: E402
from clingodl import ClingoDLTheory  # noqa: E402


def show(value):
    '''
    Spell a value.
    '''
    return '"{:f}"'.format(value) if isinstance(value, float) else str(value)


def answer(thy, model):
    '''
    Print an answer.
    '''
    print("Answer: {}".format(model.number))
    print(" ".join(sorted(str(x) for x in model.symbols(shown=True))))
    syms = list(thy.assignment(model.thread_id))
    print(" ".join(sorted("{}={}".format(k, show(v)) for k, v in syms)))
    for k, v in syms:
        idx = thy.lookup_symbol(k)
        if idx is None or thy.get_symbol(idx) != k or not thy.has_value(model.thread_id, idx) or \
                thy.get_value(model.thread_id, idx) != v:
            print("Wrong: {}".format(k))
    if thy.lookup_symbol(Function("no_such_variable")) is not None:
        print("Wrong: unknown variable")


def main(args):
    '''
    Run the steps.
    '''
    ncl = int(args[0])
    cl = args[1:1 + ncl]
    ndl = int(args[1 + ncl])
    dl = args[2 + ncl:2 + ncl + 2 * ndl]
    files = args[2 + ncl + 2 * ndl:]
    ctl = Control(cl)
    thy = ClingoDLTheory()
    for key, value in zip(dl[::2], dl[1::2]):
        thy.configure(key, value)
    thy.register(ctl)
    for i, name in enumerate(files):
        with open(name, encoding="utf-8") as f, ProgramBuilder(ctl) as bld:
            parse_string(f.read(), lambda stm: thy.rewrite_ast(stm, bld.add))
        ctl.ground([("base" if i == 0 else "step{}".format(i), [])])
        thy.prepare(ctl)
        if i % 2 == 0:
            with ctl.solve(yield_=True, on_model=thy.on_model) as hnd:
                for model in hnd:
                    answer(thy, model)
                res = hnd.get()
        else:
            def on_model(model):
                thy.on_model(model)
                answer(thy, model)
            res = ctl.solve(on_model=on_model)
        print("Result: {} {}".format(res.satisfiable, res.exhausted))
    # the control object refers to the theory
    del ctl


try:
    main(sys.argv[3:])
except RuntimeError as e:
    sys.stdout.flush()
    print("error: {}".format(e), file=sys.stderr)
    sys.exit(1)

'''
Run the application of the clingodl package (in the directory given first) with a stand-in for the clingo package and
the compiled binding given second.
'''
import runpy
import sys

import loader  # pylint: disable=import-error

loader.load()
sys.argv[:3] = ["clingodl"]
runpy.run_module("clingodl", run_name="__main__")

"""Properties decided by resolution and dataflow over the syntax trees of the whole package."""
from ..program import Program
from ..report import Report

TEXT = {
    'C13': 'name, attribute and signature resolution over the syntax trees of every module, class and function of the package (Python and Cython '
           'sources, and the signatures of the installed libraries) together with a may-be-unassigned dataflow over every function: each read of a '
           'name, module member or instance attribute must resolve, each call must fit the signature of every possible callee, each raised object '
           'must be an exception, each message template must take the arguments given to it',
}
FLOOR = {
    'C13': {'import': 250, 'unbound': 500, 'signature': 1100, 'name': 3500, 'module-attr': 1000, 'attr': 2000, 'self-attr': 3500, 'raise': 450,
            'format': 150, 'unpack': 30},
}


def run(prop):
    rep = Report(prop, 'other', FLOOR[prop])
    prog = Program()
    units = {}
    if prop == 'C13':
        from .names import Lint
        li = Lint(prog, rep)
        li.run()
        units = {'python_modules': len(li.mods), 'classes': len(li.classes), 'cython_sources': li.npyx, 'cython_callables': len(li.nsigs)}
    return rep.finish(TEXT[prop], units=units)

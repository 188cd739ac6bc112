"""property id -> check entry point"""


def _lazy(mod, fn, *a):
    def run():
        m = __import__('qsa.checks.' + mod, fromlist=['x'])
        return getattr(m, fn)(*a)
    return run


CHECKS = {p: _lazy('hamalg', 'run', p) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C15', 'C17', 'C19', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30')}
CHECKS.update({p: _lazy('lints', 'run', p) for p in ('C13',)})

"""Development-time helper: derive the numpy/scipy operand-kind table used by the analyser's library model.
Runs numpy/scipy only (never QuSpin).  Output is frozen in qsa/nptable.json."""
import numpy as np, scipy.sparse as sp, operator, json, warnings
warnings.simplefilter('ignore')
rng = np.random.RandomState(1)
def mk(kind, seed, dt, diag=False):
    r = np.random.RandomState(seed)
    a = r.randn(4, 4)
    if dt == 'c': a = a + 1j * r.randn(4, 4)
    if kind == 'nd': return a
    if kind == 'mat': return np.asmatrix(a)
    if kind == 'v': return a[:, 0].copy()
    return getattr(sp, kind + '_matrix')(a)
def dense(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)
def kind(x):
    if sp.issparse(x): return x.getformat()
    if isinstance(x, np.matrix): return 'mat'
    if isinstance(x, np.ndarray): return 'nd%d' % x.ndim
    return type(x).__name__
def shares(x, y):
    def bufs(z):
        if sp.issparse(z): return [getattr(z, n) for n in ('data',) if hasattr(z, n)]
        return [z] if isinstance(z, np.ndarray) else []
    return any(np.shares_memory(a, b) for a in bufs(x) for b in bufs(y))
kinds = ['nd', 'mat', 'csr', 'csc', 'dia', 'v']
ops = {'+': operator.add, '-': operator.sub, '*': operator.mul, '@': operator.matmul,
       '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, 'dot': lambda a, b: a.dot(b),
       'np.dot': np.dot, 'np.matmul': np.matmul}
T = {}
for dt in 'rc':
  for k1 in kinds:
    for k2 in kinds:
        for on, op in ops.items():
            a = mk(k1, 3, dt); b = mk(k2, 7, dt)
            A, B = dense(a).copy(), dense(b).copy()
            try:
                r = op(a, b)
            except Exception as e:
                T[(dt, k1, on, k2)] = ['raise', type(e).__name__]; continue
            R = dense(r) if hasattr(r, 'shape') else r
            sem = '?'
            def eq(X):
                try: return R.shape == X.shape and np.allclose(R, X)
                except Exception: return False
            try: mm = A @ B
            except Exception: mm = None
            if mm is not None and eq(mm): sem = 'matmul'
            else:
                for nm, f in (('add', operator.add), ('sub', operator.sub), ('had', operator.mul)):
                    try: X = f(A, B)
                    except Exception: continue
                    if eq(X): sem = nm
            T[(dt, k1, on, k2)] = [kind(r), sem, r is a, shares(r, a) and r is not a, shares(r, b)]
    for on, op in {'*s': lambda a: a * 2.5, 's*': lambda a: 2.5 * a, '*=s': lambda a: operator.imul(a, 2.5),
                   '/s': lambda a: a / 2.5, '/=s': lambda a: operator.itruediv(a, 2.5), 'neg': operator.neg,
                   '+0': lambda a: a + 0, '.T': lambda a: a.T, '.transpose': lambda a: a.transpose(),
                   '.conj': lambda a: a.conj(), '.conjugate': lambda a: a.conjugate(), '.H': lambda a: a.H, '.getH': lambda a: a.getH(),
                   '.copy': lambda a: a.copy(), '.astype': lambda a: a.astype(a.dtype), '.astype0': lambda a: a.astype(a.dtype, copy=False),
                   '.toarray': lambda a: a.toarray(), '.todense': lambda a: a.todense(), '.tocsr': lambda a: a.tocsr(),
                   '.tocsc': lambda a: a.tocsc(), 'np.asarray': np.asarray, 'np.asanyarray': np.asanyarray, 'np.array': np.array,
                   'np.asmatrix': np.asmatrix, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'dia': sp.dia_matrix,
                   'np.ascontiguousarray': np.ascontiguousarray, '.diagonal': lambda a: a.diagonal(), '.sum_duplicates': lambda a: a.sum_duplicates(),
                   '.eliminate_zeros': lambda a: a.eliminate_zeros(), '.trace': lambda a: a.trace(), '.data': lambda a: a.data, '.real': lambda a:a.real,
                   '[:]': lambda a: a[:], 'abs': abs, '.ravel': lambda a: a.ravel(), '.sum': lambda a: a.sum(),'.squeeze': lambda a: a.squeeze(),
                   '.multiply': lambda a: a.multiply(a), '*=c': lambda a: operator.imul(a, 1j), '*c': lambda a: a*1j, '**2': lambda a: a**2}.items():
        a = mk(k1, 3, dt)
        try: r = op(a)
        except Exception as e:
            T[(dt, k1, on)] = ['raise', type(e).__name__]; continue
        T[(dt, k1, on)] = [kind(r), r is a, shares(r, a) and r is not a]
if __name__ == '__main__':
    merged = {}
    for k, v in T.items():
        merged.setdefault(' '.join(k[1:]), {})[k[0]] = v
    out = {}
    for k, v in merged.items():
        out[k] = v['r'] if v.get('r') == v.get('c') else v
    json.dump(out, open('/verif/qsa/nptable.json', 'w'), indent=0, sort_keys=True)
    for k in sorted(out): print(k, out[k])

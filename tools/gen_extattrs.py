import json, types, io, functools, collections
import numpy as np, scipy.sparse as sp, scipy.sparse.linalg as sla, scipy.integrate as si
objs = {
 'ndarray': np.ndarray, 'generic': np.generic, 'float64': np.float64, 'complex128': np.complex128, 'dtype': np.dtype, 'matrix': np.matrix, 'finfo': np.finfo(float), 'iinfo': np.iinfo(int), 'flags': np.zeros(1).flags, 'ufunc': np.ufunc,
 'csr': sp.csr_matrix((2,2)), 'csc': sp.csc_matrix((2,2)), 'dia': sp.dia_matrix((2,2)), 'coo': sp.coo_matrix((2,2)), 'bsr': sp.bsr_matrix((2,2)), 'dok': sp.dok_matrix((2,2)), 'lil': sp.lil_matrix((2,2)),
 'LinearOperator': sla.LinearOperator((2,2),matvec=lambda x:x,dtype=float), 'ode': si.ode(lambda t,y:y), 'RandomState': np.random.RandomState(),
 'str': str, 'bytes': bytes, 'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'tuple': tuple, 'int': int, 'float': float, 'complex': complex, 'slice': slice, 'bool': bool,
 'function': lambda: 0, 'method': io.StringIO().read, 'gen': (x for x in ()), 'file': io.TextIOWrapper, 'bfile': io.BufferedRandom, 'exc': Exception, 'module': types, 'type': type, 'range': range, 'defaultdict': collections.defaultdict, 'deque': collections.deque, 'OrderedDict': collections.OrderedDict, 'partial': functools.partial(int), 'memoryview': memoryview, 'property': property,
}
o = si.ode(lambda t,y:y); o.set_integrator('dop853'); objs['ode2'] = o; objs['integr'] = o._integrator
try:
    import joblib; objs['Parallel'] = joblib.Parallel(n_jobs=1)
except Exception: pass
try:
    import numba; 
    @numba.cfunc("int32(int32)")
    def f(x): return x
    objs['CFunc'] = f
except Exception as e: print(e)
import zipfile, multiprocessing as mp
objs.update(zip=zipfile.ZipFile, ev=mp.Event(), proc=mp.Process, q=mp.Queue(), lock=mp.Lock())
names = set()
for k, v in objs.items(): names |= set(dir(v)) | set(getattr(v,'__dict__',{}) or {})
names |= {'ctypes','address','contents','argtypes','restype','value','ffi','func_code','co_argcount','co_varnames','itervalues','iteritems','iterkeys','next','typeinfo','real','imag','data_as','shape_as','strides_as'}
json.dump(sorted(names), open('/verif/qsa/extattrs.json','w'))
print(len(names))
# method signatures, for arity: none

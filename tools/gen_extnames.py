import json, importlib
mods = ['numpy','numpy.linalg','numpy.random','scipy','scipy.linalg','scipy.sparse','scipy.sparse.linalg','scipy.special','scipy.integrate','six','six.moves','itertools','functools','warnings','os','gc','copy','operator','sys','math','collections','time','pickle','multiprocessing','joblib','threading','scipy.interpolate']
out = {}
for m in mods:
    try: out[m] = sorted(n for n in dir(importlib.import_module(m)))
    except Exception as e: print(m, e); continue
import numpy as np
for n in ['asscalar','int','float','complex','bool','object','str','float_','complex_','Inf','mat']:
    try: getattr(np,n); has=True
    except AttributeError: has=False
    if not has and n in out['numpy']: out['numpy'].remove(n)
    if has and n not in out['numpy']: out['numpy'].append(n)
json.dump(out, open('/verif/qsa/extnames.json','w'), sort_keys=True)
print({k:len(v) for k,v in out.items()}, 'asscalar' in out['numpy'], 'int' in out['numpy'])

import json, importlib, inspect
ext = json.load(open('/verif/qsa/extnames.json'))
out = {}
for m in ext:
    if m in ('os','sys','time','warnings','six','six.moves','pickle','gc'): continue
    try: mod = importlib.import_module(m)
    except Exception: continue
    for n in ext[m]:
        try: o = getattr(mod, n)
        except Exception: continue
        if not callable(o): continue
        try: s = inspect.signature(o)
        except Exception: continue
        d = dict(pos=[], po=0, ndef=0, kw=[], star=False, dstar=False)
        for p in s.parameters.values():
            if p.kind == p.VAR_POSITIONAL: d['star'] = True
            elif p.kind == p.VAR_KEYWORD: d['dstar'] = True
            elif p.kind == p.KEYWORD_ONLY: d['kw'].append(p.name)
            else:
                d['pos'].append(p.name)
                if p.kind == p.POSITIONAL_ONLY: d['po'] += 1
                if p.default is not p.empty: d['ndef'] += 1
        if d['star'] and d['dstar'] and not d['pos']: continue
        out[m + '.' + n] = d
json.dump(out, open('/verif/qsa/extsigs.json','w'), sort_keys=True)
print(len(out))

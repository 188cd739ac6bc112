"""Dataflow summaries of small element-wise loop kernels (numba functions): which array elements are read, multiplied and accumulated where.

summary(fn) -> list of effects ('acc'|'set', target, [factors], loops) / ('ret', value, guard, loops) with local names substituted and loop
indices renamed i0, i1, ... ; None when the function uses statements outside this fragment."""
import ast
import copy


class _Sub(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return copy.deepcopy(self.env[n.id])
        return n


def _sub(e, env):
    return ast.fix_missing_locations(_Sub(env).visit(copy.deepcopy(e)))


def factors(e):
    """multiset of factors of a product, or None"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        a, b = factors(e.left), factors(e.right)
        return None if a is None or b is None else a + b
    return [ast.unparse(e)]


def _load(t):
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t


class Bad(Exception):
    pass


def summary(fn):
    out = []
    cnt = [0]

    def block(body, env, loops, guard):
        for k, st in enumerate(body):
            if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t = st.targets[0]
                if isinstance(t, ast.Name):
                    env[t.id] = _sub(st.value, env)
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                    vs = [_sub(v, env) for v in st.value.elts]
                    for x, v in zip(t.elts, vs):
                        if not isinstance(x, ast.Name):
                            raise Bad
                        env[x.id] = v
                elif isinstance(t, ast.Subscript):
                    tt, v = ast.unparse(_sub(_load(t), env)), _sub(st.value, env)
                    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and tt in (ast.unparse(v.left), ast.unparse(v.right)):
                        o = v.right if ast.unparse(v.left) == tt else v.left
                        out.append(('acc', tt, sorted(factors(o)), tuple(loops), guard))
                    else:
                        out.append(('set', tt, sorted(factors(v)), tuple(loops), guard))
                else:
                    raise Bad
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Subscript):
                tt = ast.unparse(_sub(_load(st.target), env))
                v = _sub(st.value, env)
                if isinstance(st.op, ast.Add):
                    out.append(('acc', tt, sorted(factors(v)), tuple(loops), guard))
                elif isinstance(st.op, ast.Sub):
                    out.append(('acc', tt, sorted(factors(v) + ['-1']), tuple(loops), guard))
                else:
                    raise Bad
            elif isinstance(st, ast.For) and not st.orelse and isinstance(st.iter, ast.Call):
                it = st.iter
                f = ast.unparse(it.func)
                e2 = dict(env)
                nm = 'i%d' % cnt[0]
                cnt[0] += 1
                if f.split('.')[-1] in ('range', 'prange', 'xrange') and isinstance(st.target, ast.Name) and len(it.args) == 1:
                    e2[st.target.id] = ast.Name(nm, ast.Load())
                    n = ast.unparse(_sub(it.args[0], env))
                elif f == 'enumerate' and isinstance(st.target, ast.Tuple) and len(it.args) == 1 and len(st.target.elts) == 2 \
                        and all(isinstance(x, ast.Name) for x in st.target.elts):
                    a = _sub(it.args[0], env)
                    e2[st.target.elts[0].id] = ast.Name(nm, ast.Load())
                    e2[st.target.elts[1].id] = ast.Subscript(a, ast.Name(nm, ast.Load()), ast.Load())
                    n = 'len(%s)' % ast.unparse(a)
                elif f == 'zip' and isinstance(st.target, ast.Tuple) and len(it.args) == len(st.target.elts) \
                        and all(isinstance(x, ast.Name) for x in st.target.elts):
                    for x, a in zip(st.target.elts, it.args):
                        e2[x.id] = ast.Subscript(_sub(a, env), ast.Name(nm, ast.Load()), ast.Load())
                    n = 'len(%s)' % ast.unparse(_sub(it.args[0], env))
                else:
                    raise Bad
                block(st.body, e2, loops + [(nm, n)], guard)
            elif isinstance(st, ast.If):
                g = ast.unparse(_sub(st.test, env))
                block(st.body, dict(env), loops, guard + (g,))
                if st.orelse:
                    block(st.orelse, dict(env), loops, guard + ('not (%s)' % g,))
            elif isinstance(st, ast.Return):
                out.append(('ret', ast.unparse(_sub(st.value, env)) if st.value else 'None', [], tuple(loops), guard))
            else:
                raise Bad
    try:
        block(fn.body, {}, [], ())
    except (Bad, RecursionError, TypeError):
        return None
    return out


def _full(n, params, axis=0):
    """does the loop bound n cover the length of one of the arrays `params`?"""
    for p in params:
        if n in ('%s.size' % p, 'len(%s)' % p, '%s.shape[%d]' % (p, axis)):
            return True
    return False


def scatter(fn):
    """OUT[R[i](,j)] (+)= M[i] * IN[C[i](,j)]  ->  dict(out,row,me,inp,col,acc,sign) by parameter name; 'bad' when elements are skipped; None"""
    s = summary(fn)
    if s is None:
        return None
    s = [e for e in s if e[0] != 'ret']
    if len(s) != 1 or s[0][4]:
        return None
    kind, tgt, fac, loops, _ = s[0]
    if not loops:
        return None
    i = loops[0][0]
    j = loops[1][0] if len(loops) > 1 else None

    def split(e):
        try:
            e = ast.parse(e, mode='eval').body
        except SyntaxError:
            return None
        if not isinstance(e, ast.Subscript) or not isinstance(e.value, ast.Name):
            return None
        ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        rest = [ast.unparse(x) for x in ix[1:]]
        if rest not in ([], [':'], [j]):
            return None
        x = ix[0]
        if isinstance(x, ast.Name) and x.id == i:
            return (e.value.id, None)
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and ast.unparse(x.slice) == i:
            return (e.value.id, x.value.id)
        return None
    t = split(tgt)
    sign = 1
    fs = []
    for f in fac:
        if f == '-1':
            sign = -sign
            continue
        x = split(f)
        if x is None:
            return None
        fs.append(x)
    if t is None or t[1] is None:
        return None
    me = [f[0] for f in fs if f[1] is None]
    inp = [f for f in fs if f[1] is not None]
    if len(me) != 1 or len(inp) > 1:
        return None
    arrs = {t[1], me[0]} | {f[1] for f in inp}
    if not _full(loops[0][1], arrs):
        return 'bad' if loops[0][1].isdigit() or any(loops[0][1].startswith(p) for p in arrs) else None
    return dict(out=t[0], row=t[1], me=me[0], inp=inp[0][0] if inp else None, col=inp[0][1] if inp else None, acc=kind == 'acc', sign=sign)


def allequal(fn):
    """(a, b, value when every a[i]==b[i], value otherwise) of a comparison loop; None"""
    s = summary(fn)
    if s is None:
        return None
    if len(s) == 1 and s[0][0] == 'ret' and not s[0][4] and not s[0][3]:
        try:
            e = ast.parse(s[0][1], mode='eval').body
        except SyntaxError:
            return None
        if isinstance(e, ast.Call) and ast.unparse(e.func).split('.')[-1] == 'array_equal' and len(e.args) == 2:
            return (ast.unparse(e.args[0]), ast.unparse(e.args[1]), True, False)
        return None
    if len(s) == 2 and s[0][0] == s[1][0] == 'ret' and len(s[0][3]) == 1 and len(s[0][4]) == 1 and not s[1][3] and not s[1][4]:
        try:
            g = ast.parse(s[0][4][0], mode='eval').body
            v = ast.literal_eval(s[0][1]), ast.literal_eval(s[1][1])
        except (SyntaxError, ValueError):
            return None
        if isinstance(g, ast.UnaryOp) and isinstance(g.op, ast.Not) and isinstance(g.operand, ast.Compare):
            g = g.operand
            neq = isinstance(g.ops[0], ast.Eq)
        elif isinstance(g, ast.Compare):
            neq = isinstance(g.ops[0], ast.NotEq)
        else:
            return None
        if len(g.ops) != 1 or not isinstance(g.ops[0], (ast.Eq, ast.NotEq)):
            return None
        i = s[0][3][0][0]
        ab = []
        for x in (g.left, g.comparators[0]):
            if not (isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and ast.unparse(x.slice) == i):
                return None
            ab.append(x.value.id)
        if not neq or not _full(s[0][3][0][1], ab):
            return None
        return (ab[0], ab[1], v[1], v[0])
    return None

"""Parallel evaluation of obligation families and mapping of clauses to properties."""
import multiprocessing
import os
import sys
import traceback
from .interp import COV

_G = {}


def settle(rows):
    """rows of one scenario, with ('@', unsure) markers in front of every abstract outcome: a violation seen only on partitions
    whose feasibility the analysis cannot determine is not reported"""
    parts, cur = [], None
    for r in rows:
        if r[0] == '@':
            cur = [bool(r[1]), []]
            parts.append(cur)
        else:
            if cur is None:
                cur = [False, []]
                parts.append(cur)
            cur[1].append(r)
    clauses = {r[0] for _, rs in parts for r in rs}
    everywhere = {c for c in clauses if all(any(r[0] == c and r[1] == 'violated' for r in rs) for _, rs in parts if rs)}
    for unsure, rs in parts:
        for r in rs:
            if r[1] == 'violated' and unsure and r[0] not in everywhere:
                yield (r[0], 'undecided', 'undetermined branch: ' + str(r[2]), '', None)
            else:
                yield r


def _work(i):
    prog, items, fn = _G['prog'], _G['items'], _G['fn']
    COV.clear()
    try:
        return i, list(fn(prog, items[i])), None, sorted(COV)
    except Exception:
        return i, [], traceback.format_exc(), sorted(COV)


def run_items(prog, items, fn):
    """fn(prog,item) yields (rule, construct, verdict, outcome, msg, loc)"""
    _G.update(prog=prog, items=items, fn=fn)
    n = min(8, os.cpu_count() or 1, max(1, len(items)))
    out = [None] * len(items)
    errs = []
    cov = set()
    if n == 1 or os.environ.get('QSA_SERIAL'):
        res = map(_work, range(len(items)))
        for i, r, e, cv in list(res):
            out[i] = r
            cov.update(cv)
            if e:
                errs.append((i, e))
    else:
        sys.setrecursionlimit(20000)
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(n) as pool:
            for i, r, e, cv in pool.imap_unordered(_work, range(len(items)), chunksize=4 if len(items) > 250 else 1):
                out[i] = r
                cov.update(cv)
                if e:
                    errs.append((i, e))
    return [x for r in out for x in (r or [])], errs, sorted(cov)


def feed(rep, results, rules=None):
    for rule, construct, verdict, outcome, msg, loc in results:
        if rules is not None and rule not in rules:
            continue
        if verdict == 'held':
            rep.hold(rule, construct, msg)
        elif verdict == 'undecided':
            rep.undecided(rule, construct, outcome)
        else:
            rep.violate(rule, construct, outcome, msg, loc)

"""Recursive specification functions: uninterpreted symbols whose defining equations (and separately proved lemmas)
are instantiated at the terms that occur in a query."""
import z3
from .sym import *

REC = {}
class Rec:
    """name(args): ret, with definition body(*args) and facts(*args) -> [Bool]"""
    def __init__(s, name, args, ret, body=None, facts=None, length=None, rng=None, depth=2):
        s.name = name; s.f = z3.Function(name, *args, ret); s.body = body; s.facts = facts; s.depth = depth
        REC[name] = s
        if length: LEN_OF[name] = length
        if rng: UFRANGE[name] = rng
        s.length = length
    def __call__(s, *a):
        return s.f(*[iv(x) if isinstance(x, int) else x for x in a])

def apps(e, seen, out):
    stack = [e]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(x): continue
        if not z3.is_app(x): continue
        if x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in REC: out.append(x)
            stack.extend(x.children())

def instances(terms, maxdepth=None):
    """defining equations and facts for the applications of recursive functions in terms"""
    seen = set(); inst = []; done = set(); keep = []
    front = []
    for t in terms: apps(t, seen, front)
    level = 0
    while front and level < 6:
        nxt = []
        for a in front:
            r = REC[a.decl().name()]
            key = a.get_id()
            if key in done: continue
            done.add(key); keep.append(a)
            args = a.children(); new = []
            if r.length is not None: new.append(z3.Length(a) == r.length(*args))
            if level < (r.depth if maxdepth is None else min(maxdepth, r.depth)):
                if r.body is not None:
                    b = r.body(*args)
                    if b is not None: new.append(a == b)
                if r.facts is not None: new += r.facts(*args)
            for x in new:
                inst.append(x); keep.append(x)
                apps(x, seen, nxt)
        front = nxt; level += 1
    return inst + all_pairs(keep)

def pair_facts(x, y):
    """what two searches for byte sets in the same string say about each other"""
    A = bytes.fromhex(x.decl().name()[4:]); B = bytes.fromhex(y.decl().name()[4:])
    i = x.arg(1); j = y.arg(1); out = []
    def sub_(a, ai, b, bi):      # set of a within set of b
        out.append(z3.Implies(z3.And(bi >= 0, bi <= ai, a >= 0), z3.And(b >= 0, b <= a)))
    if set(A) <= set(B): sub_(x, i, y, j)
    if set(B) <= set(A): sub_(y, j, x, i)
    if set(A) == set(B): out += [z3.Implies(z3.And(j >= 0, j <= i, y >= i), x == y), z3.Implies(z3.And(i >= 0, i <= j, x >= j), x == y)]
    if not set(A) & set(B): out.append(z3.Implies(z3.And(x >= 0, y >= 0), x != y))
    return out
def is_search(x): return x.num_args() == 2 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('FOF_')
def all_pairs(apps_):
    fs = [a for a in apps_ if is_search(a)]; out = []
    for k, a in enumerate(fs[:14]):
        for b in fs[:k]:
            if a.arg(0).eq(b.arg(0)) and not a.eq(b): out += pair_facts(a, b)
    return out

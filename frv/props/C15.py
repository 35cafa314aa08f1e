"""C15: URL::parse splits a URL into the right parts."""
from ..sym import *
from ..contract import *
from .. import lib
from .C25 import SCHEMES
DELIM = b'#/?'; PORTS = {0: b'80', 1: b'443', 2: b'21', 4: b'6697', 5: b'22'}
I0 = z3.IntVal(0)
def tail(s, i): return sub(s, i, z3.Length(s) - i)
def fo(s, i, cs=DELIM):
    """first position from i on of one of the characters, the length of s if there is none"""
    r = lib.FOF(bytes(sorted(cs)))(s, i)
    return z3.If(r < 0, z3.Length(s), r)
class Spec:
    """the parts of a URL, as terms over the string u"""
    def __init__(S, u):
        L = z3.Length(u); sp = lib.FIND(b'://')(u, I0)
        S.has_scheme = z3.And(sp >= 0, sp < fo(u, I0))
        S.scheme = z3.If(S.has_scheme, table({k: z3.IntVal(v) for k, v in SCHEMES.items()}, lib.lower(sub(u, 0, sp)), z3.IntVal(6)), z3.IntVal(6))
        a = z3.If(S.has_scheme, sp + 3, z3.IntVal(0)); S.a = a               # where the authority starts
        e = fo(u, a); S.e = e                                                # where it ends
        c = lib.FOF(b':')(u, a); S.c = c
        S.has_port = z3.And(c >= 0, c < e)
        S.only_path = z3.And(z3.Not(S.has_scheme), z3.Not(S.has_port), e == L)   # none of the delimiters
        S.host = z3.If(S.has_port, sub(u, a, c - a), z3.If(S.only_path, lit(b''), sub(u, a, e - a)))
        d = lit(b'')
        for k, v in PORTS.items(): d = z3.If(S.scheme == k, lit(v), d)
        S.port = z3.If(S.has_port, sub(u, c + 1, e - c - 1), d)
        ps = z3.If(S.only_path, I0, e)
        q = fo(u, ps, b'?#'); h = fo(u, q, b'#')
        p = sub(u, ps, q - ps)
        S.path = z3.If(z3.Or(z3.Length(p) == 0, p[0] == z3.BitVecVal(47, 8)), p, z3.Concat(lit(b'/'), p))
        S.query = z3.If(h > q, sub(u, q + 1, h - q - 1), lit(b''))
        S.fragment = z3.If(h < L, sub(u, h + 1, L - h - 1), lit(b''))
FIELDS = ('scheme', 'host', 'port', 'path', 'query', 'fragment')
def post(o, n, a, r, k):
    S = Spec(o.str(a[1])); out = []
    for f in FIELDS:
        v = n.f(a[0], 'URL', f)
        out.append((f'{f} is exactly that part of the string', v.int() == S.scheme if f == 'scheme' else v == getattr(S, f)))
    return out
def jobs():
    def setup(ex, st):
        u = sym_obj(ex, st, 'URL'); return [u, fresh_str(ex, st, 'url')]
    def setup_new(ex, st): return [Ptr(ex.new_obj(st, ex.di.size('URL'), 'url_obj'), 0), fresh_str(ex, st, 'url')]
    def mods(v, a):
        return [v.fld(a[0], 'URL', f) for f in FIELDS]
    return [Job('parse', r'fr::URL::parse\(string const&\)', setup, post, modifies=mods),
            Job('constructor', r'fr::URL::URL\(string const&\)', setup_new, post, modifies=mods)]

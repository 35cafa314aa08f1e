"""C25: name lookups."""
import os, re
from ..sym import *
from ..contract import *
from .. import lib
from ..llir import PTR
HERE = os.path.dirname(os.path.abspath(__file__))
METHODS = [b'GET', b'POST', b'PUT', b'DELETE', b'PATCH']
ENCS = {b'none': 0, b'chunked': 1, b'compress': 2, b'deflate': 3, b'gzip': 4, b'identity': 5}
SCHEMES = {b'http': 0, b'https': 1, b'ftp': 2, b'mailto': 3, b'irc': 4, b'sftp': 5, b'unknown': 6}
def mime():
    t = open(os.path.join(HERE, '..', '..', 'mon', 'mime_table.h')).read()
    un = lambda x: x.encode().decode('unicode_escape').encode('latin1')
    return {un(a): lit(un(b)) for a, b in re.findall(r'^\{"((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)"\},$', t, re.M)}
def strarg(ex, st, h='s'): return fresh_str(ex, st, h)
def method_of(s):
    e = z3.IntVal(6)
    for m in METHODS: e = z3.If(z3.And(z3.Length(s) < len(m), z3.PrefixOf(s, lit(m))), z3.IntVal(7), e)
    for i, m in reversed(list(enumerate(METHODS))): e = z3.If(z3.PrefixOf(lit(m), s), z3.IntVal(i), e)
    return e
def lemmas():
    return [(f'the name of method {i} converts back to it', [], method_of(lit(m)) == i) for i, m in enumerate(METHODS)] + \
      [(f'the name of {w} {i} converts back to it', [], table({k: z3.IntVal(v) for k, v in T.items()}, lit(n), z3.IntVal(d)) == i) for w, T, d in (('encoding', ENCS, 0), ('scheme', SCHEMES, 6)) for n, i in T.items()]
def jobs():
    out = []
    for i, n in enumerate(METHODS):
        out.append(Job(f'request_type_to_string {n.decode()}', r'fr::Http::request_type_to_string\(fr::Http::RequestType\)', lambda ex, st, i=i: [raw_str(ex, st), K(32, i)],
            lambda o, nw, a, r, k, n=n: [('the name of the method', nw.str(a[0]) == lit(n))], modifies=lambda v, a: [a[0]]))
    def su(ex, st):
        x = z3.BitVec('type', 32); st.assume(z3.UGE(x, 5)); return [raw_str(ex, st), IV(32, b=x)]
    out.append(Job('request_type_to_string of no method', r'fr::Http::request_type_to_string\(fr::Http::RequestType\)', su,
        lambda o, nw, a, r, k: [('not the name of a method', z3.And([nw.str(a[0]) != lit(m) for m in METHODS]))], modifies=lambda v, a: [a[0]],
        pre=lambda v, a: [('a value of the enumeration (not negative)', a[1].bv() >= 0)]))
    def post_m(o, nw, a, r, k):
        e = method_of(o.str(a[0]))
        return [('the method whose name begins the string, partial if the string begins a name, else unknown', r.int() == e)]
    out.append(Job('string_to_request_type', r'fr::Http::string_to_request_type\(string const&\)', lambda ex, st: [strarg(ex, st)], post_m))
    def post_e(o, nw, a, r, k):
        return [('the encoding with that name, none for others', r.int() == table({k: z3.IntVal(v) for k, v in ENCS.items()}, lib.lower(o.str(a[0])), z3.IntVal(0)))]
    out.append(Job('string_to_transfer_encoding', r'fr::Http::string_to_transfer_encoding\(string\)', lambda ex, st: [strarg(ex, st)], post_e, modifies=lambda v, a: [a[0]]))
    def post_s(o, nw, a, r, k):
        return [('the scheme with that name in any case, unknown for others', r.int() == table({k: z3.IntVal(v) for k, v in SCHEMES.items()}, lib.lower(o.str(a[0])), z3.IntVal(6)))]
    out.append(Job('string_to_scheme', r'fr::URL::string_to_scheme\(string const&\)', lambda ex, st: [strarg(ex, st)], post_s))
    for n, i in SCHEMES.items():
        def post_n(o, nw, a, r, k, n=n): return [('the name of the scheme', nw.str(r) == lit(n))]
        out.append(Job(f'scheme_to_string {n.decode()}', r'fr::URL::scheme_to_string\(fr::URL::Scheme\)', lambda ex, st, i=i: [K(32, i)], post_n))
    def post_x(o, nw, a, r, k): return [('an unknown value gives no name', k != 'ret' or z3.And([nw.str(r) != lit(x) for x in SCHEMES if x != b'unknown']))]
    def su2(ex, st):
        x = z3.BitVec('scheme', 32); st.assume(z3.UGE(x, 7)); return [IV(32, b=x)]
    out.append(Job('scheme_to_string of no scheme', r'fr::URL::scheme_to_string\(fr::URL::Scheme\)', su2, post_x, throws=('std::logic_error',)))
    M = mime(); dflt = lit(b'application/octet-stream')
    def post_t(o, nw, a, r, k):
        f = o.str(a[0]); d = lib.FLAST(46)(f)
        return [('with an extension: the listed type of the text from the last dot, else generic binary', z3.Implies(d >= 0, nw.str(r) == table(M, sub(f, d, z3.Length(f) - d), dflt))),
                ('without a dot: the listed type of the whole name as extension, else generic binary', z3.Implies(d < 0, nw.str(r) == table(M, z3.Concat(lit(b'.'), f), dflt)))]
    out.append(Job('get_mimetype', r'fr::Http::get_mimetype\(string const&\)', lambda ex, st: [strarg(ex, st)], post_t))
    return out

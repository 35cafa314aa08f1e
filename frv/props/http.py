"""Shared specification of the HTTP parsers: their decision logic over the accumulated bytes R = body ++ data."""
from ..sym import *
from ..spec import Rec
from ..contract import *
from .. import lib
from .C25 import method_of, METHODS
I_ = z3.IntSort(); I0 = z3.IntVal(0)
MAXH = 0xC800; MAXB = 0xA00000
OK, MORE, PERR, HBIG, BBIG = 1, 11, 12, 13, 14
PARSED = ('header_data', 'get_data', 'transfer_encodings', 'request_type', 'uri', 'status', 'version', 'content_length')
# what parsing the header text gives, named: these stand for the expressions of class Head (below), against which the parse_header functions are verified
BOOL = z3.BoolSort(); DOM = z3.ArraySort(SEQ, BOOL); VAL = z3.ArraySort(SEQ, SEQ); ENCSET = z3.ArraySort(z3.BitVecSort(32), BOOL); B32 = z3.BitVecSort(32)
HF = {}
def named(n, ret, *args):
    n = 'HEAD_' + n + ''.join('_b' if a.sort() == BOOL else '' for a in args)
    if n not in HF: HF[n] = z3.Function(n, *[a.sort() for a in args], ret)
    return HF[n](*args)
UFRANGE['HEAD_length'] = (0, (1 << 64)-1)
class Parsed:
    """the members after parsing the header text R, given the members before"""
    def __init__(S, cls, R, o, p):
        g = lambda m: o.f(p, cls, m); h = g('header_data'); t = 'q' if cls == 'HttpRequest' else 's'
        S.ok = named('ok_'+t, BOOL, R, h.dom, h.val); S.len = named('length', I_, R, h.dom, h.val, g('content_length').int())
        S.m = {'header_data': (named('names', DOM, R, h.dom), named('values', VAL, R, h.dom, h.val)), 'transfer_encodings': (named('encodings', ENCSET, R, g('transfer_encodings').dom),), 'content_length': S.len, 'version': named('version_'+t, B32, R)}
        if cls == 'HttpRequest':
            q = g('get_data'); S.type = named('type', B32, R)
            S.m.update(request_type=S.type, get_data=(named('query_names', DOM, R, q.dom), named('query_values', VAL, R, q.dom, q.val)), uri=named('uri', SEQ, R, g('uri')))
        else: S.m.update(status=named('status', B32, R))
    def eqs(S, n, p):
        return [(m.replace('_', ' '), same_as(n.f(p, S.cls, m), x)) for m, x in S.m.items()]
def same_as(v, x):
    if isinstance(x, tuple): return z3.And(v.dom == x[0], v.val == x[1]) if len(x) > 1 else v.dom == x[0]
    if x.sort() == I_: return v.int() == x
    if isinstance(v, IV): return v.bv() == x
    return v == x
def kept(o, n, p, cls, ms):
    """the members are as before"""
    out = []
    for m in ms:
        a, b = o.f(p, cls, m), n.f(p, cls, m)
        if isinstance(a, Map): out += [a.dom == b.dom] + ([] if a.val is None else [a.val == b.val])
        elif isinstance(a, IV): out.append(a.int() == b.int() if a.isint() or b.isint() else a.bv() == b.bv())
        else: out.append(a == b)
    return z3.And(*out)
def f(v, p, n, cls): return v.f(p, cls, n)
def hend(R):
    """(found, position of the blank line, its length)"""
    c, l = lib.FIND(b'\r\n\r\n')(R, I0), lib.FIND(b'\n\n')(R, I0)
    lf = z3.And(l >= 0, z3.Or(c < 0, l < c))
    return z3.Or(c >= 0, l >= 0), z3.If(lf, l, c), z3.If(lf, iv(2), iv(4))
def norm_of(ex, rx):
    import re
    return next(d for d in ex.m.by_norm if re.fullmatch(rx, d))
def hmods(cls): return [m for m in PARSED if not (cls == 'HttpRequest' and m == 'status') and not (cls == 'HttpResponse' and m in ('get_data', 'request_type', 'uri'))]
def header_contract(ex, cls):
    def post(o, n, a, r, k):
        P = Parsed(cls, sub(o.f(a[0], cls, 'body'), 0, a[1].int()), o, a[0])
        if z3.is_false(r.e()): return [('', z3.Not(P.ok))]
        return [('', P.ok)] + [(m, same_as(n.f(a[0], cls, m), x)) for m, x in P.m.items()]
    return Contract(norm_of(ex, r'fr::%s::parse_header\(.*\)' % cls), post, modifies=lambda v, a: [v.fld(a[0], cls, m) for m in hmods(cls)], ret='i1', cases=True)
def chunked(v, p): return z3.Select(v.f(p, 'HttpResponse', 'transfer_encodings').dom, z3.BitVecVal(1, 32))
def type_contract(ex):
    return Contract(norm_of(ex, r'fr::Http::string_to_request_type\(string const&\)'), lambda o, n, a, r, k: [('', r.int() == method_of(o.str(a[0])))], ret='enum')
def form(b, p): return named('post_names', DOM, b, p.dom), named('post_values', VAL, b, p.val)
def form_named(o, n, a, r, k):
    p = n.f(a[0], 'HttpRequest', 'post_data'); d, v = form(o.f(a[0], 'HttpRequest', 'body'), o.f(a[0], 'HttpRequest', 'post_data')); return [('', p.dom == d), ('', p.val == v)]
def post_contract(ex):
    return Contract(norm_of(ex, r'fr::HttpRequest::parse_post_body\(\)'), form_named, modifies=lambda v, a: [v.fld(a[0], 'HttpRequest', 'post_data')])
def prep(cls):
    def p(ex, st):
        for c in [header_contract(ex, cls)] + ([type_contract(ex), post_contract(ex)] if cls == 'HttpRequest' else []): ex.contracts[c.norm] = c
    return p
def setup(cls, ctx, ended):
    def s(ex, st):
        p = sym_obj(ex, st, cls, 'message', intmode=('content_length', 'chunk_offset')); v = View(ex, st)
        n = fresh_int('n', 0, SYMLEN); st.assume(range_fact(n)); b, q = sym_buf(ex, st, n, 'data')
        e = v.f(p, cls, 'header_ended').bv(); st.assume(e == (1 if ended else 0))
        ctx.update(R=cat(v.f(p, cls, 'body'), q), body0=v.f(p, cls, 'body'), cl0=v.f(p, cls, 'content_length').int())
        return [p, b, IV(64, i=n)]
    return s
def req_status(R, ok, cl):
    """status of a request in its header phase; ok and cl: what the header text says"""
    fnd, h, w = hend(R); L = z3.Length(R); bad = z3.And(L > 0, method_of(R) == 6); big = z3.Or(z3.And(z3.Not(fnd), L > MAXH + 3), z3.And(fnd, h > MAXH))
    return z3.If(bad, iv(PERR), z3.If(big, iv(HBIG), z3.If(z3.Not(fnd), iv(MORE), z3.If(z3.Not(ok), iv(PERR), body_status(L - h - w, cl)))))
def body_status(N, cl): return z3.If(N > MAXB, iv(BBIG), z3.If(N >= cl, iv(OK), iv(MORE)))
def not_resp(R): return z3.And(z3.Length(R) >= 4, z3.Not(z3.And(*[R[i] == c for i, c in enumerate(b'HTTP')])))
def res_status(R, ok, cl, ch):
    fnd, h, w = hend(R); L = z3.Length(R); big = z3.Or(z3.And(z3.Not(fnd), L > MAXH + 3), z3.And(fnd, h > MAXH)); rest = sub(R, h + w, L - h - w)
    return z3.If(not_resp(R), iv(PERR), z3.If(big, iv(HBIG), z3.If(z3.Not(fnd), iv(MORE), z3.If(z3.Not(ok), iv(PERR), z3.If(ch, CST(rest, I0), body_status(L - h - w, cl))))))
def req_post(ctx, ended):
    C = 'HttpRequest'
    def post(o, n, a, r, k):
        R = ctx['R']; s = r.int(); b1 = n.f(a[0], C, 'body'); e1 = n.f(a[0], C, 'header_ended').bv() == 1; L = z3.Length(R)
        if not ended:
            fnd, h, w = hend(R); H = sub(R, 0, h); rest = sub(R, h + w, L - h - w); P = Parsed(C, H, o, a[0]); cl = P.len
            bad = z3.And(L > 0, method_of(R) == 6); big = z3.Or(z3.And(z3.Not(fnd), L > MAXH + 3), z3.And(fnd, h > MAXH))
            out = [('what does not begin like a request is a parse error', z3.Implies(bad, s == PERR)),
                   ('a header over the limit is rejected for its size', z3.Implies(z3.And(big, z3.Not(bad)), s == HBIG)),
                   ('only a header over the limit is rejected for its size', z3.Implies(s == HBIG, big)),
                   ('an unfinished header asks for more data', z3.Implies(z3.And(z3.Not(bad), z3.Not(big), z3.Not(fnd)), s == MORE)),
                   ('a header which cannot be parsed is a parse error', z3.Implies(z3.And(z3.Not(bad), z3.Not(big), fnd, z3.Not(P.ok)), s == PERR)),
                   ('while the header is unfinished the bytes are only accumulated', z3.Implies(z3.And(s == MORE, z3.Not(fnd)), z3.And(b1 == R, z3.Not(e1)))),
                   ('and nothing else is touched', z3.Implies(z3.And(s == MORE, z3.Not(fnd)), kept(o, n, a[0], C, hmods(C) + ['post_data'])))]
            good = z3.And(z3.Not(bad), z3.Not(big), fnd, P.ok); ty = P.type
        else:
            rest = R; cl = ctx['cl0']; ty = o.f(a[0], C, 'request_type').bv(); good = z3.BoolVal(True); out = [('the header stays parsed', e1), ('what the header said stays', kept(o, n, a[0], C, hmods(C)))]
        out.append(('the status is the specified one', s == (body_status(z3.Length(R), cl) if ended else req_status(R, P.ok, cl))))
        N = z3.Length(rest); done = z3.Or(s == OK, z3.And(s == MORE, good)); p0, p1 = o.f(a[0], C, 'post_data'), n.f(a[0], C, 'post_data')
        if not ended: out += [('the %s is what the header says' % m.replace('_', ' '), z3.Implies(done, same_as(n.f(a[0], C, m), x))) for m, x in P.m.items()]
        fd, fv = form(rest, p0); post_ = z3.And(s == OK, ty == 1)
        out += [('posted variables are read from the whole body of a POST request', z3.Implies(post_, z3.And(p1.dom == fd, p1.val == fv))), ('and otherwise left alone', z3.Implies(z3.And(done, z3.Not(post_)), kept(o, n, a[0], C, ['post_data'])))]
        return out + [('a body over the limit is rejected for its size', z3.Implies(z3.And(good, N > MAXB), s == BBIG)),
                ('only a body over the limit is rejected for its size', z3.Implies(s == BBIG, z3.And(good, N > MAXB))),
                ('complete exactly when the announced length has arrived', z3.Implies(z3.And(good, N <= MAXB), s == z3.If(N >= cl, OK, MORE))),
                ('the body is what follows the blank line', z3.Implies(z3.Or(s == OK, z3.And(s == MORE, good)), z3.And(b1 == rest, e1))),
                ('no other status', z3.Or(*[s == x for x in (OK, MORE, PERR, HBIG, BBIG)])), ('never complete with a bad header', z3.Implies(s == OK, good))]
    return post
RMOD = ('body', 'header_ended', 'post_data') + tuple(m for m in PARSED if m != 'status')
def pick(post, want): return post if want is None else lambda *x: [t for t in post(*x) if any(w in t[0] for w in want)]
LIMITS = ('status', 'limit', 'asks for more', 'for its size', 'accumulated', 'announced length has', 'parse error', 'offset', 'past the header', 'header stays', 'header said', 'bad header')
HOSTILE = ('status', 'parse error', 'bad header', 'header stays', 'past the header')
CHUNKS = ('status', 'chunk', 'accumulated', 'past the header', 'header stays', 'header said', 'bad header', 'the transfer encodings')
def req_jobs(want=None):
    out = []
    for ended in (False, True):
        ctx = {}
        mods = RMOD if not ended else ('body', 'post_data')
        out.append(Job('request parse (%s)' % ('body phase' if ended else 'header phase'), r'fr::HttpRequest::parse\(char const\*, unsigned long\)', setup('HttpRequest', ctx, ended), pick(req_post(ctx, ended), want),
            modifies=lambda v, a, mods=mods: [v.fld(a[0], 'HttpRequest', m) for m in mods], prep=prep('HttpRequest'), loops={'*': {'noterm': True}}))
    return out
# ------------------------------------------------------------------ responses
def isx(c): return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))
def chunk(b, o):
    """the chunk at position o of b: (case conditions, size, position of the end of its size line)"""
    L = z3.Length(b); e = lib.FIND(b'\r\n')(b, o); h = sub(b, o, e - o); n = lib.STOV('u', 16)(h); ok = lib.STOK('u', 16)(h) == 0
    none = o >= L; junk = z3.And(z3.Not(none), z3.Or(z3.Not(isx(b[o])), z3.If(e < 0, L - 1, e) - o > MAXH))
    open_ = z3.And(z3.Not(none), z3.Not(junk), e < 0); bad = z3.And(z3.Not(none), z3.Not(junk), e >= 0, z3.Not(ok))
    sized = z3.And(z3.Not(none), z3.Not(junk), e >= 0, ok); big = z3.And(sized, z3.Or(n > MAXB, o + n > MAXB))
    part = z3.And(sized, z3.Not(big), L - e < n + 4); full = z3.And(sized, z3.Not(big), L - e >= n + 4)
    return dict(err=z3.Or(junk, bad), big=big, more=z3.Or(none, open_, part), full=full, n=n, e=e)
def after(b, o, c): return cat(sub(b, 0, o), sub(b, c['e'] + 2, c['n']), sub(b, c['e'] + c['n'] + 4, z3.Length(b) - c['e'] - c['n'] - 4))
def _cst(b, o):
    c = chunk(b, o); return z3.If(c['err'], iv(PERR), z3.If(c['big'], iv(BBIG), z3.If(c['more'], iv(MORE), z3.If(c['n'] == 0, iv(OK), CST(after(b, o, c), z3.simplify(o + c['n']))))))
def _cb(b, o):
    c = chunk(b, o); return z3.If(c['full'], z3.If(c['n'] == 0, sub(b, 0, o), CB(after(b, o, c), z3.simplify(o + c['n']))), b)
def _co(b, o):
    c = chunk(b, o); return z3.If(z3.And(c['full'], c['n'] != 0), CO(after(b, o, c), z3.simplify(o + c['n'])), o)
CST = Rec('CHUNKS_STATUS', [SEQ, I_], I_, body=_cst, depth=1, rng=(0, 21)); CB = Rec('CHUNKS_BODY', [SEQ, I_], SEQ, body=_cb, depth=1); CO = Rec('CHUNKS_END', [SEQ, I_], I_, body=_co, depth=1, rng=(0, MAXLEN))
def chunk_cands(l):
    out = []
    for q in l.strs(mod=True):
        vs = l.ints(mod=True, w=(64,)); vs = [v for v in vs if not v.frame] or vs     # the position is a member, if one is modified
        for v in vs:
            b0, o0 = q.seq(l.st0), v.int(l.st0)
            if o0 is None: continue
            out.append((f'{v} is within {q}', lambda S, q=q, v=v: None if v.int(S) is None else v.int(S) <= z3.Length(q.seq(S))))
            out.append((f'{v} is within the body limit', lambda S, v=v: None if v.int(S) is None else v.int(S) <= MAXB))
            for c in l.ints(mod=True, w=(64,)):
                if c is v: continue
                def g(S, q=q, v=v, c=c, b0=b0, o0=o0):
                    b, o, n = q.seq(S), v.int(S), c.int(S)
                    if o is None or n is None: return None
                    return z3.If(n == 0, z3.And(CST(b0, o0) == OK, CB(b0, o0) == sub(b, 0, o)), z3.And(CST(b0, o0) == CST(b, o), CB(b0, o0) == CB(b, o), CO(b0, o0) == CO(b, o)))
                out.append((f'decoding {q} from {v} on completes the decoding, unless {c} is 0 and it is complete', g))
    return out
def chunk_measure(l):
    return [(f'bytes of {q} from {v} on', lambda S, q=q, v=v: None if v.int(S) is None else z3.Length(q.seq(S)) - v.int(S)) for q in l.strs(mod=True) for v in l.ints(mod=True, w=(64,)) if not v.frame]
def res_post(ctx, ended):
    C = 'HttpResponse'
    def post(o, n, a, r, k):
        R = ctx['R']; s = r.int(); b1 = n.f(a[0], C, 'body'); e1 = n.f(a[0], C, 'header_ended').bv() == 1; L = z3.Length(R); off1 = n.f(a[0], C, 'chunk_offset').int()
        if not ended:
            fnd, h, w = hend(R); H = sub(R, 0, h); rest = sub(R, h + w, L - h - w); P = Parsed(C, H, o, a[0]); cl = P.len; ch = z3.Select(P.m['transfer_encodings'][0], z3.BitVecVal(1, 32)); o0 = I0
            bad = z3.And(L >= 4, z3.Not(z3.And(*[R[i] == c for i, c in enumerate(b'HTTP')]))); big = z3.Or(z3.And(z3.Not(fnd), L > MAXH + 3), z3.And(fnd, h > MAXH))
            out = [('what does not begin like a response is a parse error', z3.Implies(bad, s == PERR)),
                   ('a header over the limit is rejected for its size', z3.Implies(z3.And(big, z3.Not(bad)), s == HBIG)),
                   ('only a header over the limit is rejected for its size', z3.Implies(s == HBIG, big)),
                   ('an unfinished header asks for more data', z3.Implies(z3.And(z3.Not(bad), z3.Not(big), z3.Not(fnd)), s == MORE)),
                   ('a header which cannot be parsed is a parse error', z3.Implies(z3.And(z3.Not(bad), z3.Not(big), fnd, z3.Not(P.ok)), s == PERR)),
                   ('while the header is unfinished the bytes are only accumulated', z3.Implies(z3.And(s == MORE, z3.Not(fnd)), z3.And(b1 == R, z3.Not(e1), off1 == 0))),
                   ('and nothing else is touched', z3.Implies(z3.And(s == MORE, z3.Not(fnd)), kept(o, n, a[0], C, hmods(C))))]
            good = z3.And(z3.Not(bad), z3.Not(big), fnd, P.ok)
        else:
            rest = R; cl = ctx['cl0']; good = z3.BoolVal(True); ch = chunked(o, a[0]); o0 = ctx['o0']; out = [('the header stays parsed', e1), ('what the header said stays', kept(o, n, a[0], C, hmods(C)))]
        if not ended: out += [('the %s is what the header says' % m.replace('_', ' '), z3.Implies(z3.Or(s == OK, z3.And(s == MORE, good)), same_as(n.f(a[0], C, m), x))) for m, x in P.m.items()]
        out.append(('the status is the specified one', s == (z3.If(ch, CST(R, o0), body_status(z3.Length(R), cl)) if ended else res_status(R, P.ok, cl, ch))))
        N = z3.Length(rest); plain = z3.And(good, z3.Not(ch)); chk = z3.And(good, ch)
        return out + [('a body over the limit is rejected for its size', z3.Implies(z3.And(plain, N > MAXB), s == BBIG)),
                ('only a body or chunk over the limit is rejected for its size', z3.Implies(s == BBIG, z3.And(good, z3.Or(N > MAXB, ch)))),
                ('complete exactly when the announced length has arrived', z3.Implies(z3.And(plain, N <= MAXB), s == z3.If(N >= cl, iv(OK), iv(MORE)))),
                ('the body is what follows the blank line, up to the announced length', z3.Implies(z3.And(plain, z3.Or(s == OK, s == MORE)), b1 == z3.If(z3.And(cl > 0, N > cl), sub(rest, 0, cl), rest))),
                ('chunked: the status is that of decoding the chunks', z3.Implies(chk, s == CST(rest, o0))),
                ('chunked: the body is the decoded body', z3.Implies(z3.And(chk, z3.Or(s == OK, s == MORE)), b1 == CB(rest, o0))),
                ('chunked: the decoded part is remembered', z3.Implies(z3.And(chk, s == MORE), z3.And(off1 == CO(rest, o0), off1 <= z3.Length(b1)))),
                ('chunked: no more than the limit is asked for or kept', z3.Implies(z3.And(chk, s == MORE), z3.And(off1 <= MAXB, z3.Length(b1) <= MAXB + MAXH + 4))),
                ('past the header', z3.Implies(z3.Or(s == OK, z3.And(s == MORE, good)), e1)),
                ('no other status', z3.Or(*[s == x for x in (OK, MORE, PERR, HBIG, BBIG)])), ('never complete with a bad header', z3.Implies(s == OK, good))]
    return post
SMOD = ('body', 'header_ended', 'chunk_offset') + PARSED
def res_jobs(want=None):
    out = []
    for ended in (False, True):
        ctx = {}
        def su(ex, st, ended=ended, ctx=ctx):
            a = setup('HttpResponse', ctx, ended)(ex, st); v = View(ex, st); o0 = v.f(a[0], 'HttpResponse', 'chunk_offset').int(); ctx['o0'] = o0
            st.assume(z3.And(o0 <= z3.Length(v.f(a[0], 'HttpResponse', 'body')), o0 <= MAXB) if ended else o0 == 0); return a
        mods = SMOD if not ended else ('body', 'chunk_offset')
        out.append(Job('response parse (%s)' % ('body phase' if ended else 'header phase'), r'fr::HttpResponse::parse\(char const\*, unsigned long\)', su, pick(res_post(ctx, ended), want),
            modifies=lambda v, a, mods=mods: [v.fld(a[0], 'HttpResponse', m) for m in mods], prep=prep('HttpResponse'), loops={'*': {'cands': chunk_cands, 'measures': chunk_measure, 'mode': 'inv'}}))
    return out
# ------------------------------------------------------------------ the text level functions
STRS = z3.SeqSort(SEQ); B8 = z3.BitVecSort(8); BOOL = z3.BoolSort(); PAIRSEQ = PAIRS
E0 = z3.Empty(SEQ)
def one(x): return z3.Unit(x)
# parts of s from i on, split at tok (and, if strip, without spaces), without empty parts, the current part beginning with b
def _split(s, t, p, i, b):
    c = s[i]; nx = z3.simplify(i + 1); fl = z3.If(z3.Length(b) > 0, one(b), z3.Empty(STRS))
    return z3.If(i >= z3.Length(s), fl, z3.If(c == t, z3.Concat(fl, SPLIT(s, t, p, nx, E0)), z3.If(z3.And(c == 32, p), SPLIT(s, t, p, nx, b), SPLIT(s, t, p, nx, z3.Concat(b, one(c))))))
SPLIT = Rec('SPLIT', [SEQ, B8, BOOL, I_, SEQ], STRS, body=_split, depth=1)
def parts(s, t, p): return SPLIT(s, t, p, I0, E0)
def split_job():
    ctx = {}
    def setup(ex, st):
        p = fresh_str(ex, st, 'str'); b = z3.Bool(fresh_name('strip')); t = z3.BitVec(fresh_name('token'), 8); ctx.update(s=ex.str(st, p), t=t, p=b); return [raw_str(ex, st), p, IV(8, b=t), Bo(b)]
    def cands(l):
        out = []; s, t, p = ctx['s'], ctx['t'], ctx['p']; whole = parts(s, t, p)
        for V in l.vecs():
            for q in l.strs():
                for i in l.ptrs(mod=True) + l.ints(mod=True, w=(64,)):
                    def g(S, V=V, q=q, i=i):
                        x = i.val(S) if i.kind == 'ptr' else i.int(S)
                        if i.kind == 'ptr': x = None if not isinstance(x, Ptr) or x.idx is None or isinstance(x.idx, tuple) else iv(x.idx)
                        return None if x is None or V.seq(S).sort() != STRS else cat(V.seq(S), SPLIT(s, t, p, x, q.seq(S))) == whole
                    out.append((f'{V} followed by the parts from {i} on, the first beginning with {q}, are the parts', g))
        return out
    return Job('split_string', r'fr::Http::split_string\(string const&, char, bool\)', setup, lambda o, n, a, r, k: [('the parts between the separators', n.vec(a[0]) == parts(o.str(a[1]), a[2].bv(), a[3].e()))], modifies=lambda v, a: [a[0]], loops={'*': {'cands': cands}})
def split_contract(ex, named=False):
    def what(o, a):
        if named and z3.is_true(z3.simplify(z3.And(a[2].bv() == NL, z3.Not(a[3].e())))): return LINES(o.str(a[1]))
        return parts(o.str(a[1]), a[2].bv(), a[3].e())
    return Contract(norm_of(ex, r'fr::Http::split_string\(string const&, char, bool\)'), lambda o, n, a, r, k: [('', n.vec(a[0]) == what(o, a))], modifies=lambda v, a: [('newvec', a[0], 'string')])
# name=value pairs
FEQ, FAMP = lib.FIND(b'='), lib.FIND(b'&')
def _trim(s, k): return z3.If(z3.Or(s[z3.simplify(k-1)] == 10, s[z3.simplify(k-1)] == 13), TRIM(s, z3.simplify(k-1)), k)
TRIM = Rec('TRIMMED', [SEQ, I_], I_, body=_trim, depth=1)
def _args(s, i):
    e, m = FEQ(s, i), FAMP(s, i); n = sub(s, i, e - i)
    return z3.If(e < 0, z3.Empty(PAIRS), z3.If(m < 0, one(mkPair(n, sub(s, e + 1, TRIM(s, z3.Length(s)) - e - 1))), z3.If(m < e, ARGS(s, z3.simplify(m + 1)), z3.Concat(one(mkPair(n, sub(s, e + 1, m - e - 1))), ARGS(s, z3.simplify(m + 1))))))
ARGS = Rec('ARGS', [SEQ, I_], PAIRS, body=_args, depth=1)
ARGLIST = Rec('ARGLIST', [SEQ], PAIRS, body=lambda s: arguments_(s), depth=1)
def arguments(s): return ARGLIST(s)
def arguments_(s): return z3.If(z3.Length(s) == 0, z3.Empty(PAIRS), ARGS(s, z3.If(s[0] == 63, iv(1), iv(0))))
def args_job():
    ctx = {}
    def setup(ex, st):
        p = fresh_str(ex, st, 'str'); ctx['s'] = ex.str(st, p); return [raw_str(ex, st), p]
    def cands(l):
        out = []; s = ctx['s']; L = z3.Length(s); whole = arguments(s)
        for i in l.ints(mod=True, w=(64,)):
            def t(S, i=i):
                x = i.int(S); return None if x is None else z3.And(x <= L, TRIM(s, x) == TRIM(s, L))
            out.append((f'trimming from {i} trims', t))
            for j in l.ints(w=(64,)):
                if j is i: continue
                def u(S, i=i, j=j):
                    x, y = i.int(S), j.int(S); return None if x is None or y is None else x > y
                out.append((f'{i} is past {j}', u))
            for V in l.vecs():
                def g(S, V=V, i=i):
                    x = i.int(S); return None if x is None or V.seq(S).sort() != PAIRS else z3.And(x <= L, cat(V.seq(S), ARGS(s, x)) == whole)
                out.append((f'{V} followed by the arguments from {i} on are the arguments', g))
        return out
    return Job('parse_argument_list', r'fr::Http::parse_argument_list\(string const&\)', setup, lambda o, n, a, r, k: [('the name=value pairs between the ampersands', n.vec(a[0]) == arguments(o.str(a[1])))], modifies=lambda v, a: [a[0]], loops={'*': {'cands': cands}})
def args_contract(ex):
    return Contract(norm_of(ex, r'fr::Http::parse_argument_list\(string const&\)'), lambda o, n, a, r, k: [('', n.vec(a[0]) == arguments(o.str(a[1])))], modifies=lambda v, a: [('newvec', a[0], 'pair<string, string>')])
# header lines
def _pend(s, p): return z3.If(p >= z3.Length(s), z3.Length(s), z3.If(z3.And(z3.UGE(s[p], 32), z3.ULE(s[p], 126)), PEND(s, z3.simplify(p + 1)), p))
PEND = Rec('PRINTABLE_END', [SEQ, I_], I_, body=_pend, depth=1)
TE = lit(b'transfer-encoding'); ENCSET = z3.ArraySort(z3.BitVecSort(32), BOOL)
DOM = z3.ArraySort(SEQ, BOOL)
def encoding(s):
    from .C25 import ENCS
    return table({k: z3.BitVecVal(v, 32) for k, v in ENCS.items()}, lib.lower(s), z3.BitVecVal(0, 32))
def _encs(v, i, d): return z3.If(i >= z3.Length(v), d, ENCFOLD(v, z3.simplify(i + 1), ins(d, encoding(v[i]))))
ENCFOLD = Rec('ENCODINGS', [STRS, I_, ENCSET], ENCSET, body=_encs, depth=1)
def ins(d, k): return z3.If(z3.Select(d, k), d, z3.Store(d, k, True))
class Line:
    """what a header line says: name (lower case) and value, if it has both"""
    def __init__(S, s):
        c = lib.FIND(b':')(s, I0); d = lib.FNOT(b' ')(s, z3.simplify(c + 1)); d = z3.If(d < 0, z3.Length(s), d); S.has = c >= 0
        S.name = lib.lower(sub(s, 0, c)); S.value = sub(s, d, PEND(s, d) - d); S.d = d
    def dom(S, d): return z3.If(S.has, ins(d, S.name), d)
    def val(S, d, v): return z3.If(z3.And(S.has, z3.Not(z3.Select(d, S.name))), z3.Store(v, S.name, S.value), v)
    def enc(S, e): return z3.If(z3.And(S.has, S.name == TE), ENCFOLD(parts(S.value, z3.BitVecVal(44, 8), z3.BoolVal(True)), I0, e), e)
def maps(v, p, cls): return v.f(p, cls, 'header_data'), v.f(p, cls, 'transfer_encodings')
LINEMOD = lambda cls: (lambda v, a: [v.fld(a[0], cls, m) for m in ('header_data', 'transfer_encodings')])
def line_post(cls, named=False):
    def post(o, n, a, r, k):
        l = (NLine if named else Line)(o.str(a[1])); (h0, e0), (h1, e1) = maps(o, a[0], cls), maps(n, a[0], cls)
        return [('the header named in the line is present', h1.dom == l.dom(h0.dom)), ('its value is that of the line, unless it had one', h1.val == l.val(h0.dom, h0.val)), ('transfer encodings are recorded', e1.dom == l.enc(e0.dom))]
    return post
def line_job():
    ctx = {}; cls = 'Http'
    def setup(ex, st):
        p = sym_obj(ex, st, 'HttpRequest', 'message'); q = fresh_str(ex, st, 'line'); ctx['s'] = ex.str(st, q); ctx['e'] = View(ex, st).f(p, 'HttpRequest', 'transfer_encodings').dom; return [p, q]
    def prep(ex, st):
        c = split_contract(ex); ex.contracts[c.norm] = c
        def enc(o, n, a, r, k): return [('', z3.Int2BV(r.int(), 32) == encoding(o.str(a[0])))]
        c = Contract(norm_of(ex, r'fr::Http::string_to_transfer_encoding\(string\)'), lambda o, n, a, r, k: [('', r.int() == z3.BV2Int(encoding(o.str(a[0]))))], modifies=lambda v, a: [a[0]], ret='enum'); ex.contracts[c.norm] = c
    def cands(l):
        out = []; s = ctx['s']; L = Line(s)
        for i in l.ints(mod=True, w=(64,)):
            out.append((f'the value continues at {i}', lambda S, i=i: None if i.int(S) is None else z3.And(i.int(S) >= L.d, PEND(s, i.int(S)) == PEND(s, L.d))))
            for j in l.ints(mod=True, w=(64,)):
                if j is not i: out.append((f'{j} counts the bytes up to {i}', lambda S, i=i, j=j: None if i.int(S) is None or j.int(S) is None else j.int(S) == i.int(S) - L.d))
        for V in l.vecs():
            for i in l.ptrs(mod=True) + l.ints(mod=True, w=(64,)):
                for M in l.maps(mod=True):
                    def g(S, V=V, i=i, M=M):
                        x = i.val(S) if i.kind == 'ptr' else i.int(S)
                        if i.kind == 'ptr': x = None if not isinstance(x, Ptr) or x.idx is None or isinstance(x.idx, tuple) else iv(x.idx)
                        m = M.val(S)
                        return None if x is None or m is None or m.dom.sort() != ENCSET or V.seq(S).sort() != STRS else ENCFOLD(V.seq(S), x, m.dom) == ENCFOLD(V.seq(S), I0, ctx['e'])
                    out.append((f'the encodings of {V} from {i} on complete {M}', g))
        return out
    return Job('parse_header_line', r'fr::Http::parse_header_line\(string const&\)', setup, line_post('HttpRequest'), modifies=LINEMOD('HttpRequest'), prep=prep, loops={'*': {'cands': cands}})
def line_contract(ex, cls): return Contract(norm_of(ex, r'fr::Http::parse_header_line\(string const&\)'), line_post(cls, True), modifies=LINEMOD(cls))
# request line
def method_eq(s): return table({m: z3.BitVecVal(i, 32) for i, m in enumerate(METHODS)}, s, z3.BitVecVal(6, 32))
def line_method(s):
    t = lib.FIND(b' ')(s, I0); return z3.If(t < 0, z3.BitVecVal(6, 32), method_eq(sub(s, 0, t)))
def type_to_string_contract(ex):
    return Contract(norm_of(ex, r'fr::Http::request_type_to_string\(fr::Http::RequestType\)'), lambda o, n, a, r, k: [('', z3.And(*[z3.Implies(a[1].bv() == i, n.str(a[0]) == lit(m)) for i, m in enumerate(METHODS)]))], pre=lambda v, a: [('one of the methods', z3.And(a[1].sint() >= 0, a[1].sint() < 5))], modifies=lambda v, a: [('newstr', a[0])])
def ptype_post(o, n, a, r, k): return [('the method is the text before the first space, if that is a method', r.bv() == line_method(o.str(a[1])))]
def ptype_job():
    def prep(ex, st):
        for c in (type_contract(ex), type_to_string_contract(ex)): ex.contracts[c.norm] = c
    return Job('parse_header_type', r'fr::HttpRequest::parse_header_type\(string const&\)', lambda ex, st: [sym_obj(ex, st, 'HttpRequest', 'message'), fresh_str(ex, st, 'line')], ptype_post, prep=prep)
RHTTP = lib.RFIND(b'HTTP')
def _gf(v, i, d):
    k = lib.lower(pfst(v[i])); return z3.If(i >= z3.Length(v), d, GDOM(v, z3.simplify(i + 1), ins(d, k)))
def _gv(v, i, d, m):
    k = lib.lower(pfst(v[i])); return z3.If(i >= z3.Length(v), m, GVAL(v, z3.simplify(i + 1), ins(d, k), z3.If(z3.Select(d, k), m, z3.Store(m, k, psnd(v[i])))))
GDOM = Rec('QUERY_NAMES', [PAIRS, I_, DOM], DOM, body=_gf, depth=1); GVAL = Rec('QUERY_VALUES', [PAIRS, I_, DOM, VAL], VAL, body=_gv, depth=1)
def cut(s, a, n): return sub(s, a, z3.If(z3.And(n >= 0, a + n <= z3.Length(s)), n, z3.Length(s) - a))
WRITTEN = Rec('WRITTEN', [I_, I_], PAIRS, length=lambda t, i: i)     # what a loop has written over the first i elements
class Uri:
    def __init__(S, s):
        S.u, S.e, S.g = lib.FIND(b'/')(s, I0), RHTTP(s), lib.FIND(b'?')(s, I0); S.ok = z3.And(S.u >= 0, S.e >= 0, S.u < S.e)
        S.q = arguments(cut(s, S.g, S.e - 1 - S.g)); S.path = z3.If(S.g >= 0, cut(s, S.u, S.g - S.u), sub(s, S.u, S.e - 1 - S.u))
        S.v10 = z3.And(S.e + 8 <= z3.Length(s), sub(s, S.e, 8) == lit(b'HTTP/1.0'))
def uri_post(o, n, a, r, k):
    U = Uri(o.str(a[1])); C = 'HttpRequest'; g0, g1 = o.f(a[0], C, 'get_data'), n.f(a[0], C, 'get_data')
    if k != 'ret': return [('a request line is refused only without path or protocol', z3.Not(U.ok))]
    return [('accepted only with path and protocol', U.ok), ('the path is the text between the method and the query or protocol', n.f(a[0], C, 'uri') == z3.If(z3.Length(U.path) == 0, o.f(a[0], C, 'uri'), U.path)),
            ('the version is that after the path', n.f(a[0], C, 'version').bv() == z3.If(U.v10, z3.BitVecVal(1, 32), z3.BitVecVal(2, 32))),
            ('query names', g1.dom == z3.If(U.g >= 0, GDOM(U.q, I0, g0.dom), g0.dom)), ('query values', g1.val == z3.If(U.g >= 0, GVAL(U.q, I0, g0.dom, g0.val), g0.val))]
URIMOD = lambda v, a: [v.fld(a[0], 'HttpRequest', m) for m in ('get_data', 'uri', 'version')]
def uri_job():
    ctx = {}
    def setup(ex, st):
        p = sym_obj(ex, st, 'HttpRequest', 'message'); q = fresh_str(ex, st, 'line'); ctx['g'] = View(ex, st).f(p, 'HttpRequest', 'get_data'); return [p, q]
    def prep(ex, st):
        c = args_contract(ex); ex.contracts[c.norm] = c
    def cands(l):
        out = []
        for V in l.vecs():
            if V.v0.s.sort() != PAIRS: continue
            v0 = V.seq(l.st0); L = z3.Length(v0)
            for i in l.ptrs(mod=True) + l.ints(mod=True, w=(64,)):
                def ix(S, i=i):
                    x = i.val(S) if i.kind == 'ptr' else i.int(S)
                    return x if i.kind != 'ptr' else None if not isinstance(x, Ptr) or x.idx is None or isinstance(x.idx, tuple) else iv(x.idx)
                def keep(S, V=V, ix=ix, v0=v0, L=L):
                    x = ix(S); return None if x is None else z3.And(x >= 0, x <= L, z3.Length(V.seq(S)) == L, lib.nsub(l.ex, S, V.seq(S), x, L - x) == sub(v0, x, L - x))
                def put(S, V=V, ix=ix, v0=v0, L=L):
                    w = V.val(S); S.mem[V.obj] = {**S.mem[V.obj], V.off: (S.mem[V.obj][V.off][0], Vec(cat(WRITTEN(z3.Const(fresh_name('w'), I_), ix(S)), sub(v0, ix(S), L - ix(S))), w.el, w.es))}
                out.append((f'{V} is as before from {i} on', keep, put))
                for M in l.maps(mod=True):
                    if not (M.v0.kk == 'str' and M.v0.vk == 'str'): continue
                    g = ctx['g']
                    out.append((f'{M} completed by {V} from {i} on', lambda S, ix=ix, v0=v0, M=M, g=g: None if ix(S) is None else z3.And(GDOM(v0, ix(S), M.val(S).dom) == GDOM(v0, I0, g.dom), GVAL(v0, ix(S), M.val(S).dom, M.val(S).val) == GVAL(v0, I0, g.dom, g.val))))
        return out
    return Job('parse_header_uri', r'fr::HttpRequest::parse_header_uri\(string const&\)', setup, uri_post, modifies=URIMOD, throws=('std::invalid_argument',), prep=prep, loops={'*': {'cands': cands}})
# ------------------------------------------------------------------ the header as a whole
NL = z3.BitVecVal(10, 8); CL = lit(b'content-length'); ENCS_ = ENCSET
# what parse_header_line makes of a line, named: these stand for the expressions of class Line, against which that function is verified
LHAS = z3.Function('LINE_HAS', SEQ, BOOL); LNAME = z3.Function('LINE_NAME', SEQ, SEQ); LVALUE = z3.Function('LINE_VALUE', SEQ, SEQ); LENC = z3.Function('LINE_ENCODINGS', SEQ, ENCSET, ENCSET)
class NLine(Line):
    def __init__(S, s): S.has = LHAS(s); S.name = LNAME(s); S.value = LVALUE(s); S.s = s
    def enc(S, e): return LENC(S.s, e)
def _hd(v, i, d): return z3.If(i >= z3.Length(v), d, HDOM(v, z3.simplify(i + 1), NLine(v[i]).dom(d)))
def _hv(v, i, d, m):
    l = NLine(v[i]); return z3.If(i >= z3.Length(v), m, HVAL(v, z3.simplify(i + 1), l.dom(d), l.val(d, m)))
def _he(v, i, e): return z3.If(i >= z3.Length(v), e, HENC(v, z3.simplify(i + 1), NLine(v[i]).enc(e)))
HDOM = Rec('HEADER_NAMES', [STRS, I_, DOM], DOM, body=_hd, depth=1); HVAL = Rec('HEADER_VALUES', [STRS, I_, DOM, VAL], VAL, body=_hv, depth=1); HENC = Rec('HEADER_ENCODINGS', [STRS, I_, ENCSET], ENCSET, body=_he, depth=1)
STOKL = lambda s: lib.STOK('u', 10)(s); STOVL = lambda s: lib.STOV('u', 10)(s)
LINES = z3.Function('LINES', SEQ, STRS)      # the non-empty lines of a text: stands for parts(text, newline, without stripping)
class Head:
    """what the header text R says, given the members before"""
    def __init__(S, cls, R, v, p):
        S.cls = cls; f_ = lambda n: v.f(p, cls, n)
        hd, te = f_('header_data'), f_('transfer_encodings'); S.lines = LINES(R); S.first = S.lines[0]
        S.dom = HDOM(S.lines, iv(1), hd.dom); S.val = HVAL(S.lines, iv(1), hd.dom, hd.val); S.enc = HENC(S.lines, iv(1), te.dom)
        has = z3.Select(S.dom, CL); x = z3.Select(S.val, CL); num = z3.Or(z3.Not(has), STOKL(x) == 0); S.len = z3.If(has, STOVL(x), f_('content_length').int())
        some = z3.Length(S.lines) > 0
        if cls == 'HttpRequest':
            g = f_('get_data'); S.type = line_method(S.first); S.u = U = Uri(S.first); S.ok = z3.And(some, S.type != 6, U.ok, num)
            S.gdom = z3.If(U.g >= 0, GDOM(U.q, I0, g.dom), g.dom); S.gval = z3.If(U.g >= 0, GVAL(U.q, I0, g.dom, g.val), g.val)
        else:
            a = lib.FOF(b' ')(S.first, I0); b = lib.FOF(b' ')(S.first, z3.simplify(a + 1)); S.a = a; t = sub(S.first, a, z3.If(b >= 0, b - a, z3.Length(S.first) - a))
            S.ok = z3.And(some, a >= 0, lib.STOK('i', 10)(t) == 0, num); S.status = lib.STOV('i', 10)(t); S.v10 = z3.And(a == 8, sub(S.first, 0, 8) == lit(b'HTTP/1.0'))
def head_post(cls):
    def post(o, n, a, r, k):
        H = Head(cls, sub(o.f(a[0], cls, 'body'), 0, a[1].int()), o, a[0]); g = lambda m: n.f(a[0], cls, m); ok = r.e()
        out = [('accepted exactly if the first line and the announced length are valid', ok == H.ok), ('header names', z3.Implies(ok, g('header_data').dom == H.dom)), ('header values', z3.Implies(ok, g('header_data').val == H.val)),
               ('transfer encodings', z3.Implies(ok, g('transfer_encodings').dom == H.enc)), ('announced length', z3.Implies(ok, g('content_length').int() == H.len))]
        if cls == 'HttpRequest':
            out += [('method', z3.Implies(ok, g('request_type').bv() == H.type)), ('query names', z3.Implies(ok, g('get_data').dom == H.gdom)), ('query values', z3.Implies(ok, g('get_data').val == H.gval)),
                    ('path', z3.Implies(ok, g('uri') == z3.If(z3.Length(H.u.path) == 0, o.f(a[0], cls, 'uri'), H.u.path))), ('version', z3.Implies(ok, g('version').bv() == z3.If(H.u.v10, z3.BitVecVal(1, 32), z3.BitVecVal(2, 32))))]
        else:
            out += [('status code', z3.Implies(ok, g('status').int() == H.status)), ('version', z3.Implies(ok, g('version').bv() == z3.If(H.v10, z3.BitVecVal(1, 32), z3.BitVecVal(2, 32))))]
        return out
    return post
def head_job(cls):
    ctx = {}
    def setup(ex, st):
        p = sym_obj(ex, st, cls, 'message', intmode=('content_length', 'chunk_offset')); v = View(ex, st); n = fresh_int('header_end', 0, SYMLEN); st.assume(range_fact(n)); st.assume(n <= z3.Length(v.f(p, cls, 'body')))
        ctx['H'] = Head(cls, sub(v.f(p, cls, 'body'), 0, n), v, p); ctx['h'] = v.f(p, cls, 'header_data'); ctx['e'] = v.f(p, cls, 'transfer_encodings').dom; return [p, IV(64, i=n)]
    def prep(ex, st):
        cs = [split_contract(ex, True), line_contract(ex, cls)]
        if cls == 'HttpRequest':
            cs.append(Contract(norm_of(ex, r'fr::HttpRequest::parse_header_type\(string const&\)'), lambda o, n, a, r, k: [('', r.int() == z3.BV2Int(line_method(o.str(a[1]))))], ret='enum'))
            cs.append(Contract(norm_of(ex, r'fr::HttpRequest::parse_header_uri\(string const&\)'), uri_post, modifies=URIMOD, throws=('std::invalid_argument',)))
        for c in cs: ex.contracts[c.norm] = c
    def cands(l):
        out = []; H = ctx['H']; h = ctx['h']
        for V in l.vecs():
            if V.v0.s.sort() != STRS: continue
            for i in l.ptrs(mod=True) + l.ints(mod=True, w=(64,)):
                def ix(S, i=i):
                    x = i.val(S) if i.kind == 'ptr' else i.int(S)
                    return x if i.kind != 'ptr' else None if not isinstance(x, Ptr) or x.idx is None or isinstance(x.idx, tuple) else iv(x.idx)
                for M in l.maps(mod=True):
                    if M.v0.kk == 'str' and M.v0.vk == 'str':
                        def g(S, V=V, ix=ix, M=M):
                            x = ix(S); m = M.val(S); s = V.seq(S); return None if x is None else z3.And(HDOM(s, x, m.dom) == HDOM(s, iv(1), h.dom), HVAL(s, x, m.dom, m.val) == HVAL(s, iv(1), h.dom, h.val))
                        out.append((f'{M} completed by the lines of {V} from {i} on', g))
                    elif M.v0.dom.sort() == ENCSET:
                        out.append((f'{M} completed by the encodings in {V} from {i} on', lambda S, V=V, ix=ix, M=M: None if ix(S) is None else HENC(V.seq(S), ix(S), M.val(S).dom) == HENC(V.seq(S), iv(1), ctx['e'])))
        return out
    mods = hmods(cls)
    return Job('%s parse_header' % cls, r'fr::%s::parse_header\(.*\)' % cls, setup, head_post(cls), modifies=lambda v, a: [v.fld(a[0], cls, m) for m in mods], prep=prep, loops={'*': {'cands': cands}})
# posted variables
def _pd(v, i, d): return z3.If(i >= z3.Length(v), d, PDOM(v, z3.simplify(i + 1), ins(d, lib.lower(pfst(v[i])))))
def _pv(v, i, m): return z3.If(i >= z3.Length(v), m, PVAL(v, z3.simplify(i + 1), z3.Store(m, lib.lower(pfst(v[i])), psnd(v[i]))))
PDOM = Rec('POST_NAMES', [PAIRS, I_, DOM], DOM, body=_pd, depth=1); PVAL = Rec('POST_VALUES', [PAIRS, I_, VAL], VAL, body=_pv, depth=1)
class Form:
    def __init__(S, b, m):
        x = lib.FNOT(b'\r\n')(b, I0); y = lib.FNOT(b'\n')(b, I0); S.a = z3.If(x >= 0, x, y); u, w = lib.RFIND(b'\r\n\r\n')(b), lib.RFIND(b'\n\n')(b); S.e = z3.If(u >= 0, u, w)
        S.none = z3.Or(S.a < 0, S.a == S.e); S.q = arguments(cut(b, S.a, S.e - S.a))
        S.dom = z3.If(S.none, m.dom, PDOM(S.q, I0, m.dom)); S.val = z3.If(S.none, m.val, PVAL(S.q, I0, m.val))
def form_post(o, n, a, r, k):
    C = 'HttpRequest'; F = Form(o.f(a[0], C, 'body'), o.f(a[0], C, 'post_data')); p = n.f(a[0], C, 'post_data')
    return [('posted names', p.dom == F.dom), ('posted values', p.val == F.val)]
def form_job():
    ctx = {}
    def setup(ex, st):
        p = sym_obj(ex, st, 'HttpRequest', 'message'); ctx['p'] = View(ex, st).f(p, 'HttpRequest', 'post_data'); return [p]
    def prep(ex, st):
        c = args_contract(ex); ex.contracts[c.norm] = c
    def cands(l):
        out = []; g = ctx['p']
        for V in l.vecs():
            if V.v0.s.sort() != PAIRS: continue
            v0 = V.seq(l.st0); L = z3.Length(v0)
            for i in l.ptrs(mod=True) + l.ints(mod=True, w=(64,)):
                def ix(S, i=i):
                    x = i.val(S) if i.kind == 'ptr' else i.int(S)
                    return x if i.kind != 'ptr' else None if not isinstance(x, Ptr) or x.idx is None or isinstance(x.idx, tuple) else iv(x.idx)
                def keep(S, V=V, ix=ix, v0=v0, L=L):
                    x = ix(S); return None if x is None else z3.And(x >= 0, x <= L, z3.Length(V.seq(S)) == L, lib.nsub(l.ex, S, V.seq(S), x, L - x) == sub(v0, x, L - x))
                def put(S, V=V, ix=ix, v0=v0, L=L):
                    w = V.val(S); S.mem[V.obj] = {**S.mem[V.obj], V.off: (S.mem[V.obj][V.off][0], Vec(cat(WRITTEN(z3.Const(fresh_name('w'), I_), ix(S)), sub(v0, ix(S), L - ix(S))), w.el, w.es))}
                if V.mod: out.append((f'{V} is as before from {i} on', keep, put))
                for M in l.maps(mod=True):
                    if not (M.v0.kk == 'str' and M.v0.vk == 'str'): continue
                    out.append((f'{M} completed by {V} from {i} on', lambda S, ix=ix, v0=v0, M=M: None if ix(S) is None else z3.And(PDOM(v0, ix(S), M.val(S).dom) == PDOM(v0, I0, g.dom), PVAL(v0, ix(S), M.val(S).val) == PVAL(v0, I0, g.val))))
        return out
    return Job('parse_post_body', r'fr::HttpRequest::parse_post_body\(\)', setup, form_post, modifies=lambda v, a: [v.fld(a[0], 'HttpRequest', 'post_data')], prep=prep, loops={'*': {'cands': cands}})
# accessors
def has_job(fn, m):
    def setup(ex, st): return [sym_obj(ex, st, 'HttpRequest', 'message'), fresh_str(ex, st, 'key')]
    return Job(fn, r'fr::Http::%s\(string\) const' % fn, setup, lambda o, n, a, r, k: [('present exactly if a value of that name in lower case is', r.e() == z3.Select(o.f(a[0], 'HttpRequest', m).dom, lib.lower(o.str(a[1]))))], modifies=lambda v, a: [a[1]])
def acc_jobs(): return [has_job('get_exists', 'get_data'), has_job('post_exists', 'post_data'), has_job('header_exists', 'header_data')]
def text_jobs(): return [split_job(), args_job(), line_job(), ptype_job(), uri_job(), form_job(), head_job('HttpRequest'), head_job('HttpResponse')]

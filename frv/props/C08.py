"""C08: HTTP parsing does not depend on how bytes arrive.
parse() is verified to be a function of (members before, body ++ data): see http.py.  Hence feeding P and then T, the first call asking for more,
gives what feeding P ++ T gives, if that function has the properties stated here as lemmas: either P has no blank line, and then the first call only
appended (postcondition 'the bytes are only accumulated, nothing else is touched'); or it has, and then the header text, and so everything read from it, is
that of P ++ T, and the rest is the rest of P followed by T."""
from .http import *
from .http import _cst as CSTbody, _cb as CBbody, _co as CObody
from .. import lib
def at(s, i, w): return z3.And(*[s[z3.simplify(i + j)] == c for j, c in enumerate(w)])
def least(w, s, p, r):
    """r is the least position >= p where w occurs in s, or negative: its definition, and its instance at position i"""
    return z3.And(z3.Or(r == -1, z3.And(r >= p, r + len(w) <= z3.Length(s), at(s, r, w)))), lambda i: z3.Implies(z3.And(i >= p, i + len(w) <= z3.Length(s), at(s, i, w)), z3.And(r >= 0, r <= i))
P_, T_ = z3.Const('P_', SEQ), z3.Const('T_', SEQ); R_ = z3.Concat(P_, T_); p_ = z3.Int('p_'); CR, LF2 = b'\r\n\r\n', b'\n\n'
def pointwise(*ix): return [z3.Implies(z3.And(i >= 0, i < z3.Length(P_)), R_[i] == P_[i]) for i in ix]
def find_facts(w, p=I0):
    """FIND of w in P and in P ++ T, with the definition instantiated at each other's value"""
    a, b = lib.FIND(w)(P_, p), lib.FIND(w)(R_, p); da, ia = least(w, P_, p, a); db, ib = least(w, R_, p, b)
    pts = [z3.simplify(x + j) for x in (a, b) for j in range(len(w))]
    return a, b, [da, db, ia(b), ib(a), p >= 0] + pointwise(*pts)
def found_same(w, p=I0): a, b, f_ = find_facts(w, p); return z3.Implies(a >= 0, b == a)
def found_late(w, p=I0): a, b, f_ = find_facts(w, p); return z3.Implies(z3.And(a < 0, b >= 0), b + len(w) > z3.Length(P_))
def lemmas():
    out = []
    L = z3.Length(P_); i_ = z3.Int('i_')
    out.append(('a position of the first piece holds the same byte in the whole', [i_ >= 0, i_ < L], R_[i_] == P_[i_]))
    for nm, w in (('CR LF CR LF', CR), ('LF LF', LF2)):
        a, b, f_ = find_facts(w); out += [(f'{nm} found in the first piece is where the whole has it', f_, found_same(w)), (f'{nm} missing in the first piece is not inside it', f_, found_late(w))]
    a, b, f_ = find_facts(b'\r\n', p_); out += [('the end of a size line found in the first piece is where the whole has it', f_, found_same(b'\r\n', p_)), ('the end of a size line missing in the first piece is not inside it', f_, found_late(b'\r\n', p_))]
    c0, c1, fc = find_facts(CR); l0, l1, fl = find_facts(LF2)
    base = [found_same(CR), found_same(LF2), found_late(CR), found_late(LF2)] + fc + fl + pointwise(*[z3.simplify(c1 + j) for j in range(4)], *[z3.simplify(l0 + j) for j in range(2)])
    f0, h0, w0 = hend(P_); f1, h1, w1 = hend(R_)
    same = z3.And(f1, h1 == h0, w1 == w0); out.append(('a blank line found is the blank line of the whole', base + [f0], same))
    out.append(('a blank line of the whole lies inside a beginning long enough', base + [f1, h1 + w1 <= L], z3.And(f0, h0 == h1, w0 == w1)))
    out.append(('a beginning without it is no longer than the header and three bytes', base + [f1, z3.Not(f0)], L <= h1 + 3))
    inside = z3.And(h0 >= 0, w0 >= 2, h0 + w0 <= L); out.append(('the blank line lies inside', base + [f0], inside))
    h, w = z3.Ints('h_ w_'); dom = [h >= 0, w >= 0, h + w <= L]
    hd = sub(R_, 0, h) == sub(P_, 0, h); rs = sub(R_, h + w, z3.Length(R_) - h - w) == z3.Concat(sub(P_, h + w, L - h - w), T_)
    out += [('the header text is that of the whole', dom, hd), ('the rest is that of the whole, up to the second piece', dom, rs)]
    m0, m1 = method_of(P_), method_of(R_)
    out.append(('a beginning of what begins like a request does so too', [L > 0, m1 != 6], m0 != 6))
    out.append(('a text with a line end which begins like a request has a whole method', [z3.Or(*[z3.And(k < L, z3.Or(P_[k] == 10, P_[k] == 13)) for k in range(7)]), m0 != 6], m0 < 5))
    for k, m in enumerate(METHODS): out.append((f'which the whole has too: {m}', [z3.PrefixOf(lit(m), P_)], z3.PrefixOf(lit(m), R_)))
    out.append(('a text longer than any method which begins like a request begins with a method', [L >= 6, m0 != 6], m0 < 5))
    out.append(('a whole which begins with the method of its first piece begins like a request', [z3.Or(*[z3.PrefixOf(lit(m), R_) for m in METHODS])], m1 != 6))
    ok, ch = z3.Bools('ok_ ch_'); cl = z3.Int('cl_'); st0, st1 = req_status(P_, ok, cl), req_status(R_, ok, cl)
    glue = [z3.Implies(f0, same), z3.Implies(f0, inside), z3.Implies(z3.And(f1, h1 + w1 <= L), z3.And(f0, h0 == h1, w0 == w1)), z3.Implies(z3.And(f1, z3.Not(f0)), L <= h1 + 3), cl >= 0, z3.Length(R_) >= L]
    meth = [z3.Implies(z3.And(L > 0, m1 != 6), m0 != 6), z3.Implies(z3.And(f0, m0 != 6), m1 != 6)]
    out.append(('request: once the header is complete, the status after both pieces is that of the body phase', glue + meth + [f0, st0 == MORE], st1 == body_status(L - h0 - w0 + z3.Length(T_), cl)))
    out.append(('request: a beginning of a complete request is complete or asks for more', glue + meth + [st1 == OK], z3.Or(st0 == OK, st0 == MORE)))
    out.append(('body: a beginning of a complete body is complete or asks for more', [body_status(z3.Length(R_), cl) == OK], z3.Or(body_status(L, cl) == OK, body_status(L, cl) == MORE)))
    r0, r1 = res_status(P_, ok, cl, ch), res_status(R_, ok, cl, ch)
    # h0 >= 2: a status line which is accepted has a space and a digit (stoi refuses text without a digit)
    hb = [z3.Implies(i < L, R_[i] == P_[i]) for i in range(4)] + [L >= 0]
    C0, C1 = sub(P_, h0 + w0, L - h0 - w0), sub(R_, h1 + w1, z3.Length(R_) - h1 - w1); B1 = z3.Concat(C0, T_)
    out.append(('response: once the header is complete, the status after both pieces is that of the body phase', glue + hb + [f0, r0 == MORE, z3.Implies(f0, C1 == B1), z3.Implies(ok, h0 >= 2)], r1 == z3.If(ch, CST(B1, I0), body_status(L - h0 - w0 + z3.Length(T_), cl))))
    out.append(('response: a beginning of a complete response is complete or asks for more', glue + hb + [r1 == OK, z3.Implies(f0, C1 == B1), z3.Implies(CST(B1, I0) == OK, z3.Or(CST(C0, I0) == OK, CST(C0, I0) == MORE))], z3.Or(r0 == OK, r0 == MORE)))
    return out + chunk_lemmas()
def chunk_lemmas():
    """decoding b ++ T after decoding b, by induction on the number of bytes after o; the hypothesis is stated for what follows the first chunk"""
    out = []; o = p_; b = P_; bt = R_; L, M = z3.Length(b), z3.Length(bt); c, d = chunk(b, o), chunk(bt, o); e, e2 = c['e'], d['e']
    dom = [o >= 0, o <= L, e < L, e2 < M]
    fnd = [found_same(b'\r\n', o), found_late(b'\r\n', o), z3.Or(e == -1, z3.And(e >= o, e + 2 <= L)), z3.Or(e2 == -1, z3.And(e2 >= o, e2 + 2 <= M))]
    i, n = z3.Ints('i_ n_'); out.append(('a part of the first piece is that part of the whole', [i >= 0, n >= 0, i + n <= L], sub(bt, i, n) == sub(b, i, n)))
    out.append(('the rest of the whole from a position of the first piece', [i >= 0, i <= L], sub(bt, i, M - i) == z3.Concat(sub(b, i, L - i), T_)))
    seqs = [z3.Implies(e >= 0, sub(bt, o, e - o) == sub(b, o, e - o)), z3.Implies(o < L, bt[o] == b[o]), M == L + z3.Length(T_), z3.Length(T_) >= 0]
    nb = lib.STOV('u', 16)(sub(b, o, e - o)); rng = [nb >= 0]
    H = dom + fnd + seqs + rng
    out.append(('a complete chunk is that chunk of the whole', H + [c['full']], z3.And(d['full'], d['n'] == c['n'], e2 == e)))
    out.append(('a bad chunk is bad in the whole', H + [c['err']], d['err'])); out.append(('a chunk too big is too big in the whole', H + [c['big']], d['big']))
    A, A2 = after(b, o, c), after(bt, o, d); k = z3.simplify(o + c['n'])
    same = z3.And(d['full'], d['n'] == c['n'], e2 == e)
    parts_ = [sub(bt, 0, o) == sub(b, 0, o), sub(bt, e + 2, c['n']) == sub(b, e + 2, c['n']), sub(bt, e + c['n'] + 4, M - e - c['n'] - 4) == z3.Concat(sub(b, e + c['n'] + 4, L - e - c['n'] - 4), T_)]
    out.append(('what is left after the chunk is that of the first piece, and the second piece', H + [c['full'], same] + parts_, A2 == z3.Concat(A, T_)))
    un = lambda x: [CST(x, o) == CSTbody(x, o), CB(x, o) == CBbody(x, o), CO(x, o) == CObody(x, o)]
    cases = z3.Or(c['err'], c['big'], c['more'], c['full'])
    out.append(('every text is one of: bad, too big, unfinished, a complete chunk', H, cases))
    out.append(('unfinished: nothing was decoded', [c['more'], z3.Not(c['err']), z3.Not(c['big']), z3.Not(c['full'])] + un(b), z3.And(CB(b, o) == b, CO(b, o) == o, CST(b, o) == MORE)))
    out.append(('a text is only one of them', H, z3.And(z3.Implies(c['more'], z3.And(z3.Not(c['err']), z3.Not(c['big']), z3.Not(c['full']))), z3.Implies(c['full'], z3.And(z3.Not(c['err']), z3.Not(c['big'])))))) 
    return out + step_lemmas(b, bt, o, A, k, c)
def step_lemmas(b, bt, o, A, k, c):
    """a complete non-final chunk: both b and b ++ T step to what is left, where the induction hypothesis applies"""
    a, t = z3.Const('A_', SEQ), T_; at_ = z3.Concat(a, t); n = z3.Int('n_'); B, W = z3.Const('b_', SEQ), z3.Const('bt_', SEQ)
    unfold = [CST(B, o) == CST(a, n), CB(B, o) == CB(a, n), CO(B, o) == CO(a, n), CST(W, o) == CST(at_, n), CB(W, o) == CB(at_, n), CO(W, o) == CO(at_, n)]
    D = z3.Concat(CB(a, n), t); ih = z3.Implies(CST(a, n) == MORE, z3.And(CST(at_, n) == CST(D, CO(a, n)), CB(at_, n) == CB(D, CO(a, n)), CO(at_, n) == CO(D, CO(a, n))))
    E = z3.Concat(CB(B, o), t)
    return [('a complete chunk which is not the last: decoding goes on after it', [c['full'], c['n'] != 0, z3.Not(c['err']), z3.Not(c['big']), z3.Not(c['more'])], z3.And(CSTbody(b, o) == CST(A, k), CBbody(b, o) == CB(A, k), CObody(b, o) == CO(A, k))),
            ('the last chunk completes the message', [c['full'], c['n'] == 0, z3.Not(c['err']), z3.Not(c['big']), z3.Not(c['more'])], z3.And(CSTbody(b, o) == OK, CBbody(b, o) == sub(b, 0, o))),
            ('step: decoding the second piece after the first is decoding both', unfold + [ih, CST(B, o) == MORE], z3.And(CST(W, o) == CST(E, CO(B, o)), CB(W, o) == CB(E, CO(B, o)), CO(W, o) == CO(E, CO(B, o)))),
            ('step: a beginning of a complete chunked body is complete or asks for more', unfold + [z3.Implies(CST(at_, n) == OK, z3.Or(CST(a, n) == OK, CST(a, n) == MORE)), CST(W, o) == OK], z3.Or(CST(B, o) == OK, CST(B, o) == MORE))]
def jobs(): return req_jobs() + res_jobs()

"""C19: SHA-1 digests are correct for every message.

Contracts: fr::transform is the FIPS 180-4 compression function, fr::buffer_to_block reads 16 big-endian words, Sha1::update folds the
compression over the complete 64 byte blocks of buffer ++ input and keeps the rest, Sha1::final pads and finishes, sha1_digest is the digest of
the whole input.  That the number of blocks and the rest account for every byte (so that the length in the padding is the message's) is a lemma."""
from ..sym import *
from ..spec import Rec
from ..contract import *
from .. import lib
I_ = z3.IntSort(); H5 = z3.BitVecSort(160); W16 = z3.BitVecSort(512)
MONITOR_SECS = 25
BLK = z3.Function('SHA1_COMPRESS', H5, W16, H5)              # FIPS 180-4 6.1.2, defined by compress() below
def _words(s): return z3.Concat(*[s[i] for i in range(64)])
WORDS = z3.Function('SHA1_WORDS', SEQ, W16)                  # the first 64 bytes as 16 big-endian words, defined by _words
FOLD = Rec('SHA1_FOLD', [H5, SEQ], H5, body=lambda h, s: z3.If(z3.Length(s) >= 64, FOLD(BLK(h, WORDS(sub(s, 0, 64))), sub(s, 64, z3.Length(s) - 64)), h), depth=2)
TAIL = Rec('SHA1_TAIL', [SEQ], SEQ, body=lambda s: z3.If(z3.Length(s) >= 64, TAIL(sub(s, 64, z3.Length(s) - 64)), s), depth=2)
COUNT = Rec('SHA1_COUNT', [SEQ], I_, body=lambda s: z3.If(z3.Length(s) >= 64, 1 + COUNT(sub(s, 64, z3.Length(s) - 64)), 0), depth=2)
H0 = z3.BitVecVal(0x67452301efcdab8998badcfe10325476c3d2e1f0, 160)
ZEROS = Rec('SHA1_ZEROS', [I_], SEQ, body=lambda n: z3.If(n <= 0, lit(b''), cat(ZEROS(n - 1), lit(b'\0'))), length=lambda n: z3.If(n > 0, n, 0), depth=1)
def PAD(t): return cat(t, lit(b'\x80'), ZEROS(63 - z3.Length(t)))
FIN = z3.Function('SHA1_FINISH', H5, SEQ, I_, H5)            # defined by finish()
def finish(h, t, n):
    """h: digest of the blocks before; t: what is left of the message (shorter than a block); n: length of the whole message in bytes"""
    w = WORDS(PAD(t)); bits = z3.Concat(z3.Int2BV(n * 8 / (1 << 32), 32), z3.Int2BV(n * 8, 32))       # the length in bits as a 64 bit word
    return z3.If(z3.Length(t) + 1 <= 56, BLK(h, z3.Concat(z3.Extract(511, 64, w), bits)), BLK(BLK(h, w), z3.Concat(z3.BitVecVal(0, 448), bits)))
def rol(x, n): return z3.Concat(z3.Extract(31-n, 0, x), z3.Extract(31, 32-n, x))
def compress(h, w):
    """FIPS 180-4 6.1.2; returns the five words and the trace of intermediate values"""
    a, b, c, d, e = h; W = list(w); tr = []
    for t in range(80):
        if t >= 16: x = rol(W[t-3] ^ W[t-8] ^ W[t-14] ^ W[t-16], 1); W.append(x); tr.append(x)
        if t < 20: f, k = (b & c) ^ (~b & d), 0x5a827999
        elif t < 40: f, k = b ^ c ^ d, 0x6ed9eba1
        elif t < 60: f, k = (b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc
        else: f, k = b ^ c ^ d, 0xca62c1d6
        tr.append(f); T = rol(a, 5) + f + e + k + W[t]
        tr.append(T); r = rol(b, 30); tr.append(r)
        e, d, c, b, a = d, c, r, a, T
    return [h[0] + a, h[1] + b, h[2] + c, h[3] + d, h[4] + e], tr
def words(v, p, n): return [v.bv(Ptr(p.obj, p.off + 4*i, p.idx, p.esz, p.sub), 32) for i in range(n)]
def wd(x, i, n): return z3.Extract(32*(n-i)-1, 32*(n-1-i), x)
def join(ws): return zs(z3.Concat(*ws))

# ------------------------------------------------------------------ equality of two bit-vector circuits by sweeping
def order(es):
    seen = {}; out = []; st = [(e, False) for e in es]
    while st:
        x, d = st.pop()
        if d: out.append(x); continue
        if x.get_id() in seen: continue
        seen[x.get_id()] = x; st.append((x, True)); st += [(c, False) for c in x.children()]
    return out
def table(nodes):
    """(id, operation, children, parameters, mask) of each node, read from the solver once"""
    return [(x.get_id(), None if not z3.is_bv(x) else 'val' if z3.is_bv_value(x) else x.decl().kind(), [y.get_id() for y in x.children()], x.as_long() if z3.is_bv_value(x) else x.params() if z3.is_bv(x) and x.num_args() else None,
             [y.size() if z3.is_bv(y) else 0 for y in x.children()], x.size() if z3.is_bv(x) else 0) for x in nodes]
def evaluate(tab, env):
    val = {}
    for i, k, ch, ps, szs, n in tab:
        m = (1 << n) - 1
        if i in env: val[i] = env[i]; continue
        if k is None or any(y not in val for y in ch): return None
        c = [val[y] for y in ch]
        if k == 'val': r = ps
        elif k == z3.Z3_OP_BADD: r = sum(c) & m
        elif k == z3.Z3_OP_BSUB: r = (c[0] - sum(c[1:])) & m
        elif k in (z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = c[0]
            for y in c[1:]: r = r * y & m if k == z3.Z3_OP_BMUL else r & y if k == z3.Z3_OP_BAND else r | y if k == z3.Z3_OP_BOR else r ^ y
        elif k == z3.Z3_OP_BNOT: r = ~c[0] & m
        elif k == z3.Z3_OP_BNEG: r = -c[0] & m
        elif k == z3.Z3_OP_BSHL: r = (c[0] << c[1]) & m if c[1] < n else 0
        elif k == z3.Z3_OP_BLSHR: r = c[0] >> c[1]
        elif k == z3.Z3_OP_EXTRACT: h, l = ps; r = c[0] >> l & ((1 << (h-l+1)) - 1)
        elif k == z3.Z3_OP_CONCAT:
            r = 0
            for y, v in zip(szs, c): r = r << y | v
        elif k == z3.Z3_OP_ZERO_EXT: r = c[0]
        elif k == z3.Z3_OP_ROTATE_LEFT: q = ps[0] % n; r = (c[0] << q | c[0] >> (n-q)) & m
        elif k == z3.Z3_OP_ROTATE_RIGHT: q = ps[0] % n; r = (c[0] >> q | c[0] << (n-q)) & m
        else: return None
        val[i] = r
    return val
def sweep(got, want, trace, leaves, mark):
    """goals which together say got[i] == want[i]: values of the specification's trace are looked for among the values of the code and named, each
    equality being its own small goal over the names introduced before it"""
    import random
    rnd = random.Random(7)
    no = order(got); ns = order(list(want) + list(trace)); N = 48
    vs = []; vi = []; tno = table(no); tns = table(ns)
    for _ in range(N):
        e = {l.get_id(): rnd.getrandbits(l.size()) for l in leaves}
        a, b = evaluate(tno, e), evaluate(tns, e)
        if a is None or b is None: mark(); return [(f'word {i}', g == w) for i, (g, w) in enumerate(zip(got, want))]
        vi.append(a); vs.append(b)
    for a, b in zip(vi, vs):
        if any(a[g.get_id()] != b[w.get_id()] for g, w in zip(got, want)):       # a failing input: say so directly
            at = z3.And(*[l == a[l.get_id()] for l in leaves])
            return [(f'word {i} of the digest', z3.Implies(at, g == w)) for i, (g, w) in enumerate(zip(got, want))]
    mark()               # the small goals may say more than is needed: one which fails is no violation
    sig = {}
    for x in no:
        if z3.is_bv(x) and not z3.is_bv_value(x): sig.setdefault((x.size(),) + tuple(v[x.get_id()] for v in vi), []).append(x)
    goals = []
    li = {l.get_id() for l in leaves}
    pairs = []
    for t in trace:
        for x in sig.get((t.size(),) + tuple(v[t.get_id()] for v in vs), []):
            if x.get_id() not in li: pairs.append((t, x))
    # one pass over the code's nodes and one over the specification's, substituting the names as they become available
    byt, byx = {}, {}
    for t, x in pairs: byt.setdefault(t.get_id(), []).append(x); byx[x.get_id()] = t
    cut = {t.get_id(): z3.BitVec(f'cut{k}', t.size()) for k, t in enumerate(trace) if t.get_id() in byt}
    def build(nodes, cutof):
        new = {}; body = {}
        for x in nodes:
            i = x.get_id(); ch = [new[y.get_id()] for y in x.children()]
            b = x if not ch or all(p.eq(q) for p, q in zip(ch, x.children())) else apply(x, ch)
            body[i] = b; new[i] = cutof.get(i, b)
        return new, body
    def apply(x, ch):
        d = x.decl()
        if x.num_args() == d.arity(): return d(*ch)
        k = d.kind()                      # n-ary forms
        r = ch[0]
        for y in ch[1:]: r = {z3.Z3_OP_BADD: lambda p, q: p + q, z3.Z3_OP_BMUL: lambda p, q: p * q, z3.Z3_OP_BAND: lambda p, q: p & q, z3.Z3_OP_BOR: lambda p, q: p | q, z3.Z3_OP_BXOR: lambda p, q: p ^ q, z3.Z3_OP_CONCAT: lambda p, q: z3.Concat(p, q)}[k](r, y)
        return r
    sn, sb = build(ns, cut)
    cn, cb = build(no, {i: cut[t.get_id()] for i, t in byx.items()})
    for t, x in pairs:
        goals.append((f'intermediate value {len(goals)}', cb[x.get_id()] == sb[t.get_id()]))
    for i, (g, w) in enumerate(zip(got, want)): goals.append((f'word {i} of the digest', cn[g.get_id()] == sn[w.get_id()]))
    return goals

def jobs():
    out = []
    TR = 'fr::transform(unsigned int*, unsigned int*, unsigned long&)'; BB = 'fr::buffer_to_block(string const&, unsigned int*)'
    UP = 'fr::Sha1::update(istream&)'; US = 'fr::Sha1::update(string const&)'; FI = 'fr::Sha1::final()'
    TMAX = 1 << 50
    # ---- the compression function
    def tr_setup(ctx):
        def setup(ex, st):
            h = [z3.BitVec(f'h{i}', 32) for i in range(5)]; w = [z3.BitVec(f'w{i}', 32) for i in range(16)]
            d = Ptr(ex.new_obj(st, 20, 'digest'), 0); b = Ptr(ex.new_obj(st, 64, 'block'), 0); t = Ptr(ex.new_obj(st, 8, 'transforms'), 0)
            for i, x in enumerate(h): ex.setc(st, d.obj, 4*i, 4, IV(32, b=x))
            for i, x in enumerate(w): ex.setc(st, b.obj, 4*i, 4, IV(32, b=x))
            ex.setc(st, t.obj, 0, 8, sym_int(ex, st, 64, 'transforms', 'int')); ctx.update(h=h, w=w)
            return [d, b, t]
        return setup
    ctx = {}
    def raw(ex, st): ex.bvsimp = lambda e: e
    def tr_job_post(o, n, a, r, k):
        got = words(n, a[0], 5); want, tr = compress(ctx['h'], ctx['w'])
        out = [('the block is counted', n.int(a[2]) == z3.If(o.int(a[2]) == (1 << 64) - 1, 0, o.int(a[2]) + 1))]
        g = sweep(got, want, tr, ctx['h'] + ctx['w'], lambda: setattr(n.st, 'tainted', True))
        return out + [('the digest is the FIPS 180-4 compression: ' + nm, x) for nm, x in g]
    def tr_post(o, n, a, r, k):
        x = BLK(join(words(o, a[0], 5)), join(words(o, a[1], 16)))
        return [('compress', n.bv(Ptr(a[0].obj, a[0].off + 4*i), 32) == wd(x, i, 5)) for i in range(5)] + [('counted', n.int(a[2]) == o.int(a[2]) + 1)]
    def tr_mod(v, a): return [('bits', Ptr(a[0].obj, a[0].off + 4*i), 32) for i in range(5)] + [('bits', Ptr(a[1].obj, a[1].off + 4*i), 32) for i in range(16)] + [('int', a[2], 64)]
    TRC = Contract(TR, tr_post, pre=lambda v, a: [('the block counter does not overflow', v.int(a[2]) < (1 << 64) - 1)], modifies=tr_mod)
    out.append(Job('transform', r'fr::transform\(unsigned int\*, unsigned int\*, unsigned long&\)', tr_setup(ctx), tr_job_post, modifies=lambda v, a: [Ptr(a[0].obj, 4*i) for i in range(5)] + [Ptr(a[1].obj, 4*i) for i in range(16)] + [a[2]], prep=raw))
    # ---- bytes to words
    def bb_setup(ex, st):
        p = fresh_str(ex, st, 'buffer'); b = Ptr(ex.new_obj(st, 64, 'block'), 0)
        for i in range(16): ex.setc(st, b.obj, 4*i, 4, IV(32, b=z3.BitVec(f'old{i}', 32)))
        return [p, b]
    def full(v, a): return [('a complete block', z3.Length(v.str(a[0])) == 64)]
    def bb_job_post(o, n, a, r, k):
        s = o.str(a[0])
        return [(f'word {i} is four bytes, first one highest', n.bv(Ptr(a[1].obj, 4*i), 32) == z3.Concat(*[s[4*i+j] for j in range(4)])) for i in range(16)]
    def bb_post(o, n, a, r, k):
        x = WORDS(o.str(a[0])); return [('words', n.bv(Ptr(a[1].obj, a[1].off + 4*i), 32) == wd(x, i, 16)) for i in range(16)]
    BBC = Contract(BB, bb_post, pre=full, modifies=lambda v, a: [('bits', Ptr(a[1].obj, a[1].off + 4*i), 32) for i in range(16)])
    out.append(Job('buffer_to_block', r'fr::buffer_to_block\(string const&, unsigned int\*\)', bb_setup, bb_job_post, pre=full, modifies=lambda v, a: [Ptr(a[1].obj, 4*i) for i in range(16)]))
    # ---- the context
    def F(ex, name): return field(ex, 'Sha1', name)[0]
    def dig(v, p): return join(words(v, Ptr(p.obj, p.off + F(v.ex, 'digest')), 5))
    def buf(v, p): return v.str(Ptr(p.obj, p.off + F(v.ex, 'buffer')))
    def cnt(v, p): return v.int(Ptr(p.obj, p.off + F(v.ex, 'transforms')))
    def sha(ex, st):
        o = ex.new_obj(st, ex.di.size('Sha1'), 'sha1'); p = Ptr(o, 0)
        for i in range(5): ex.setc(st, o, F(ex, 'digest') + 4*i, 4, IV(32, b=z3.BitVec(f'h{i}', 32)))
        sym_str(ex, st, Ptr(o, F(ex, 'buffer')), 'kept'); ex.setc(st, o, F(ex, 'transforms'), 8, sym_int(ex, st, 64, 'transforms', 'int'))
        return p
    def mods(v, a): return [('bits', Ptr(a[0].obj, a[0].off + F(v.ex, 'digest') + 4*i), 32) for i in range(5)] + [Ptr(a[0].obj, a[0].off + F(v.ex, 'buffer')), ('int', Ptr(a[0].obj, a[0].off + F(v.ex, 'transforms')), 64)]
    def jmods(v, a): return [x[1] if isinstance(x, tuple) else x for x in mods(v, a)]
    def newctx(o, n, a, r, k):
        d = dig(n, a[0])
        return [('the digest starts as FIPS 180-4 says', d == H0), ('nothing is kept', buf(n, a[0]) == lit(b'')), ('no blocks yet', cnt(n, a[0]) == 0)]
    out.append(Job('constructor', r'fr::Sha1::Sha1\(\)', lambda ex, st: [Ptr(ex.new_obj(st, ex.di.size('Sha1'), 'sha1'), 0)], newctx, frame=False))
    def keep(v, a): return [('less than a block is kept', z3.Length(buf(v, a[0])) < 64), ('the block counter is far from its end', cnt(v, a[0]) <= TMAX)]
    def rest(v, p): return v.str(Ptr(p.obj, p.off + lib.ISS))
    def upd_post(text, split=True):
        def post(o, n, a, r, k):
            x = cat(buf(o, a[0]), text(o, a)); h = FOLD(dig(o, a[0]), x)
            return [('the digest is the compression folded over the complete blocks', n.bv(Ptr(a[0].obj, a[0].off + F(n.ex, 'digest') + 4*i), 32) == wd(h, i, 5)) for i in range(5)] + \
                   [('what is left over is kept', buf(n, a[0]) == TAIL(x)), ('every block is counted', cnt(n, a[0]) == cnt(o, a[0]) + COUNT(x))]
        return post
    up = {}
    def up_setup(ex, st):
        p = sha(ex, st); o = ex.new_obj(st, 384, 'stream'); q = Ptr(o, 0); sym_str(ex, st, Ptr(o, lib.ISS), 'input'); ex.setc(st, o, lib.ISG, 8, K(64, 0))
        v = View(ex, st); up.update(p=p, q=q, h=dig(v, p), x=cat(buf(v, p), rest(v, q)), t=cnt(v, p)); return [p, q]
    def up_cands(l):
        out = []
        def now(S): return View(l.ex, S)
        def x(S): v = now(S); return cat(buf(v, up['p']), rest(v, up['q']))
        out.append(('folding what is left gives the digest of everything', lambda S: FOLD(dig(now(S), up['p']), x(S)) == FOLD(up['h'], up['x'])))
        out.append(('what is left leaves what everything leaves', lambda S: TAIL(x(S)) == TAIL(up['x'])))
        out.append(('blocks counted so far', lambda S: cnt(now(S), up['p']) + COUNT(x(S)) == up['t'] + COUNT(up['x'])))
        out.append(('less than a block is kept', lambda S: z3.Length(buf(now(S), up['p'])) < 64))
        return out
    upost = upd_post(lambda v, a: rest(v, a[1]))
    def up_post(o, n, a, r, k): return upost(o, n, a, r, k) + [('the input is used up', rest(n, a[1]) == lit(b''))]
    COUNT.facts = lambda s: [COUNT(s) >= 0, COUNT(s) * 64 <= z3.Length(s)]
    TAIL.facts = lambda s: [z3.Length(TAIL(s)) < 64, COUNT(s) * 64 + z3.Length(TAIL(s)) == z3.Length(s)]
    UPC = Contract(UP, up_post, pre=keep, modifies=lambda v, a: mods(v, a) + [Ptr(a[1].obj, a[1].off + lib.ISS), ('int', Ptr(a[1].obj, a[1].off + lib.ISG), 64)])
    def prep(*cs):
        def f(ex, st):
            for c in cs: ex.contracts[c.norm] = c
        return f
    out.append(Job('update stream', r'fr::Sha1::update\(istream&\)', up_setup, up_post, pre=keep, modifies=lambda v, a: jmods(v, a) + [Ptr(a[1].obj, lib.ISS), Ptr(a[1].obj, lib.ISG)], loops={'*': {'cands': up_cands, 'noterm': True}}, prep=prep(TRC, BBC)))
    spost = upd_post(lambda v, a: v.str(a[1]))
    USC = Contract(US, spost, pre=keep, modifies=mods)
    out.append(Job('update string', r'fr::Sha1::update\(string const&\)', lambda ex, st: [sha(ex, st), fresh_str(ex, st, 'input')], spost, pre=keep, modifies=jmods, prep=prep(UPC)))
    # ---- padding
    def bytes_(v, a): return cnt(v, a[0]) * 64 + z3.Length(buf(v, a[0]))
    def fi_posts(F_):
        def post(o, n, a, r, k):
            h = F_(dig(o, a[0]), buf(o, a[0]), bytes_(o, a))
            return [('the digest is that of the padded message', n.bv(Ptr(a[0].obj, a[0].off + F(n.ex, 'digest') + 4*i), 32) == wd(h, i, 5)) for i in range(5)]
        return post
    def fi_cands(l):
        out = []
        t = fctx['t']
        for q in l.strs(mod=True):
            out.append((f'{q} is being padded with zeros', lambda S, q=q: q.seq(S) == cat(t, lit(b'\x80'), ZEROS(z3.Length(q.seq(S)) - z3.Length(t) - 1))))
            out.append((f'{q} is at most a block', lambda S, q=q: z3.And(z3.Length(q.seq(S)) <= 64, z3.Length(q.seq(S)) > z3.Length(t))))
        return out
    fctx = {}
    def fi_meas(l): return [(f'room left in {q}', lambda S, q=q: 64 - z3.Length(q.seq(S))) for q in l.strs(mod=True)]
    def fi_setup(ex, st): p = sha(ex, st); fctx['t'] = buf(View(ex, st), p); return [p]
    FIC = Contract(FI, fi_posts(FIN), pre=keep, modifies=mods)
    out.append(Job('final', r'fr::Sha1::final\(\)', fi_setup, fi_posts(finish), pre=keep, modifies=jmods, loops={'*': {'cands': fi_cands, 'measures': fi_meas}}, prep=prep(TRC, BBC)))
    # ---- the digest of a message
    def d_post(o, n, a, r, k):
        s = o.str(a[1]); h = FIN(FOLD(H0, s), TAIL(s), z3.Length(s)); x = n.str(a[0])
        return [('the digest is twenty bytes', z3.Length(x) == 20)] + [(f'byte {i} of the digest', x[i] == z3.Extract(159 - 8*i, 152 - 8*i, h)) for i in range(20)]
    def d_setup(ex, st): p = fresh_str(ex, st, 'input'); return [raw_str(ex, st), p]
    out.append(Job('sha1_digest', r'fr::Sha1::sha1_digest\(string const&\)', d_setup, d_post, modifies=lambda v, a: [a[0]], prep=prep(USC, FIC)))
    return out
def lemmas():
    s = z3.Const('s', SEQ); r = sub(s, 64, z3.Length(s) - 64); L = z3.Length
    jobs()
    saved = COUNT.facts, TAIL.facts
    hy = lambda x: [COUNT(x) >= 0, COUNT(x) * 64 <= L(x), L(TAIL(x)) < 64, COUNT(x) * 64 + L(TAIL(x)) == L(x)]
    defs = [COUNT(s) == COUNT.body(s), TAIL(s) == TAIL.body(s)]
    COUNT.facts = TAIL.facts = None
    out = [('the blocks and the rest account for every byte of the message (induction step)', hy(r) + defs, z3.Implies(L(s) >= 64, z3.And(*hy(s)))), ('... (base case)', defs, z3.Implies(L(s) < 64, z3.And(*hy(s))))]
    return out

"""C16: WebSocket frames follow RFC 6455 exactly (WebFrame::send / receive over the socket interface contracts)."""
from .pktspec import *
from .. import net
from .C04 import sent_cands, EMOD
ASSUMES = ['an opcode is at most 15 and the final flag 0 or 1 (set_opcode and set_final take no other value; the constructor and receive store none)']
ERR = 5
def pl(v, p): return v.f(p, 'WebFrame', 'payload')
def fld(v, p, n): return v.fld(p, 'WebFrame', n)
# the first n bytes of a string, each exclusive-ored with the key byte of its position
MASK = Rec('MASK', [SEQ, SEQ, z3.IntSort()], SEQ, body=lambda s, q, n: z3.If(n <= 0, z3.Empty(SEQ), z3.Concat(MASK(s, q, z3.simplify(n-1)), z3.Unit(s[z3.simplify(n-1)] ^ q[z3.simplify((n-1) % 4)]))), length=lambda s, q, n: z3.If(n <= 0, I0, n), depth=1)
def frame(ex, st, cls):
    p = sym_obj(ex, st, cls, 'frame'); v = View(ex, st)
    st.assume(z3.And(z3.ULE(v.f(p, cls, 'opcode').bv(), 15), z3.ULE(v.f(p, cls, 'final').bv(), 1))); return p
def b0(v, p): return (v.f(p, 'WebFrame', 'final').bv() << 7) | v.f(p, 'WebFrame', 'opcode').bv()
def header(v, p, client):
    """(condition, first bytes) for the three length forms"""
    n = z3.Length(pl(v, p)); m = 0x80 if client else 0; u = z3.Unit(b0(v, p)); c = lambda x: z3.Unit(z3.BitVecVal(m | x, 8))
    return [(n <= 125, z3.Concat(u, z3.Unit(int2bv(n, 8) | m)), '7 bit'), (z3.And(n > 125, n <= 65535), z3.Concat(u, c(126), be(int2bv(n, 16), 2)), '16 bit'), (n > 65535, z3.Concat(u, c(127), be(int2bv(n, 64), 8)), '64 bit')]
def send_job(client):
    ctx = {}; cls = 'ClientWebFrame' if client else 'ServerWebFrame'
    def setup(ex, st):
        net.wire(ex, st); p = frame(ex, st, cls); ctx['out0'] = st.gh['out']; ctx['pl'] = pl(View(ex, st), p); ex.setc(st, ('g', MASKKEY(ex)), 0, 4, sym_int(ex, st, 32, 'maskkey')); return [p, net.socket_obj(ex, st)]
    def post(o, n, a, r, k):
        s = r.int(); ok = s == net.OK; P_ = ctx['pl']; N = z3.Length(P_); g = n.gh('out'); g0 = ctx['out0']; t = z3.Length(g) - z3.Length(g0); out = []
        for c, h, nm in header(o, a[0], client):
            H = slen(h); key = sub(g, z3.Length(g0) + H, 4)
            want = z3.Concat(g0, h, key, MASK(P_, key, N)) if client else z3.Concat(g0, h, P_)
            out.append((f'{nm} length form: success means exactly the encoded frame was accepted', z3.Implies(z3.And(ok, c), z3.And(g == want, t == H + N + (4 if client else 0)))))
            top = z3.And(t >= 0, t <= H + N + (4 if client else 0), sub(g, 0, z3.Length(g0)) == g0)
            if client: like = z3.And(*[z3.Implies(t > i, g[z3.Length(g0) + i] == x.arg(0)) for i, x in enumerate(flatten(h))])
            else: like = g == z3.Concat(g0, sub(z3.Concat(h, P_), 0, t))
            out.append((f'{nm} length form: whatever the outcome the accepted bytes begin like that frame', z3.Implies(c, z3.And(top, like))))
        return out + [('would-block is retried', s != net.WOULD), ('a failure is reported with the status of the transport', s == n.gh('status'))]
    def cands(l):
        out = sent_cands(ctx)(l)
        for q in l.strs(mod=True):
            for v in l.ints(mod=True):
                for key in KEYS(l):
                    def f(S, q=q, v=v, key=key):
                        i = v.int(S); return None if i is None else q.seq(S) == cat(q.seq(l.st0), MASK(ctx['pl'], key, i))
                    out.append((f'{q} ends in the first {v} payload bytes masked', f))
        return out
    return Job(f'send ({"client" if client else "server"})', r'fr::WebFrame::send\(fr::Socket\*\) const', setup, post, modifies=lambda v, a: [('ghost', 'out'), ('ghost', 'status'), EMOD] + ([Ptr(('g', MASKKEY(v.ex)), 0)] if client else []), loops={'*': {'cands': cands, 'noterm': True}}, contracts=net.IFACE)
def MASKKEY(ex): return next(n for n, d in ex.m.dem.items() if d == 'fr::WebFrame::current_mask_key')
def dec(q, i, client):
    """how the frame at position i of the stream q decodes"""
    h0, h1 = q[i], q[i+1]; masked = z3.Extract(7, 7, h1) == 1; l7 = z3.Extract(6, 0, h1)
    L = z3.If(l7 == 126, z3.BV2Int(be_at(q, i+2, 2)), z3.If(l7 == 127, z3.BV2Int(be_at(q, i+2, 8)), z3.BV2Int(l7)))
    hl = z3.If(l7 == 126, iv(4), z3.If(l7 == 127, iv(10), iv(2)))
    return h0, masked, l7, L, hl
FORMS = (('7 bit', lambda l7: z3.And(l7 != 126, l7 != 127), 2), ('16 bit', lambda l7: l7 == 126, 4), ('64 bit', lambda l7: l7 == 127, 10))
def recv_setup(ctx, cls):
    def setup(ex, st):
        net.wire(ex, st); p = frame(ex, st, cls); s = net.socket_obj(ex, st); ctx['pos0'] = st.gh['pos']; ctx['max'] = View(ex, st).f(s, 'Socket', 'max_receive_size').int(); return [p, s]
    return setup
RMOD = lambda v, a: [fld(v, a[0], 'payload'), fld(v, a[0], 'opcode'), fld(v, a[0], 'final'), ('ghost', 'pos'), ('ghost', 'status'), EMOD]
def length(q, i, nm):
    return z3.BV2Int(z3.Extract(6, 0, q[i+1])) if nm == '7 bit' else z3.BV2Int(be_at(q, i+2, 2 if nm == '16 bit' else 8))
def recv_post(ctx, client):
    def post(o, n, a, r, k):
        if k != 'ret': return []
        q, i, s = n.gh('in'), ctx['pos0'], r.int(); h0, masked, l7, L, hl = dec(q, i, client); t = n.gh('pos') - i; ok = s == net.OK; out = []
        for nm, cond, H in FORMS:
            c = z3.And(ok, cond(l7)); N = length(q, i, nm)
            if client:
                body = sub(q, i + H, N); tot = H + N
            else:
                key = sub(q, i + H, 4); body = MASK(sub(q, i + H + 4, N), key, N); tot = H + 4 + N
            out.append((f'{nm} length form: success consumes exactly the frame', z3.Implies(c, t == tot)))
            out.append((f'{nm} length form: success returns the payload', z3.Implies(c, pl(n, a[0]) == body)))
        right = masked == z3.BoolVal(not client)
        return out + [('the final flag and the opcode are those of the frame', z3.Implies(ok, z3.And(n.f(a[0], 'WebFrame', 'final').bv() == z3.LShR(h0, 7), n.f(a[0], 'WebFrame', 'opcode').bv() == h0 & 15))),
                ('a frame masked wrongly for the direction is rejected with an error', z3.Implies(z3.And(t >= 2, z3.Not(right)), s == ERR)),
                ('a frame is accepted only when masked rightly for the direction', z3.Implies(ok, right)),
                ('would-block and timeout mean nothing was consumed', z3.Implies(z3.Or(s == net.WOULD, s == net.TIMEO), t == 0))]
    return post
def recv_cands(ctx, client):
    def cands(l):
        out = []; p0 = l.st0.gh['pos']
        if l.gmod('pos'): out.append(('nothing more was taken', lambda S: z3.And(S.gh['pos'] == p0, S.gh['pos'] <= z3.Length(S.gh['in']))))
        for q in l.strs(mod=True):
            s0 = q.seq(l.st0); out.append((f'{q} keeps its length', lambda S, q=q, s0=s0: z3.Length(q.seq(S)) == slen(s0)))
            for v in l.ints(mod=True, w=(64,)):
                for key in KEYS(l, l.st0.gh['in']):
                    def f(S, q=q, v=v, s0=s0, key=key):
                        i = v.int(S); return None if i is None else q.seq(S) == cat(MASK(s0, key, i), sub(s0, i, z3.Length(s0) - i))
                    out.append((f'{q} is unmasked up to {v}', f))
        return out
    return cands
def mentions(e, what):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(what): return True
        st += x.children()
    return False
def KEYS(l, src=None):
    """4-byte locals (for received keys: those that hold bytes of the stream)"""
    out = []
    for x in l.locs:
        if x.kind == 'int' and x.v0.w == 32 and not x.mod and x.frame:
            b = [b.bv() for b in l.ex.iv_bytes(x.v0, 4)]
            if src is None or all(mentions(y, src) for y in b): out.append(cat(*[z3.Unit(y) for y in b]))
    return out
def jobs():
    out = [send_job(False), send_job(True)]
    for client in (False, True):
        cls = 'ClientWebFrame' if client else 'ServerWebFrame'; ctx = {}
        out.append(Job(f'receive ({"client" if client else "server"})', r'fr::WebFrame::receive\(fr::Socket\*\)', recv_setup(ctx, cls), recv_post(ctx, client), modifies=RMOD, throws=('std::length_error', 'std::bad_alloc'), loops={'*': {'cands': recv_cands(ctx, client), 'noterm': True}}, contracts=net.IFACE))
    return out

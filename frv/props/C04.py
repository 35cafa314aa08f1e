"""C04: packet framing over a stream is exact (Packet::send / Packet::receive over the socket interface contracts)."""
from .pktspec import *
from .. import net, solve
EMOD = ('int', Ptr(net.ERRNO, 0), 32)
def sent_cands(ctx):
    """the accepted bytes are a prefix of some string"""
    def cands(l):
        out = []
        if not l.gmod('out'): return out
        for q in l.strs() + l.bufs():
            e = q.seq(l.st0)
            if e is None or (solve.is_var(e) and not e.decl().name().startswith('hs!')): continue      # what is sent begins with a length: never a plain input
            for v in l.ints(mod=True):
                out.append((f'the bytes accepted are the first {v} of {q}', lambda S, q=q, v=v: (lambda s, i: None if s is None or i is None else z3.And(i <= slen(s), S.gh['out'] == cat(ctx['out0'], sub(s, 0, i))))(q.seq(S), v.int(S))))
        return out
    return cands
def send_job():
    ctx = {}
    def setup(ex, st):
        net.wire(ex, st); p = pk(ex, st); ctx['out0'] = st.gh['out']; st.assume(z3.Length(buf(View(ex, st), p)) < 2**32 + 4); return [p, net.socket_obj(ex, st)]
    def post(o, n, a, r, k):
        B = buf(o, a[0]); L = z3.Length(B); msg = z3.Concat(be32(L - 4), sub(B, 4, L - 4)); s = r.int(); g = n.gh('out'); g0 = ctx['out0']; t = z3.Length(g) - z3.Length(g0)
        return [('success means the length and exactly the data were accepted', z3.Implies(s == net.OK, g == z3.Concat(g0, msg))),
                ('whatever the outcome the accepted bytes are a prefix of that message', z3.And(t >= 0, t <= L, g == z3.Concat(g0, sub(msg, 0, t)))),
                ('would-block is retried', s != net.WOULD),
                ('a failure is reported with the status of the transport', s == n.gh('status')),
                ('the packet keeps its data', z3.And(z3.Length(buf(n, a[0])) == L, sub(buf(n, a[0]), 4, L - 4) == sub(B, 4, L - 4)))]
    return Job('send', P + r'send\(fr::Socket\*\) const', setup, post, pre=pre, modifies=lambda v, a: [fbuf(v, a[0]), ('ghost', 'out'), ('ghost', 'status'), EMOD], loops={'*': {'cands': sent_cands(ctx), 'noterm': True}}, contracts=net.IFACE)
def recv_setup(ctx):
    def setup(ex, st):
        net.wire(ex, st); p = pk(ex, st); s = net.socket_obj(ex, st); ctx['pos0'] = st.gh['pos']; ctx['max'] = View(ex, st).f(s, 'Socket', 'max_receive_size').int(); ctx['L'] = u32_at(st.gh['in'], st.gh['pos']); return [p, s]
    return setup
def recv_cands(ctx):
    def cands(l):
        return [('only the length was taken', lambda S: z3.And(S.gh['pos'] == ctx['pos0'] + 4, S.gh['pos'] <= z3.Length(S.gh['in'])))] + [(f'{q} has room for the message', lambda S, q=q: z3.Length(q.seq(S)) == ctx['L'] + 4) for q in l.strs(mod=True)]
    return cands
RMOD = lambda v, a: [fbuf(v, a[0]), fix(v, a[0]), ('ghost', 'pos'), ('ghost', 'status'), EMOD]
def recv_post(o, n, a, r, k, ctx):
    i, s, L, q = ctx['pos0'], r.int(), ctx['L'], n.gh('in'); t = n.gh('pos') - i; B = buf(n, a[0])
    idle = z3.Or(s == net.WOULD, s == net.TIMEO)
    return [('success consumes exactly one message', z3.Implies(s == net.OK, t == 4 + L)),
            ('success leaves exactly the data of the message', z3.Implies(s == net.OK, z3.And(z3.Length(B) == 4 + L, sub(B, 4, L) == sub(q, i + 4, L)))),
            ('success leaves it readable from the start', z3.Implies(s == net.OK, ix(n, a[0]) == 4)),
            ('never more than one message is consumed', z3.And(t >= 0, z3.Implies(t >= 4, t <= 4 + L))),
            ('would-block and timeout mean nothing was consumed and the packet is untouched', z3.Implies(idle, z3.And(t == 0, B == buf(o, a[0]), ix(n, a[0]) == ix(o, a[0])))),
            ('the packet stays usable', inv(n, a[0]))]
def jobs():
    ctx = {}
    return [send_job(), Job('receive', P + r'receive\(fr::Socket\*\)', recv_setup(ctx), lambda o, n, a, r, k: recv_post(o, n, a, r, k, ctx), pre=pre, modifies=RMOD, loops={'*': {'cands': recv_cands(ctx), 'noterm': True}}, contracts=net.IFACE)]

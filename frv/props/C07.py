"""C07: receiving an exact amount is all or an error (Socket::receive_all over the contract of receive_raw)."""
from ..sym import *
from ..contract import *
from .. import net
SCOPE = 'fr::Socket::receive_all over every implementation of receive_raw that meets its contract (TcpSocket: C06, SSLSocket: C24)'
def jobs():
    ctx = {}
    def setup(ex, st):
        net.wire(ex, st); p = net.socket_obj(ex, st)
        n = z3.Int(fresh_name('size')); st.assume(z3.And(n >= 0, n <= SYMLEN)); q, s = sym_buf(ex, st, n, 'dest')
        ctx.update(q0=s, pos0=st.gh['pos'], n=n, q=q); return [p, q, II(n)]
    def taken(S): return S.gh['pos'] - ctx['pos0']
    def shape(S): k = taken(S); return cat(sub(ctx_in(S), ctx['pos0'], k), sub(ctx['q0'], k, ctx['n'] - k))
    def ctx_in(S): return S.gh['in']
    def post(o, n, a, r, k):
        t = n.gh('pos') - o.gh('pos'); N = ctx['n']; d = n.st.mem[a[1].obj][0][1].s; s = r.int()
        return [('success only with exactly the amount asked for', z3.Implies(s == net.OK, t == N)),
                ('success stores exactly the next bytes of the stream, in order', z3.Implies(s == net.OK, d == sub(n.gh('in'), o.gh('pos'), N))),
                ('never reads more than asked', z3.And(t >= 0, t <= N)),
                ('failure only short of the amount', z3.Implies(s != net.OK, t < N)),
                ('a failing first read stores nothing and its status is returned', z3.Implies(z3.And(s != net.OK, t == 0), z3.And(d == ctx['q0'], s == n.gh('status')))),
                ('any failure after some bytes is reported as disconnection', z3.Implies(z3.And(s != net.OK, t > 0), s == net.DISC)),
                ('would-block after some bytes is retried', z3.Implies(z3.And(s != net.OK, t > 0), n.gh('status') != net.WOULD)),
                ('a failing receive of more than nothing is never a success', z3.Implies(s != net.OK, n.gh('status') != net.OK))]
    def cands(l):
        out = [('the bytes taken from the stream are at the destination', lambda S: S.mem[ctx['q'].obj][0][1].s == shape(S)),
               ('within the amount', lambda S: z3.And(taken(S) >= 0, taken(S) <= ctx['n']))]
        for v in l.ints(mod=True):
            out.append((f'{v} counts what was taken', lambda S, v=v: v.int(S) == taken(S)))
            out.append((f'{v} counts what remains', lambda S, v=v: v.int(S) == ctx['n'] - taken(S)))
        for p in l.ptrs(mod=True):
            def h(S, p=p):
                v = p.val(S)
                return None if not isinstance(v, Ptr) or v.idx is None or isinstance(v.idx, tuple) or v.obj != ctx['q'].obj else iv(v.idx) == taken(S)
            out.append((f'{p} points past what was taken', h))
        return out
    return [Job('receive_all', r'fr::Socket::receive_all\(void\*, unsigned long\)', setup, post, modifies=lambda v, a: [a[1], ('ghost', 'pos'), ('ghost', 'status'), ('int', Ptr(net.ERRNO, 0), 32)],
        loops={'*': {'cands': cands, 'noterm': True}}, contracts=net.IFACE[2:])]

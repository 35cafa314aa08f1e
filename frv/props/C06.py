"""C06: TCP raw send and receive report exactly what happened."""
from ..sym import *
from ..contract import *
from .. import net
SENDERR, RECVERR = 16, 17
def tcp(ex, st, cls='TcpSocket', fdname='socket_descriptor'):
    net.wire(ex, st); p = sym_obj(ex, st, cls, 'socket'); st.gh['fd'] = simp(View(ex, st).f(p, cls, fdname).sint()); return p
def blocking(v, p): return v.f(p, 'TcpSocket', 'is_blocking').bv() != 0
def err(n): return n.bv(Ptr(net.ERRNO, 0), 32)
EMOD = ('int', Ptr(net.ERRNO, 0), 32)
def send_setup(mk, ctx):
    def setup(ex, st):
        p = mk(ex, st); n = z3.Int(fresh_name('size')); st.assume(z3.And(n >= 0, n <= SYMLEN)); q, s = sym_buf(ex, st, n, 'data')
        c = Ptr(ex.new_obj(st, 8, 'sent'), 0); x = sym_int(ex, st, 64, 'sent', 'int'); ex.setc(st, c.obj, 0, 8, x); st.assume(x.int() <= n)
        ctx.update(s=s, n=n, c=c, sent0=x.int(), out0=st.gh['out']); return [p, q, II(n), c]
    return setup
def send_common(ctx):
    """what holds of the counter and the accepted bytes whatever the outcome"""
    def f(o, n, a, r, k):
        t = n.int(ctx['c']); s = r.int()
        return [('the counter stays within the data and never goes back', z3.And(t >= ctx['sent0'], t <= ctx['n'])),
                ('exactly the bytes the counter moved over were accepted, once and in order', n.gh('out') == cat(ctx['out0'], sub(ctx['s'], ctx['sent0'], t - ctx['sent0']))),
                ('success exactly when all were accepted', (s == net.OK) == (t == ctx['n']))]
    return f
def send_cands(ctx):
    def cands(l):
        def t(S): return l.ex.load(S, ctx['c'], Ty('int', 64)).int()
        return [('the counter stays within the data', lambda S: z3.And(t(S) >= ctx['sent0'], t(S) <= ctx['n'])),
                ('exactly the bytes the counter moved over were accepted', lambda S: S.gh['out'] == cat(ctx['out0'], sub(ctx['s'], ctx['sent0'], t(S) - ctx['sent0'])))] + \
               [(f'{v} is the counter', lambda S, v=v: v.int(S) == t(S)) for v in l.ints(mod=True)] + [(f'{v} remains', lambda S, v=v: v.int(S) == ctx['n'] - t(S)) for v in l.ints(mod=True)] + \
               [(f'{p} points past what was sent', lambda S, p=p: (lambda v: None if not isinstance(v, Ptr) or v.idx is None or isinstance(v.idx, tuple) else iv(v.idx) == t(S))(p.val(S))) for p in l.ptrs(mod=True)]
    return cands
def recv_setup(mk, ctx):
    def setup(ex, st):
        p = mk(ex, st); n = z3.Int(fresh_name('size')); st.assume(z3.And(n >= 1, n <= SYMLEN)); q, s = sym_buf(ex, st, n, 'dest')
        c = Ptr(ex.new_obj(st, 8, 'received'), 0); ex.setc(st, c.obj, 0, 8, sym_int(ex, st, 64, 'received', 'int'))
        ctx.update(q=q, q0=s, n=n, c=c, pos0=st.gh['pos']); return [p, q, II(n), c]
    return setup
def recv_common(ctx):
    def f(o, n, a, r, k):
        t = n.int(ctx['c']); s = r.int(); d = n.st.mem[ctx['q'].obj][0][1].s; g = n.gh('pos') - o.gh('pos'); ok = s == net.OK
        return [('the count is the number of bytes the system delivered', t == g),
                ('success exactly when bytes arrived', z3.And(ok == (g > 0), g <= ctx['n'])),
                ('the destination holds exactly the delivered bytes', d == cat(sub(n.gh('in'), o.gh('pos'), t), sub(ctx['q0'], t, ctx['n'] - t)))]
    return f
def recv_cands(ctx):
    def cands(l):
        return [('nothing received yet', lambda S: S.gh['pos'] == ctx['pos0']), ('nothing stored yet', lambda S: S.mem[ctx['q'].obj][0][1].s == ctx['q0']),
                ('the count is still zero', lambda S: l.ex.load(S, ctx['c'], Ty('int', 64)).int() == 0)]
    return cands
def fix(v, a): return None
def send_post(ctx):
    c = send_common(ctx)
    def post(o, n, a, r, k):
        s = r.int(); e = err(n); b = blocking(o, a[0]); bad = s != net.OK
        return c(o, n, a, r, k) + [('a failure is reported only when the system reported one', z3.Implies(bad, n.gh('ret') == -1)),
            ('no progress in time is a timeout on a blocking and would-block on a non-blocking socket', z3.Implies(z3.And(bad, e == net.EAGAIN), s == z3.If(b, iv(net.TIMEO), iv(net.WOULD)))),
            ('an interruption by a signal is retried', z3.Implies(bad, e != net.EINTR)),
            ('any other failure is a send error', z3.Implies(z3.And(bad, e != net.EAGAIN), s == SENDERR))]
    return post
def recv_post(ctx):
    c = recv_common(ctx)
    def post(o, n, a, r, k):
        s = r.int(); e = err(n); b = blocking(o, a[0]); f = n.gh('ret') < 0
        return c(o, n, a, r, k) + [('the end of the stream is a disconnection', (s == net.DISC) == (n.gh('ret') == 0)),
            ('no data is a timeout on a blocking and would-block on a non-blocking socket', z3.Implies(z3.And(f, e == net.EAGAIN), s == z3.If(b, iv(net.TIMEO), iv(net.WOULD)))),
            ('an interruption by a signal is retried', z3.Implies(f, e != net.EINTR)),
            ('any other failure is a receive error', z3.Implies(z3.And(f, e != net.EAGAIN), s == RECVERR))]
    return post
def jobs():
    a, b = {}, {}
    return [Job('send_raw', r'fr::TcpSocket::send_raw\(.*\)', send_setup(tcp, a), send_post(a), modifies=lambda v, x: [x[3], ('ghost', 'out'), ('ghost', 'ret'), EMOD], loops={'*': {'cands': send_cands(a), 'noterm': True}}),
            Job('receive_raw', r'fr::TcpSocket::receive_raw\(.*\)', recv_setup(tcp, b), recv_post(b), modifies=lambda v, x: [x[1], x[3], ('ghost', 'pos'), ('ghost', 'ret'), EMOD], loops={'*': {'cands': recv_cands(b), 'noterm': True}})]

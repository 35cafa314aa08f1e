"""C24: TLS raw send and receive report exactly what happened."""
from ..sym import *
from ..contract import *
from .. import net
from .C06 import send_setup, recv_setup, send_common, recv_common, send_cands, recv_cands, err, EMOD
SSLERR = 19
ASSUMES = ['the private member receive_timeout is 0: it is set by the constructor and written nowhere else (checked: no store to it outside the constructor)']
def tls(ex, st):
    net.wire(ex, st); p = sym_obj(ex, st, 'SSLSocket', 'socket'); v = View(ex, st)
    o = ex.new_obj(st, None, 'tls session'); offs = [off for off, n, k in ex.di.fields('SSLSocket') if n.startswith('ssl._M_t')]
    ex.setc(st, p.obj, offs[-1], 8, Ptr(o, 0)); st.gh['ssl'] = o
    off, _ = field(ex, 'SSLSocket', 'receive_timeout'); ex.setc(st, p.obj, off, 4, K(32, 0)); return p
def blocking(v, p): return v.f(p, 'SSLSocket', 'is_blocking').bv() != 0
def want(n): return z3.Or(n.gh('ret') == net.WANT_READ, n.gh('ret') == net.WANT_WRITE)
def send_post(ctx):
    c = send_common(ctx)
    def post(o, n, a, r, k):
        s = r.int(); bad = s != net.OK; b = blocking(o, a[0])
        return c(o, n, a, r, k) + [('a failure is reported only when the TLS library reported one', z3.Implies(bad, n.gh('ret') < 0)),
            ('no progress is a timeout on a blocking and would-block on a non-blocking socket', z3.Implies(z3.And(bad, want(n)), s == z3.If(b, iv(net.TIMEO), iv(net.WOULD)))),
            ('any other failure is a TLS error', z3.Implies(z3.And(bad, z3.Not(want(n))), s == SSLERR))]
    return post
def recv_post(ctx):
    c = recv_common(ctx)
    def post(o, n, a, r, k):
        s = r.int(); b = blocking(o, a[0]); g = n.gh('ret'); f = z3.And(g < 0, g != net.PEER_CLOSE)
        return c(o, n, a, r, k) + [('the end of the stream is a disconnection', (s == net.DISC) == z3.Or(g == 0, g == net.PEER_CLOSE)),
            ('no data is a timeout on a blocking and would-block on a non-blocking socket', z3.Implies(want(n), s == z3.If(b, iv(net.TIMEO), iv(net.WOULD)))),
            ('any other failure is a TLS error', z3.Implies(z3.And(f, z3.Not(want(n))), s == SSLERR))]
    return post
def mode_setup(ex, st):
    p = tls(ex, st); st.gh['nb'] = z3.Int(fresh_name('nb')); o = ex.new_obj(st, 4, 'net context'); ex.setc(st, o, 0, 4, sym_int(ex, st, 32, 'fd'))
    offs = [off for off, n, k in ex.di.fields('SSLSocket') if n.startswith('ssl_socket_descriptor._M_t')]; ex.setc(st, p.obj, offs[-1], 8, Ptr(o, 0))
    return [p, Bo(z3.Bool(fresh_name('should_block')))]
def mode_post(o, n, a, r, k):
    s = r.int(); w = a[1].e(); ok = s == net.OK; now = blocking(n, a[0])
    return [('success: the connection and the reported mode are the one asked for', z3.Implies(ok, z3.And(n.gh('nb') == z3.If(w, iv(0), iv(1)), now == w))),
            ('failure: the reported mode is unchanged', z3.Implies(z3.Not(ok), z3.And(now == blocking(o, a[0]), n.gh('nb') == o.gh('nb')))),
            ('a failure is reported as a TLS error', z3.Or(ok, s == SSLERR))]
def jobs():
    a, b = {}, {}
    def off(v, p): return v.fld(p, 'SSLSocket', 'is_blocking')
    from . import C23
    return [Job('connect', r'fr::SSLSocket::connect\(.*\)', C23.make(False), lambda o, n, x, r, k: [('a new connection is reported as blocking', z3.Implies(r.int() == net.OK, blocking(n, x[0])))], frame=False, prep=C23.prep, only=('postcondition',), loops={'*': {'noterm': True}}),
            Job('set_blocking', r'fr::SSLSocket::set_blocking\(bool\)', mode_setup, mode_post, modifies=lambda v, x: [off(v, x[0]), ('ghost', 'nb'), EMOD]),
            Job('send_raw', r'fr::SSLSocket::send_raw\(.*\)', send_setup(tls, a), send_post(a), modifies=lambda v, x: [x[3], ('ghost', 'out'), ('ghost', 'ret'), EMOD], loops={'*': {'cands': send_cands(a), 'noterm': True}}),
            Job('receive_raw', r'fr::SSLSocket::receive_raw\(.*\)', recv_setup(tls, b), recv_post(b), modifies=lambda v, x: [x[1], x[3], ('ghost', 'pos'), ('ghost', 'ret'), EMOD], loops={'*': {'cands': recv_cands(b), 'noterm': True}})]

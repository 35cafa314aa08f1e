"""C23: TLS connect succeeds only after verification."""
from ..sym import *
from ..exec import FnP
from ..contract import *
from .. import net
from . import tcp
EMOD = tcp.EMOD
T = 'SSLSocket'
ASSUMES = ['mbedtls: the handshake verifies the peer as configured when it runs (mode, authorities, host name of the session); ssl_config_defaults for a client requires verification',
           'the TLS configuration and session objects are used through the library functions only']
def ptroff(ex, n): return [off for off, m_, k in ex.di.fields(T) if m_.startswith(n + '._M_t')]
def part(ex, cls, n): return min(off for off, m_, k in ex.di.fields(cls) if m_ == n or m_.startswith(n + '.'))
def mangled(ex, nm): return next(n for n in ex.m.fn_src if n.startswith('_Z') and nm in n)
def make(old):
    def setup(ex, st):
        p = sym_obj(ex, st, T, 'socket'); o = ex.new_obj(st, ex.di.size('SSLContext') if 'SSLContext' in getattr(ex.di, 'sizes', {}) else None, 'ssl context')
        ctxs = [off for off, n, k in ex.di.fields(T) if n.startswith('ssl_context')]; ex.setc(st, p.obj, ctxs[0], 8, Ptr(o, 0)); ex.ssl_context = o
        conf, ca = part(ex, T, 'conf'), part(ex, 'SSLContext', 'cacert')
        net.tls_env(ex, st, Ptr(p.obj, conf), Ptr(o, ca))
        for n, fr, sz in (('ssl_socket_descriptor', 'web_free', 4), ('ssl', 'ssl_free', None)):
            offs = ptroff(ex, n); ex.setc(st, p.obj, offs[0], 8, FnP(mangled(ex, fr)))
            if old:
                q = ex.new_obj(st, sz, 'old ' + n); ex.setc(st, p.obj, offs[-1], 8, Ptr(q, 0))
                if sz: x = z3.BitVec(fresh_name('fd'), 32); st.assume(x >= -1); ex.setc(st, q, 0, 4, IV(32, b=x)); net.gset(st, 'open', net.one(x))
            else: ex.setc(st, p.obj, offs[-1], 8, NULL)
        a, q = fresh_str(ex, st, 'address'), fresh_str(ex, st, 'port'); return [p, a, q, tcp.secs(ex, st, p)]
    return setup
def verify(v, p): return v.f(p, T, 'should_verify').bv() != 0
def connect_post(o, n, a, r, k):
    g = n.gh; ok = r.int() == net.OK; ver = verify(o, a[0])
    return [('success only after a completed handshake of a session set up with this configuration, over the connection made', z3.Implies(ok, z3.And(g('t_hs'), g('t_hcfg'), g('t_hbio')))),
            ('success only after a handshake over an open descriptor', z3.Implies(ok, z3.And(g('t_hfd') >= 0, z3.Select(g('open'), z3.Int2BV(g('t_hfd'), 32))))),
            ('success only after a handshake with verification required', z3.Implies(z3.And(ok, ver), g('t_hauth') == 2)),
            ('success only after a handshake against the configured authorities', z3.Implies(z3.And(ok, ver), g('t_hca'))),
            ('success only after a handshake for the host name asked for', z3.Implies(z3.And(ok, ver), z3.And(g('t_hhset'), g('t_hhost') == lib_cstr(o, a[1])))),
            ('success only with a clean verification result', z3.Implies(z3.And(ok, ver), g('t_vres') == 0)),
            ('any failed step fails the connection', z3.Implies(g('t_bad'), z3.Not(ok))),
            ('the verification switch is unchanged', verify(n, a[0]) == ver)]
def lib_cstr(v, p):
    from ..lib import CSTR
    return CSTR(v.str(p))
def tcp_connect(ex):
    """contract of TcpSocket::connect, as verified by C21 and C22"""
    from . import C21
    norm = next(d for d in ex.m.by_norm if d.startswith('fr::TcpSocket::connect('))
    def post(o, n, a, r, k): return C21.own(tcp.S, C21.connect_post)(o, n, a, r, k) + [('reported as blocking', tcp.blk(n, a[0]))]
    return Contract(norm, post, pre=lambda v, a: [('it owns exactly the descriptors that are open', tcp.owned(v, a[0]))], modifies=tcp.cmod, ret='enum')
def prep(ex, st):
    c = tcp_connect(ex); ex.contracts[c.norm] = c
def tcp_failed(o, n, a, r, k): return []
def ctor_setup(ex, st):
    p = Ptr(ex.new_obj(st, ex.di.size(T), T), 0); c = Ptr(ex.new_obj(st, 16, 'shared'), 0); ex.setc(st, c.obj, 0, 8, Ptr(ex.new_obj(st, None, 'ctx'), 0)); ex.setc(st, c.obj, 8, 8, NULL); return [p, c]
def jobs():
    mods = None
    J = []
    for nm, old in (('first connection', False), ('reconnection', True)):
        J.append(Job(f'connect ({nm})', r'fr::SSLSocket::connect\(.*\)', make(old), connect_post, frame=False, prep=prep, loops={'*': {'noterm': True}}))
    J += [Job('verification switch', r'fr::SSLSocket::verify_certificates\(bool\)', lambda ex, st: [sym_obj(ex, st, T, 'socket'), Bo(z3.Bool(fresh_name('on')))], lambda o, n, a, r, k: [('the switch is as asked', verify(n, a[0]) == a[1].e())], modifies=lambda v, a: [v.fld(a[0], T, 'should_verify')]),
          Job('constructor', r'fr::SSLSocket::SSLSocket\(.*\)', ctor_setup, lambda o, n, a, r, k: [('verification is on unless turned off', verify(n, a[0]))], frame=False)]
    return J

"""Shared by C21 (descriptor lifecycle) and C22 (blocking mode and timeouts): TcpSocket and TcpListener over the descriptor environment of net.py."""
from ..sym import *
from ..contract import *
from .. import net
EMOD = ('int', Ptr(net.ERRNO, 0), 32)
S, LST = 'TcpSocket', 'TcpListener'
NOROUTE, LISTENF, BINDF, ERROR, LOOKUP, ACCEPTERR = 20, 2, 3, 5, 15, 18
def fd(v, p, cls=S): return v.f(p, cls, 'socket_descriptor').bv()
def blk(v, p): return v.f(p, S, 'is_blocking').bv() != 0
def tmo(v, p, w): return v.f(p, S, 'socket_%s_timeout' % w).int()
def mode(v, p):
    """class invariant: the reported mode is the system socket's; without one it is blocking"""
    return z3.If(fd(v, p) >= 0, blk(v, p) == z3.Not(z3.Select(v.gh('nb'), fd(v, p))), blk(v, p))
def owned(v, p, cls=S): return v.gh('open') == net.one(fd(v, p, cls))
def applied(v, p):
    return z3.And(z3.Select(v.gh('rcv'), fd(v, p)) == tmo(v, p, 'read')*1000, z3.Select(v.gh('snd'), fd(v, p)) == tmo(v, p, 'write')*1000)
def sock(ex, st, **k):
    p = sym_obj(ex, st, S, 'socket', intmode=('socket_read_timeout', 'socket_write_timeout')); v = View(ex, st); net.os_env(ex, st, fd(v, p)); st.assume(mode(View(ex, st), p)); return p
def sock_setup(*extra):
    def setup(ex, st):
        p = sock(ex, st); return [p] + [e(ex, st, p) for e in extra]
    return setup
def lst(ex, st):
    p = sym_obj(ex, st, LST, 'listener'); net.os_env(ex, st, fd(View(ex, st), p, LST)); return p
def s_(h): return lambda ex, st, p: fresh_str(ex, st, h)
def secs(ex, st, p): return IV(64, b=z3.BitVec(fresh_name('secs'), 64))
def given(ex, st, p):
    """a descriptor handed over: the object's own, an invalid one, or an open one in blocking mode without timeouts"""
    x = z3.BitVec(fresh_name('given'), 32); o = ex.new_obj(st, 4, 'descriptor'); ex.setc(st, o, 0, 4, IV(32, b=x)); f = fd(View(ex, st), p)
    nb = st.gh['nb']; net.os_env(ex, st, f, x); st.gh['nb'] = nb; st.assume(z3.Or(x == f, z3.Not(z3.Select(nb, x)))); return Ptr(o, 0)
GMOD = [('ghost', 'open'), ('ghost', 'nb'), ('ghost', 'rcv'), ('ghost', 'snd'), ('ghost', 'ailive'), ('ghost', 'ain'), EMOD]
def F(v, p, n, cls=S): return v.fld(p, cls, n)
FDL = lambda v, p, cls=S: ('int', F(v, p, 'socket_descriptor', cls), 32)
BLL = lambda v, p: ('int', F(v, p, 'is_blocking'), 8)
def cmod(v, a): return [F(v, a[0], 'fr_socket_remote_address'), FDL(v, a[0]), BLL(v, a[0])] + GMOD
def this(l, cls):
    """the object under verification, wherever the loop keeps it"""
    return l.ex.job_this
def loop_cands(p, cls):
    def cands(l):
        def V(S): return View(l.ex, S)
        c = [('the open descriptors are exactly the one the object holds', lambda S: owned(V(S), p(), cls)),
             ('the address list is allocated', lambda S: S.gh['ailive'])]
        if cls == S: c += [('reported as blocking', lambda S: blk(V(S), p()))]
        return c
    return cands
CONNECT = r'fr::TcpSocket::connect\(.*\)'
def remember(setup, box):
    def f(ex, st): a = setup(ex, st); box['p'] = a[0]; return a
    return f
def job(name, fn, setup, post, cls=S, loops=True, **k):
    box = {}
    return Job(name, fn, remember(setup, box), post, loops={'*': {'cands': loop_cands(lambda: box['p'], cls), 'measures': lambda l: []}} if loops else None, **k)

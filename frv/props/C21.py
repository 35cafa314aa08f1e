"""C21: TCP descriptors are neither leaked nor closed twice."""
from .tcp import *
from . import C06
ASSUMES = ['close(2) releases the descriptor whatever it returns', 'socket(2) and accept(2) return a descriptor that is not open']
def own(cls, extra=None):
    def post(o, n, a, r, k):
        out = [('the open descriptors are exactly the one the object holds: nothing is leaked', owned(n, a[0], cls)), ('the address list was released', z3.Not(n.gh('ailive')))]
        return out + (extra(o, n, a, r, k) if extra else [])
    return post
def connect_post(o, n, a, r, k):
    s = r.int(); f = fd(n, a[0]); return [('success exactly when it holds a descriptor afterwards', (s == net.OK) == (f >= 0)), ('after a failure it is not connected', z3.Implies(s != net.OK, f < 0))]
def listen_post(o, n, a, r, k):
    s = r.int(); f = fd(n, a[0], LST); return [('success exactly when it holds a descriptor afterwards', (s == net.OK) == (f >= 0)), ('after a failure it is not listening', z3.Implies(s != net.OK, f < 0))]
def set_post(o, n, a, r, k):
    x = o.bv(a[1], 32); return [('the descriptor handed over is the one held', fd(n, a[0]) == x)]
def null_post(o, n, a, r, k):
    return [('handed on: the object holds none', fd(n, a[0]) == -1), ('handed on: it stays open', n.gh('open') == o.gh('open'))]
def dtor_post(o, n, a, r, k): return [('the descriptor was closed', n.gh('open') == net.NOFD)]
def close_post(cls):
    return lambda o, n, a, r, k: [('nothing is held afterwards', fd(n, a[0], cls) < 0), ('the descriptor was closed', n.gh('open') == net.NOFD)]
def raw(cls):
    def setup(ex, st):
        o = ex.new_obj(st, ex.di.size(cls), cls); net.os_env(ex, st); return [Ptr(o, 0)]
    return setup
def ctor_post(cls): return lambda o, n, a, r, k: [('a new object holds nothing', z3.And(fd(n, a[0], cls) == -1, n.gh('open') == net.NOFD))]
def accept_setup(cls):
    def setup(ex, st):
        l = sym_obj(ex, st, LST, 'listener'); c = sym_obj(ex, st, cls, 'client'); v = View(ex, st); lf = fd(v, l, LST)
        if cls != S: net.os_env(ex, st, lf); return [l, c]
        net.os_env(ex, st, lf, fd(v, c)); st.assume(z3.Implies(z3.And(lf >= 0), lf != fd(v, c))); st.assume(mode(View(ex, st), c)); return [l, c]
    return setup
def both(v, a): l, c = fd(v, a[0], LST), fd(v, a[1]); return v.gh('open') == z3.If(c >= 0, z3.Store(net.one(l), c, z3.BoolVal(True)), net.one(l))
def accept_post(o, n, a, r, k):
    s = r.int()
    return [('the open descriptors are exactly the listener\'s and the client\'s', both(n, a)), ('the listener keeps its own', fd(n, a[0], LST) == fd(o, a[0], LST)),
            ('success: the client holds a new descriptor', z3.Implies(s == net.OK, z3.And(fd(n, a[1]) >= 0, z3.Not(z3.Select(o.gh('open'), fd(n, a[1])))))), ('failure: the client is untouched', z3.Implies(s != net.OK, z3.And(fd(n, a[1]) == fd(o, a[1]), s == ACCEPTERR)))]
def move_setup(ex, st):
    p = Ptr(ex.new_obj(st, ex.di.size(LST), 'new'), 0); q = lst(ex, st); return [p, q]
def move_post(o, n, a, r, k):
    return [('the descriptor changes hands', fd(n, a[0], LST) == fd(o, a[1], LST)), ('the open descriptors are unchanged', n.gh('open') == o.gh('open')), ('the moved-from object holds nothing', fd(n, a[1], LST) < 0)]
def io_setup(which, box):
    """raw transfer on a socket in the descriptor environment, with the byte streams of the socket calls"""
    def mk(ex, st):
        p = C06.tcp(ex, st); g = dict(st.gh); net.os_env(ex, st, fd(View(ex, st), p)); st.gh.update({k: v for k, v in g.items() if k not in st.gh}); return p
    return getattr(C06, which + '_setup')(mk, box)
def io_post(o, n, a, r, k): return [('transferring data keeps the descriptor', fd(n, a[0]) == fd(o, a[0])), ('the open descriptors are unchanged', n.gh('open') == o.gh('open'))]
def io_job(which, fn):
    box = {}
    return Job(f'socket: {which}', fn, io_setup(which, box), io_post, modifies=None, frame=False, only=('postcondition',), loops={'*': {'cands': getattr(C06, which + '_cands')(box), 'noterm': True}})
def same(cls):
    return lambda o, n, a, r, k: [('the object keeps its descriptor', fd(n, a[0], cls) == fd(o, a[0], cls)), ('the open descriptors are unchanged', n.gh('open') == o.gh('open'))]
def jobs():
    return [io_job('send', r'fr::TcpSocket::send_raw\(.*\)'), io_job('recv', r'fr::TcpSocket::receive_raw\(.*\)'),
            job('socket: disconnect', r'fr::Socket::disconnect\(\)', sock_setup(), close_post(S), modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0]), ('ghost', 'open'), EMOD]),
            job('socket: set_blocking', r'fr::TcpSocket::set_blocking\(bool\)', sock_setup(lambda ex, st, p: Bo(z3.Bool(fresh_name('b')))), same(S), modifies=lambda v, a: [BLL(v, a[0]), ('ghost', 'nb'), EMOD]),
            job('listener: shutdown', r'fr::TcpListener::shutdown\(\)', lambda ex, st: [lst(ex, st)], same(LST), LST, modifies=lambda v, a: [EMOD]),
            job('connect', CONNECT, sock_setup(s_('address'), s_('port'), secs), own(S, connect_post), modifies=cmod),
            job('socket: close', r'fr::TcpSocket::close_socket\(\)', sock_setup(), close_post(S), modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0]), ('ghost', 'open'), EMOD]),
            job('socket: destructor', r'fr::TcpSocket::~TcpSocket\(\)', sock_setup(), dtor_post, frame=False),
            job('socket: constructor', r'fr::TcpSocket::TcpSocket\(\)', raw(S), ctor_post(S), frame=False),
            job('socket: take over a descriptor', r'fr::TcpSocket::set_descriptor\(void\*\)', sock_setup(given), own(S, set_post), modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0])] + GMOD),
            job('socket: hand on the descriptor', r'fr::TcpSocket::set_descriptor\(void\*\)', sock_setup(lambda ex, st, p: NULL), null_post, modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0])]),
            job('socket: connected', r'fr::TcpSocket::connected\(\) const', sock_setup(), lambda o, n, a, r, k: [('connected exactly when it holds a descriptor', r.e() == (fd(o, a[0]) >= 0))]),
            job('socket: descriptor', r'fr::TcpSocket::get_socket_descriptor\(\) const', sock_setup(), lambda o, n, a, r, k: [('the descriptor it holds', r.bv() == fd(o, a[0]))]),
            job('listen', r'fr::TcpListener::listen\(.*\)', lambda ex, st: [lst(ex, st), fresh_str(ex, st, 'port')], own(LST, listen_post), LST, modifies=lambda v, a: [FDL(v, a[0], LST)] + GMOD),
            job('accept', r'fr::TcpListener::accept\(.*\)', accept_setup(S), accept_post, LST, modifies=lambda v, a: [F(v, a[1], 'fr_socket_remote_address'), FDL(v, a[1]), BLL(v, a[1])] + GMOD),
            job('accept into another kind of socket', r'fr::TcpListener::accept\(.*\)', accept_setup('SSLSocket'), lambda o, n, a, r, k: [('nothing is accepted', z3.And(z3.BoolVal(k == 'std::bad_cast'), n.gh('open') == o.gh('open')))], LST, throws=('std::bad_cast',), modifies=lambda v, a: []),
            job('listener: close', r'fr::TcpListener::close_socket\(\)', lambda ex, st: [lst(ex, st)], close_post(LST), LST, modifies=lambda v, a: [FDL(v, a[0], LST), ('ghost', 'open'), EMOD]),
            job('listener: destructor', r'fr::TcpListener::~TcpListener\(\)', lambda ex, st: [lst(ex, st)], dtor_post, LST, frame=False),
            job('listener: constructor', r'fr::TcpListener::TcpListener\(\)', raw(LST), ctor_post(LST), LST, frame=False),
            job('listener: move', r'fr::TcpListener::TcpListener\(fr::TcpListener&&\)', move_setup, move_post, LST, frame=False),
            job('listener: connected', r'fr::TcpListener::connected\(\) const', lambda ex, st: [lst(ex, st)], lambda o, n, a, r, k: [('listening exactly when it holds a descriptor', r.e() == (fd(o, a[0], LST) >= 0))], LST)]

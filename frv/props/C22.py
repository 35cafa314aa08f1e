"""C22: TCP blocking mode and timeouts reach the system socket."""
from .tcp import *
ASSUMES = ['fcntl(F_SETFL) succeeds only by setting exactly the mode asked for; a failing fcntl changes nothing', 'new descriptors are in blocking mode', 'setsockopt applies the timeval it is given (its result is not inspected)']
def U8(n): return lambda ex, st, p: Bo(z3.Bool(fresh_name(n)))
def block_post(o, n, a, r, k):
    s, w = r.int(), a[1].e(); ok = s == net.OK
    return [('success: the reported mode is the one asked for', z3.Implies(ok, blk(n, a[0]) == w)), ('success: the system socket is in exactly that mode', z3.Implies(z3.And(ok, fd(o, a[0]) >= 0), z3.Select(n.gh('nb'), fd(o, a[0])) == z3.Not(w))),
            ('failure: the reported mode is unchanged', z3.Implies(z3.Not(ok), blk(n, a[0]) == blk(o, a[0]))), ('failure: the system socket is unchanged', z3.Implies(z3.Not(ok), n.gh('nb') == o.gh('nb'))), ('the descriptor is kept', fd(n, a[0]) == fd(o, a[0]))]
def conn_post(o, n, a, r, k):
    ok = r.int() == net.OK
    return [('a new connection is reported as blocking', blk(n, a[0])), ('a new connection is in blocking mode', z3.Implies(ok, z3.Not(z3.Select(n.gh('nb'), fd(n, a[0]))))), ('a new connection gets both timeouts exactly', z3.Implies(ok, applied(n, a[0])))]
def set_post(o, n, a, r, k): return [('the reported mode is the system socket\'s', mode(n, a[0])), ('a new connection gets both timeouts exactly', z3.Implies(fd(n, a[0]) >= 0, applied(n, a[0])))]
def tmo_post(w):
    other = {'read': 'write', 'write': 'read'}[w]; g = {'read': 'rcv', 'write': 'snd'}
    return lambda o, n, a, r, k: [('the timeout is the one given', tmo(n, a[0], w) == a[1].int()), ('it is applied exactly to a connected socket', z3.Implies(fd(o, a[0]) >= 0, z3.Select(n.gh(g[w]), fd(o, a[0])) == a[1].int()*1000)), ('the other one is unchanged', tmo(n, a[0], other) == tmo(o, a[0], other)), ('the mode is untouched', n.gh('nb') == o.gh('nb'))]
def ms(ex, st, p): return sym_int(ex, st, 32, 'ms', 'int')
def jobs():
    J = [job('set_blocking', r'fr::TcpSocket::set_blocking\(bool\)', sock_setup(U8('should_block')), block_post, modifies=lambda v, a: [BLL(v, a[0]), ('ghost', 'nb'), EMOD]),
         job('get_blocking', r'fr::TcpSocket::get_blocking\(\) const', sock_setup(), lambda o, n, a, r, k: [('the reported mode', r.e() == blk(o, a[0]))]),
         job('connect', CONNECT, sock_setup(s_('address'), s_('port'), secs), conn_post, modifies=cmod),
         job('take over a descriptor', r'fr::TcpSocket::set_descriptor\(void\*\)', sock_setup(given), set_post, modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0])] + GMOD),
         job('hand on the descriptor', r'fr::TcpSocket::set_descriptor\(void\*\)', sock_setup(lambda ex, st, p: NULL), lambda o, n, a, r, k: [('reported as blocking', blk(n, a[0]))], modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0])]),
         job('close', r'fr::TcpSocket::close_socket\(\)', sock_setup(), lambda o, n, a, r, k: [('reported as blocking', blk(n, a[0]))], modifies=lambda v, a: [FDL(v, a[0]), BLL(v, a[0]), ('ghost', 'open'), EMOD]),
         job('apply options', r'fr::TcpSocket::reconfigure_socket\(\)', sock_setup(), lambda o, n, a, r, k: [('both timeouts are applied exactly', z3.Implies(fd(o, a[0]) >= 0, applied(n, a[0])))], modifies=lambda v, a: [('ghost', 'rcv'), ('ghost', 'snd'), EMOD])]
    for w, nm in (('read', 'receive'), ('write', 'send')):
        J.append(job(f'set_{nm}_timeout', rf'fr::Socket::set_{nm}_timeout\(unsigned int\)', sock_setup(ms), tmo_post(w), modifies=lambda v, a, w=w: [('int', F(v, a[0], f'socket_{w}_timeout'), 32), ('ghost', 'rcv'), ('ghost', 'snd'), EMOD]))
        J.append(job(f'get_{nm}_timeout', rf'fr::Socket::get_{nm}_timeout\(\) const', sock_setup(), lambda o, n, a, r, k, w=w: [('the timeout set', r.int() == tmo(o, a[0], w))]))
    J.append(job('constructor', r'fr::TcpSocket::TcpSocket\(\)', lambda ex, st: [Ptr((net.os_env(ex, st), ex.new_obj(st, ex.di.size(S), S))[1], 0)], lambda o, n, a, r, k: [('starts out blocking, without timeouts', z3.And(blk(n, a[0]), tmo(n, a[0], 'read') == 0, tmo(n, a[0], 'write') == 0))], frame=False))
    return J

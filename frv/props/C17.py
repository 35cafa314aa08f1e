"""C17: WebSocket handshake accepts only a valid upgrade.

WebSocket<TcpSocket>::connect, set_descriptor and disconnect are verified against contracts of what they compose: sending and receiving a message
(C08-C13 verify parsing and construction), the digest (C19), base64 (C18) and the TCP socket (C21)."""
from .tcp import *
from ..spec import Rec
from .. import lib
from ..lib import out
MONITOR_SECS = 25
ASSUMES = ['Socket::receive gives Success only with a message object which holds what was received (contracts of C08-C11 and C13), and otherwise leaves it with any content', 'Socket::send puts the message given onto the wire (C12, C06) or fails',
           'TcpSocket::connect gives Success only with a descriptor, and close_socket leaves none (C21)', 'Base64::encode and Sha1::sha1_digest are functions of their argument (C18, C19)']
B64 = Rec('WS_BASE64', [SEQ], SEQ, facts=lambda s: [z3.Length(B64(s)) <= 2*z3.Length(s) + 4]); SHA = Rec('WS_SHA1', [SEQ], SEQ, length=lambda s: iv(20))
GUID = lit(b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11')
WS = 'vtable for fr::WebSocket<fr::TcpSocket>'
HANDSHAKE = 8
def log(st): return st.gh.get(('ws', 'log'), ())
def put(st, e): st.gh = dict(st.gh); st.gh[('ws', 'log')] = log(st) + (e,)
class Pure(net.Iface):
    def __init__(s, norm, f): s.norm = norm; s.f = f
    def apply(s, ex, st, a, I):
        q = s.f(ex.str(st, a[1])); st.assume(z3.Length(q) <= MAXLEN); ex.setc(st, a[0].obj, a[0].off, 32, Str(q)); return out(st)
def kind_of(ex, st, p):
    c = ex.cells(st, p.obj).get(p.off); v = c[1] if c else None
    if isinstance(v, Ptr) and isinstance(v.obj, tuple):
        n = ex.m.dem.get(v.obj[1], '')
        if n.startswith('vtable for fr::'): return n[15:]
    raise Unsupported('message of an unknown class')
def members(ex, st, p, cls):
    v = View(ex, st); return {n: v.f(p, cls, n) for n in (('header_data', 'status', 'uri', 'request_type', 'version', 'body', 'get_data', 'post_data') if cls.startswith('Http') else ('opcode',))}
class Send(net.Iface):
    def apply(s, ex, st, a, I):
        cls = kind_of(ex, st, a[1]); x = net.status(st); put(st, ('send', cls, members(ex, st, a[1], cls), x, a[0])); return out(st, II(x, 32))
class Receive(net.Iface):
    """any message of the class may arrive"""
    def apply(s, ex, st, a, I):
        cls = kind_of(ex, st, a[1]); ex.oblige(st, z3.BoolVal(cls in ('HttpRequest', 'HttpResponse')), 'an HTTP message is received')
        q = sym_obj(ex, st, cls, 'received')
        for off, n, k in ex.di.fields(cls):
            c = ex.cells(st, q.obj).get(off)
            if c and k[0] != 'vptr': ex.setc(st, a[1].obj, a[1].off + off, c[0], c[1])
        x = net.status(st); net.set_errno(ex, st); put(st, ('receive', cls, members(ex, st, a[1], cls), x, a[0])); return out(st, II(x, 32))
class Fd(net.Iface):
    def __init__(s, norm, f): s.norm = norm; s.f = f
    def apply(s, ex, st, a, I): return s.f(ex, st, a, View(ex, st).fld(a[0], S, 'socket_descriptor'))
def fdv(st, ex, q): return View(ex, st).bv(q, 32)
def setfd(ex, st, q, cond): x = z3.BitVec(fresh_name('fd'), 32); st.assume(cond(x)); ex.setc(st, q.obj, q.off, 4, IV(32, b=x))
def c_connect(ex, st, a, q):
    x = net.status(st); net.set_errno(ex, st); setfd(ex, st, q, lambda f: z3.Implies(x == net.OK, f >= 0)); put(st, ('connect', x)); return out(st, II(x, 32))
def c_close(ex, st, a, q): setfd(ex, st, q, lambda f: f == -1); net.set_errno(ex, st); put(st, ('close',)); return out(st)
def c_setfd(ex, st, a, q):
    null = a[1].null if isinstance(a[1], Ptr) else False
    setfd(ex, st, q, lambda f: f == -1 if null else f >= -1); put(st, ('descriptor',)); return out(st)
def prep(ex, st):
    from .http import norm_of
    for c in (Send(norm_of(ex, r'fr::Socket::send\(fr::Sendable const&\)')), Receive(norm_of(ex, r'fr::Socket::receive\(fr::Sendable&\)')), Pure(norm_of(ex, r'fr::Base64::encode\(string const&\)'), B64), Pure(norm_of(ex, r'fr::Sha1::sha1_digest\(string const&\)'), SHA),
              Fd(norm_of(ex, r'fr::TcpSocket::connect\(.*\)'), c_connect), Fd(norm_of(ex, r'fr::TcpSocket::close_socket\(\)'), c_close), Fd(norm_of(ex, r'fr::TcpSocket::set_descriptor\(void\*\)'), c_setfd)): ex.contracts[c.norm] = c
def this_ws(ex, st):
    p = sym_obj(ex, st, S, 'socket', intmode=('socket_read_timeout', 'socket_write_timeout')); vt = next((n for n, d in ex.m.dem.items() if d == WS and n in ex.m.glob_src), None)
    if vt is None: raise Unsupported('virtual table of the WebSocket')
    ex.setc(st, p.obj, 0, 8, Ptr(('g', vt), 16)); net.errno_ptr(ex, st); return p
def hdr(m, k): return z3.And(z3.Select(m['header_data'].dom, lit(k))), z3.Select(m['header_data'].val, lit(k))
def is_(m, k, v): d, x = hdr(m, k); return z3.And(d, x == v)
def accept(key): return B64(SHA(cat(key, GUID)))
def events(n, kind): return [e for e in log(n.st) if e[0] == kind]
def conn_post():
    def post(o, n, a, r, k):
        s = r.int(); L = log(n.st); down = fd(n, a[0]) == -1; c = events(n, 'connect'); P = [('exactly one connection is attempted', z3.BoolVal(len(c) == 1 and L[0][0] == 'connect'))]
        if len(c) != 1: return P
        msgs = [e for e in events(n, 'send') if e[1] != 'ClientWebFrame']; rec = events(n, 'receive')
        if not msgs: return P + [('without a connection its status is returned', z3.And(c[0][1] != net.OK, s == c[0][1]))]
        rq = msgs[0]; m = rq[2]; d, key = hdr(m, b'sec-websocket-key')
        P += [('one request is sent, and only over a connection', z3.And(z3.BoolVal(len(msgs) == 1 and rq[1] == 'HttpRequest' and L[1] is rq), c[0][1] == net.OK)),
              ('the request asks for a websocket upgrade', z3.And(d, is_(m, b'upgrade', lit(b'websocket')), is_(m, b'connection', lit(b'upgrade')), is_(m, b'sec-websocket-version', lit(b'13'))))]
        if not rec: return P + [('a failed request is reported', z3.And(rq[3] != net.OK, s == rq[3]))]
        rs = rec[0]; h = rs[2]; ha, acc = hdr(h, b'sec-websocket-accept')
        good = z3.And(h['status'].bv() == 101, ha, acc == accept(key)); ok = rs[3] == net.OK; up = z3.And(h['status'].bv() == 101, z3.If(ha, acc, lit(b'')) == accept(key))
        return P + [('one answer is read', z3.BoolVal(len(rec) == 1 and rs[1] == 'HttpResponse')), ('success only with status 101 and the accept value of the key sent', z3.Implies(s == net.OK, z3.And(ok, up))),
                    ('such an answer is a success', z3.Implies(z3.And(ok, good), s == net.OK)), ('any other answer is a handshake failure', z3.Implies(z3.And(ok, z3.Not(up)), s == HANDSHAKE)),
                    ('a handshake failure leaves the socket disconnected', z3.Implies(z3.And(ok, z3.Not(up)), down)), ('a missing or malformed answer is reported as such', z3.Implies(z3.Not(ok), s == rs[3]))]
    return post
def serve_post(o, n, a, r, k):
    rec = events(n, 'receive'); snd = events(n, 'send')
    if k != 'ret':
        if not rec: return [('only a handshake throws', z3.BoolVal(False))]
        m = rec[0][2]; ha, up = hdr(m, b'upgrade'); good = z3.And(ha, up == lit(b'websocket'), m['request_type'].bv() == 0)
        return [('a rejected request is not answered', z3.BoolVal(not snd)), ('only what is no upgrade request is rejected', z3.Or(rec[0][3] != net.OK, z3.Not(good)))]
    if not rec: return [('nothing is sent without a request', z3.BoolVal(not snd)), ('only a socket without descriptor skips the handshake', z3.Or(fd(n, a[0]) == -1, z3.BoolVal(isinstance(a[1], Ptr) and a[1].null)))]
    m = rec[0][2]; ha, up = hdr(m, b'upgrade'); P = [('one request is read', z3.BoolVal(len(rec) == 1 and rec[0][1] == 'HttpRequest')), ('only a GET asking for a websocket is accepted', z3.And(rec[0][3] == net.OK, ha, up == lit(b'websocket'), m['request_type'].bv() == 0)),
        ('exactly one answer is sent', z3.BoolVal(len(snd) == 1 and snd[0][1] == 'HttpResponse'))]
    if len(snd) != 1 or snd[0][1] != 'HttpResponse': return P
    h = snd[0][2]; hk, key = hdr(m, b'sec-websocket-key'); key = z3.If(hk, key, lit(b''))
    return P + [('the answer has status 101', h['status'].bv() == 101), ('the answer switches to a websocket', z3.And(is_(h, b'upgrade', lit(b'websocket')), z3.Select(h['header_data'].dom, lit(b'connection')))),
                ('the answer carries the accept value of the key received', is_(h, b'sec-websocket-accept', accept(key)))]
def cands(l):
    out = []
    for q in l.maps(mod=True):
        def g(S, q=q):
            e = S.mem.get(q.obj, {}).get(q.off); return e[1] if e and isinstance(e[1], Map) else None
        m0 = g(l.st0)
        if m0 is None or m0.kk != 'str' or m0.vk != 'str': continue
        for kb in (b'sec-websocket-key', b'sec-websocket-version', b'sec-websocket-protocol', b'connection', b'upgrade'):
            kx = lit(kb)
            out.append((f'header {kb.decode()} stays', lambda S, g=g, kx=kx, m0=m0: z3.Select(g(S).dom, kx) == z3.Select(m0.dom, kx)))
            out.append((f'header {kb.decode()} keeps its value', lambda S, g=g, kx=kx, m0=m0: z3.Select(g(S).val, kx) == z3.Select(m0.val, kx)))
    for i in l.ints(mod=True): out.append((f'{i} counts up', lambda S, i=i: i.int(S) >= 1))
    return out
def jobs():
    J = []; FN = r'fr::WebSocket<fr::TcpSocket>::'
    def vecstr(ex, st, h):
        o = ex.new_obj(st, 24, h); q = z3.Const(fresh_name(h), z3.SeqSort(SEQ)); st.assume(z3.Length(q) <= 2**31 - 1); ex.setc(st, o, 0, 24, Vec(q, 'str', 32)); return Ptr(o, 0)
    def c5(ex, st): p = this_ws(ex, st); return [p, fresh_str(ex, st, 'address'), fresh_str(ex, st, 'port'), fresh_str(ex, st, 'path'), vecstr(ex, st, 'protocols'), sym_int(ex, st, 64, 'timeout', 'int')]
    def c3(ex, st): p = this_ws(ex, st); return [p, fresh_str(ex, st, 'address'), fresh_str(ex, st, 'port'), sym_int(ex, st, 64, 'timeout', 'int')]
    L = {'*': {'cands': cands, 'noterm': True}}
    J.append(Job('connect', FN + r'connect\(string const&, string const&, string const&, .*\)', c5, conn_post(), frame=False, loops=L, prep=prep))
    J.append(Job('connect with the default path', FN + r'connect\(string const&, string const&, chrono.*\)', c3, conn_post(), frame=False, loops=L, prep=prep))
    def sv(null):
        def f(ex, st): p = this_ws(ex, st); return [p, NULL if null else Ptr(ex.new_obj(st, 4, 'descriptor'), 0)]
        return f
    J.append(Job('accept a client', FN + r'set_descriptor\(void\*\)', sv(False), serve_post, frame=False, throws=('std::runtime_error',), loops=L, prep=prep))
    J.append(Job('give up the descriptor', FN + r'set_descriptor\(void\*\)', sv(True), serve_post, frame=False, throws=('std::runtime_error',), loops=L, prep=prep))
    def dis_post(o, n, a, r, k):
        snd = events(n, 'send'); conn = fd(o, a[0]) > -1
        return [('the socket is disconnected', fd(n, a[0]) == -1), ('only a connected socket says good-bye', z3.And(conn == z3.BoolVal(len(snd) == 1), z3.BoolVal(len(snd) <= 1))), ('the good-bye is a disconnect frame', z3.And([z3.And(z3.BoolVal(e[1] == 'ClientWebFrame'), e[2]['opcode'].bv() == 8) for e in snd]))]
    J.append(Job('disconnect', FN + r'disconnect\(\)', lambda ex, st: [this_ws(ex, st)], dis_post, frame=False, prep=prep))
    return J

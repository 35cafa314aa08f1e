"""Assumed contracts of the operating system's socket calls, over ghost streams:
gh['in'] all bytes the peer ever sends (unknown, fixed), gh['pos'] how many of them were consumed, gh['out'] all bytes accepted for sending."""
import z3
from .sym import *
from .lib import m, out, num
from .llir import I32, I64, PTR, Ty
from .contract import forget
EAGAIN, EINTR = 11, 4
ERRNO = 'errno'
def errno_ptr(ex, st):
    if ERRNO not in st.mem: st.mem[ERRNO] = {}; st.osz[ERRNO] = 4; ex.setc(st, ERRNO, 0, 4, IV(32, b=z3.BitVec(fresh_name('errno'), 32)))
    return Ptr(ERRNO, 0)
def set_errno(ex, st):
    """some non-zero error number"""
    e = z3.BitVec(fresh_name('errno'), 32); st.assume(e != 0); errno_ptr(ex, st); ex.setc(st, ERRNO, 0, 4, IV(32, b=e)); return e
def errno(ex, st): errno_ptr(ex, st); return ex.cells(st, ERRNO)[0][1].bv()
def wire(ex, st):
    """ghost streams"""
    st.gh = dict(st.gh); st.gh['in'] = z3.Const(fresh_name('in'), SEQ); st.gh['pos'] = z3.Int(fresh_name('pos')); st.gh['out'] = z3.Const(fresh_name('out'), SEQ); st.gh['status'] = z3.Int(fresh_name('st')); st.gh['ret'] = z3.Int(fresh_name('ret'))
    st.assume(z3.And(st.gh['pos'] >= 0, st.gh['pos'] <= z3.Length(st.gh['in']), z3.Length(st.gh['in']) <= SYMLEN, z3.Length(st.gh['out']) <= SYMLEN)); errno_ptr(ex, st)
def gset(st, k, v): st.gh = dict(st.gh); st.gh[k] = v
def need(st, k):
    if k not in st.gh: raise Unsupported('system call outside the modelled environment')
    return st.gh[k]
def args_n(v): return v.c if isinstance(v, IV) and v.conc else v.int()
def deliver(ex, st, p, n, what):
    """the next n bytes of the stream arrive at p"""
    q, pos = st.gh['in'], st.gh['pos']; c = conc_int(n)
    ex.write_seq(st, p, sub(q, pos, n) if c is None or not 0 < c <= 16 else cat(*[z3.Unit(q[simp(pos + k)]) for k in range(c)]), n, what); gset(st, 'pos', simp(pos + n))
def log_fd(st, fd): pass
def stream_read(ex, st, p, n, what, zero=True):
    """[(state, kind, count)]: 'data' with 1..n bytes delivered, 'end' for end of stream, 'fail'"""
    n = iv(n); res = []
    a = st.copy(); r = fresh_int('got', None, None); a.assume(z3.And(r >= 1, r <= n, a.gh['pos'] + r <= z3.Length(a.gh['in'])))
    if ex.feasible(a): deliver(ex, a, p, r, what); res.append((a, 'data', r))
    b = st.copy(); res.append((b, 'end', None)); res.append((st, 'fail', None)); return res
def need_room(ex, st, p, n, what):
    """the buffer must have room for everything that was asked for"""
    ex.read_seq(st, p, n, what)
def outcome(st, k, w):
    """the value k, known through the path condition only (so that loops deciding on it are not mistaken for loops over constants)"""
    x = fresh_int('outcome', 0, (1 << w)-1); st.assume(x == k % (1 << w)); return II(x, w)
@m(r'recv')
def recv(ex, st, a, mm, I):
    need(st, 'in'); n = num(a[2]); fdcheck(ex, st, a[0], 'recv')
    room(ex, st, a[1], n, 'recv')
    if conc_int(a[3].int()) != 0: raise Unsupported('recv flags')
    res = []
    for s1, k, r in stream_read(ex, st, a[1], n, 'recv'):
        if k == 'data': gset(s1, 'ret', r); res += out(s1, II(r, 64))
        elif k == 'end': gset(s1, 'ret', iv(0)); res += out(s1, outcome(s1, 0, 64))
        else: set_errno(ex, s1); gset(s1, 'ret', iv(-1)); res += out(s1, outcome(s1, -1, 64))
    return res
def room(ex, st, p, n, what):
    """n bytes at p may be written"""
    if not isinstance(p, Ptr) or p.null: ex.oblige(st, iv(n) == 0, f'{what}: valid buffer'); return
    p = ex.elem(st, p)
    if p.idx is None:
        c = conc_int(n)
        if c is None: raise Unsupported('symbolic length access to scalars')
        sz = st.osz.get(p.obj)
        if sz is not None: ex.oblige(st, p.off + c <= sz, f'{what}: buffer has room for what is asked for')
        return
    c = ex.cells(st, p.obj).get(p.off); l = c[1] if c else None
    if not isinstance(l, (Str, Buf)): raise Unsupported('buffer')
    ex.oblige(st, z3.And(iv(p.idx) >= 0, iv(n) >= 0, iv(p.idx) + n <= slen(l.s)), f'{what}: buffer has room for what is asked for')
def fdcheck(ex, st, fd, what):
    """when descriptors are tracked: the descriptor is the object's own open one"""
    if 'fd' in st.gh: ex.oblige(st, fd.sint() == st.gh['fd'], f'{what} uses the descriptor of this socket')
@m(r'send')
def send(ex, st, a, mm, I):
    need(st, 'out'); n = num(a[2]); fdcheck(ex, st, a[0], 'send')
    q = ex.read_seq(st, a[1], n, 'send')
    if conc_int(a[3].int()) not in (0, 0x4000): raise Unsupported('send flags')
    s1 = st.copy(); r = fresh_int('accepted', None, None); s1.assume(z3.And(r >= 0, r <= iv(n)))
    c = conc_int(slen(q))
    gset(s1, 'out', cat(s1.gh['out'], sub(q, 0, r)))
    set_errno(ex, st); gset(s1, 'ret', r); gset(st, 'ret', iv(-1))
    return out(s1, II(r, 64)) + out(st, outcome(st, -1, 64))
@m(r'__errno_location')
def errloc(ex, st, a, mm, I): return errno_ptr(ex, st)

@m(r'time')
def time_(ex, st, a, mm, I):
    v = sym_time(st)
    if isinstance(a[0], Ptr) and not a[0].null: ex.store(st, a[0], v, I64)
    return out(st, v)
def sym_time(st): x = fresh_int('time', 0, 2**40); st.assume(range_fact(x)); return II(x, 64)

# ------------------------------------------------------------------ contracts of the fr::Socket interface (each implementation is verified against them: C06, C07, C24)
OK, DISC, WOULD, TIMEO = 1, 4, 6, 21
class Iface:
    """contract of a virtual function with an explicit transition; throws nothing"""
    trusted = True; throws = ()
    def __init__(s, norm): s.norm = norm
    def usable(s, ex): return True
    def apply(s, ex, st, a, I):
        res = s.step(ex, st, a, I)
        for s1, k, v in res: gset(s1, 'status', iv(v.c) if v.conc else v.int())      # the status last returned
        return res
def status(st, h='status'):
    x = fresh_int(h, 0, 21); st.assume(range_fact(x)); st.assume(z3.And(x >= 0, x <= 21)); return x
class ReceiveAll(Iface):
    """success: exactly the next n bytes of the stream are at the destination. failure: fewer were consumed; if any was, the status is disconnected"""
    def step(s, ex, st, a, I):
        n = num(a[2]); need(st, 'in'); room(ex, st, a[1], n, 'receive_all')
        ok = st.copy(); ok.assume(ok.gh['pos'] + iv(n) <= z3.Length(ok.gh['in']))
        res = []
        if ex.feasible(ok): deliver(ex, ok, a[1], n, 'receive_all'); res += out(ok, outcome(ok, OK, 32))
        f = st; c = conc_int(n)
        if c == 0: return res
        f.assume(iv(n) > 0)
        if not ex.feasible(f): return res
        x = status(f); k = fresh_int('some', None, None)
        f.assume(z3.And(x != OK, k >= 0, k < iv(n), f.gh['pos'] + k <= z3.Length(f.gh['in']), z3.Implies(k > 0, x == DISC)))
        q = z3.Const(fresh_name('partial'), SEQ); f.assume(z3.Length(q) == n); ex.write_seq(f, a[1], q, n, 'receive_all')
        gset(f, 'pos', simp(f.gh['pos'] + k)); set_errno(ex, f)
        res += out(f, II(x, 32)); return res
class ReceiveRaw(Iface):
    """success: between 1 and n bytes of the stream are at the destination and counted; failure: nothing consumed or stored, count 0"""
    def step(s, ex, st, a, I):
        n = num(a[2]); need(st, 'in'); room(ex, st, a[1], n, 'receive_raw')
        ok = st.copy(); r = fresh_int('got', None, None); ok.assume(z3.And(r >= 1, r <= iv(n), ok.gh['pos'] + r <= z3.Length(ok.gh['in'])))
        res = []
        if ex.feasible(ok):
            deliver(ex, ok, a[1], r, 'receive_raw'); ex.store(ok, a[3], II(r, 64), I64); res += out(ok, outcome(ok, OK, 32))
        x = status(st); st.assume(x != OK); ex.store(st, a[3], K(64, 0), I64); set_errno(ex, st)
        res += out(st, II(x, 32)); return res
class SendRaw(Iface):
    """the bytes from the counter up to its new value were accepted, in order; success: all of them"""
    def step(s, ex, st, a, I):
        n = num(a[2]); need(st, 'out'); q = ex.read_seq(st, a[1], n, 'send_raw'); p = a[3]
        sent = ex.load(st, p, I64).int(); ex.oblige(st, sent <= iv(n), 'send_raw: the counter is within the data', 'precondition')
        ok = st.copy(); gset(ok, 'out', cat(ok.gh['out'], sub(q, sent, simp(iv(n) - sent)))); ex.store(ok, p, II(iv(n), 64) if conc_int(n) is None else K(64, conc_int(n)), I64)
        res = out(ok, outcome(ok, OK, 32))
        x = status(st); t = fresh_int('sent', None, None); st.assume(z3.And(x != OK, t >= sent, t <= iv(n)))
        gset(st, 'out', cat(st.gh['out'], sub(q, sent, simp(t - sent)))); ex.store(st, p, II(t, 64), I64); set_errno(ex, st)
        res += out(st, II(x, 32)); return res
IFACE = [ReceiveAll('virtual fr::Socket::receive_all'), ReceiveAll('fr::Socket::receive_all(void*, unsigned long)'), ReceiveRaw('virtual fr::Socket::receive_raw'), SendRaw('virtual fr::Socket::send_raw')]
def socket_obj(ex, st, cls='Socket'):
    """some socket, known only by its interface"""
    from .contract import sym_obj, field
    p = sym_obj(ex, st, 'Socket', 'socket')
    ex.setc(st, p.obj, 0, 8, VTab('fr::Socket'))
    return p

# ------------------------------------------------------------------ mbedtls, over the same ghost streams
PEER_CLOSE, WANT_READ, WANT_WRITE = -0x7880, -0x6900, -0x6880
def neg32(st, h='sslerr'): x = fresh_int(h, 2**31, 2**32-1); st.assume(range_fact(x)); return x
def sslcheck(ex, st, p, what):
    if 'ssl' in st.gh: ex.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.obj == st.gh['ssl']), f'{what} uses the TLS session of this socket')
@m(r'mbedtls_ssl_read')
def ssl_read(ex, st, a, mm, I):
    need(st, 'in'); n = num(a[2]); sslcheck(ex, st, a[0], 'mbedtls_ssl_read'); room(ex, st, a[1], n, 'mbedtls_ssl_read')
    res = []
    for s1, k, r in stream_read(ex, st, a[1], n, 'mbedtls_ssl_read'):
        if k == 'data': s1.assume(r < 2**31); gset(s1, 'ret', r); res += out(s1, II(r, 32))
        elif k == 'end': gset(s1, 'ret', iv(0)); res += out(s1, outcome(s1, 0, 32))
        else: x = neg32(s1); gset(s1, 'ret', simp(x - 2**32)); res += out(s1, II(x, 32))
    return res
@m(r'mbedtls_ssl_write')
def ssl_write(ex, st, a, mm, I):
    need(st, 'out'); n = num(a[2]); sslcheck(ex, st, a[0], 'mbedtls_ssl_write'); q = ex.read_seq(st, a[1], n, 'mbedtls_ssl_write')
    s1 = st.copy(); r = fresh_int('accepted', None, None); s1.assume(z3.And(r >= 0, r <= iv(n), r < 2**31)); gset(s1, 'out', cat(s1.gh['out'], sub(q, 0, r))); gset(s1, 'ret', r)
    x = neg32(st); gset(st, 'ret', simp(x - 2**32)); return out(s1, II(r, 32)) + out(st, II(x, 32))
@m(r'mbedtls_net_set_(block|nonblock)')
def net_block(ex, st, a, mm, I):
    need(st, 'nb'); ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and not a[0].null), 'mode switch of an open connection')
    ok = st.copy(); gset(ok, 'nb', iv(0 if mm.group(1) == 'block' else 1))
    x = neg32(st); return out(ok, outcome(ok, 0, 32)) + out(st, II(x, 32))

# ------------------------------------------------------------------ descriptors, modes and options (properties C21, C22)
"""gh['open']: the open descriptors the objects under verification own; gh['nb']: which descriptors are in non-blocking mode;
gh['rcv'], gh['snd']: microseconds of the receive / send timeout last asked for on a descriptor (-1: never); gh['ailive']: an address list is allocated."""
FD = z3.BitVecSort(32)
NOFD = z3.K(FD, z3.BoolVal(False))
def one(fd): return z3.If(fd >= 0, z3.Store(NOFD, fd, z3.BoolVal(True)), NOFD)      # the set holding fd when it is a descriptor
def os_env(ex, st, *fds):
    """an environment in which the given descriptors (when valid) are the owned open ones"""
    st.gh = dict(st.gh); s_ = NOFD
    for fd in fds: s_ = z3.If(fd >= 0, z3.Store(s_, fd, z3.BoolVal(True)), s_)
    st.gh['open'] = s_; st.gh['ailive'] = z3.BoolVal(False); st.gh['ain'] = z3.Int(fresh_name('nai'))
    st.gh['nb'] = z3.Const(fresh_name('nbmode'), z3.ArraySort(FD, z3.BoolSort()))
    for k in ('rcv', 'snd'): st.gh[k] = z3.Const(fresh_name(k), z3.ArraySort(FD, z3.IntSort()))
    errno_ptr(ex, st)
def fdarg(v): return v.bv()
def rc(ex, st, k=0):
    """0 (or up to k), or -1 with errno set"""
    set_errno(ex, st); x = z3.BitVec(fresh_name('rc'), 32); st.assume(z3.And(x >= -1, x <= k)); return out(st, IV(32, b=x))
def fail(ex, st, w=32): set_errno(ex, st); return out(st, outcome(st, -1, w))
def newfd(ex, st):
    """success: a descriptor that was not open; new descriptors are in blocking mode and without timeouts"""
    ok = st.copy(); x = z3.BitVec(fresh_name('fd'), 32)
    ok.assume(z3.And(x >= 0, z3.Not(z3.Select(ok.gh['open'], x)), z3.Not(z3.Select(ok.gh['nb'], x))))
    gset(ok, 'open', z3.Store(ok.gh['open'], x, z3.BoolVal(True)))
    return ok, x
def isopen(st, fd): return z3.Select(st.gh['open'], fd)
@m(r'socket|accept|accept4')
def socket_(ex, st, a, mm, I):
    need(st, 'open')
    if mm.group(0) == 'accept4' and not (a[3].conc and a[3].c in (0, 0x80000)): raise Unsupported('accept4 flags')
    if mm.group(0) == 'socket' and a[1].conc and a[1].c & 0x800: raise Unsupported('socket flags')
    ok, x = newfd(ex, st)
    if mm.group(0) != 'socket' and isinstance(a[1], Ptr) and not a[1].null: forget_sockaddr(ex, ok, a[1], a[2])
    return out(ok, IV(32, b=x)) + fail(ex, st)
def forget_sockaddr(ex, st, p, pl):
    n = ex.load(st, pl, I32)
    if not n.conc: raise Unsupported('sockaddr length')
    z = st.osz.get(p.obj)
    ex.oblige(st, z3.BoolVal(z is None or p.off + n.c <= z), 'accept: room for the address')
    c = dict(ex.cells(st, p.obj)); 
    for o in [o for o in c if o == 'z' or isinstance(o, int) and p.off <= o < p.off + n.c]: del c[o]
    st.mem[p.obj] = c
    ex.store(st, pl, IV(32, b=z3.BitVec(fresh_name('alen'), 32)), I32)
@m(r'close')
def close_(ex, st, a, mm, I):
    need(st, 'open'); fd = fdarg(a[0])
    ex.oblige(st, isopen(st, fd), 'close: the descriptor is an open one of this object (never foreign, never twice)')
    gset(st, 'open', z3.Store(st.gh['open'], fd, z3.BoolVal(False)))       # closed whatever close(2) returns
    return rc(ex, st)
@m(r'connect|bind')
def connect_(ex, st, a, mm, I):
    need(st, 'open'); fd = fdarg(a[0]); ex.oblige(st, isopen(st, fd), f'{mm.group(0)} on an open descriptor'); ailive(ex, st, a[1], mm.group(0)); return rc(ex, st)
@m(r'listen')
def listen_(ex, st, a, mm, I):
    need(st, 'open'); ex.oblige(st, isopen(st, fdarg(a[0])), 'listen on an open descriptor'); return rc(ex, st)
@m(r'shutdown')
def shutdown_(ex, st, a, mm, I): return rc(ex, st)
@m(r'poll')
def poll_(ex, st, a, mm, I):
    need(st, 'open')
    if not (a[1].conc and a[1].c == 1): raise Unsupported('poll of several descriptors')
    fd = ex.load(st, a[0], I32); ex.oblige(st, isopen(st, fd.bv()), 'poll on an open descriptor')
    ex.store(st, Ptr(a[0].obj, a[0].off + 6, a[0].idx, a[0].esz, a[0].sub), IV(16, b=z3.BitVec(fresh_name('revents'), 16)), Ty('int', 16))
    return rc(ex, st, 1)
@m(r'select')
def select_(ex, st, a, mm, I):
    need(st, 'open'); return rc(ex, st, 1024)
@m(r'getsockopt')
def getsockopt_(ex, st, a, mm, I):
    need(st, 'open'); ex.oblige(st, isopen(st, fdarg(a[0])), 'getsockopt on an open descriptor')
    n = ex.load(st, a[4], I32)
    if not n.conc or n.c != 4: raise Unsupported('getsockopt size')
    ok = st.copy(); ex.store(ok, a[3], IV(32, b=z3.BitVec(fresh_name('optval'), 32)), I32); ex.store(ok, a[4], K(32, 4), I32)
    return out(ok, K(32, 0)) + fail(ex, st)
@m(r'setsockopt')
def setsockopt_(ex, st, a, mm, I):
    need(st, 'open'); fd = fdarg(a[0]); ex.oblige(st, isopen(st, fd), 'setsockopt on an open descriptor')
    if not (a[1].conc and a[2].conc and a[4].conc): raise Unsupported('setsockopt')
    if a[1].c == 1 and a[2].c in (20, 21):
        ex.oblige(st, z3.BoolVal(a[4].c == 16), 'a timeout option is given a struct timeval')
        sec, us = ex.load(st, a[3], I64), ex.load(st, Ptr(a[3].obj, a[3].off + 8, a[3].idx, a[3].esz, a[3].sub), I64)
        k = 'rcv' if a[2].c == 20 else 'snd'
        ex.oblige(st, z3.And(us.sint() >= 0, us.sint() < 1000000), 'the timeval is normalised')
        gset(st, k, z3.Store(st.gh[k], fd, sec.sint()*1000000 + us.sint()))
    else: room(ex, st, a[3], a[4].c, 'setsockopt')
    return rc(ex, st)
@m(r'fcntl')
def fcntl_(ex, st, a, mm, I):
    need(st, 'open'); fd = fdarg(a[0])
    if not a[1].conc or a[1].c not in (3, 4): raise Unsupported('fcntl command')
    f = st.copy(); res = fail(ex, f)
    st.assume(isopen(st, fd))            # on anything else it fails
    if not ex.feasible(st): return res
    if a[1].c == 3:
        x = z3.BitVec(fresh_name('flags'), 32); st.assume(z3.And(x >= 0, (z3.Extract(11, 11, x) == 1) == z3.Select(st.gh['nb'], fd))); return res + out(st, IV(32, b=x))
    gset(st, 'nb', z3.Store(st.gh['nb'], fd, z3.Extract(11, 11, a[2].bv()) == 1)); return res + out(st, K(32, 0))
# the address list of getaddrinfo: n >= 1 entries, used only while allocated and only inside
AI = {4: ('family', I32), 8: ('socktype', I32), 12: ('protocol', I32), 16: ('addrlen', I32), 0: ('flags', I32)}
def ai_load(ex, st, p, ty):
    i = iv(p.idx); ex.oblige(st, z3.And(st.gh['ailive'], i >= 0, i < st.gh['ain']), 'an address entry is inside the live list')
    if p.sub == 40: return Ptr(p.obj, 0, simp(i + 1), 48, 0)
    if p.sub in (24, 32): return Ptr(p.obj, 0, simp(i), 48, 1000 + p.sub)      # address data, only ever handed to the system
    n, t = AI.get(p.sub, (None, None))
    if n is None: raise Unsupported('addrinfo member')
    return IV(32, b=z3.Function('ai_' + n, z3.IntSort(), FD)(i))
def ailive(ex, st, p, what):
    if isinstance(p, Ptr) and p.idx is not None and p.sub >= 1000: ex.oblige(st, z3.And(st.gh['ailive'], iv(p.idx) >= 0, iv(p.idx) < st.gh['ain']), f'{what}: the address is inside the live list')
@m(r'getaddrinfo')
def getaddrinfo_(ex, st, a, mm, I):
    need(st, 'open'); ok = st.copy(); o = ex.new_obj(ok, None, 'addrinfo'); n = z3.Int(fresh_name('nai')); ok.assume(z3.And(n >= 1, n < 2**20))
    ex.oblige(st, z3.Not(st.gh['ailive']), 'the previous address list was released')
    ok.mem[o] = {0: (1, Opq(1, 'list', {'n': n, 'load': ai_load}))}
    gset(ok, 'ain', n); gset(ok, 'ailive', z3.BoolVal(True)); ex.store(ok, a[3], Ptr(o, 0, 0, 48, 0), PTR)
    res = out(ok, K(32, 0))
    x = z3.BitVec(fresh_name('eai'), 32); st.assume(x != 0); set_errno(ex, st); return res + out(st, IV(32, b=x))
@m(r'freeaddrinfo')
def freeaddrinfo_(ex, st, a, mm, I):
    p = a[0]; ex.oblige(st, z3.And(need(st, 'ailive'), z3.BoolVal(isinstance(p, Ptr) and p.idx is not None and not isinstance(p.idx, tuple) and p.sub == 0), iv(p.idx) == 0 if isinstance(p, Ptr) and p.idx is not None else z3.BoolVal(False)), 'freeaddrinfo of the live list, once, from its head')
    gset(st, 'ailive', z3.BoolVal(False)); return None
@m(r'getnameinfo')
def getnameinfo_(ex, st, a, mm, I):
    need(st, 'open'); n = a[3]
    if isinstance(a[2], Ptr) and not a[2].null:
        c = conc_int(n.int()); room(ex, st, a[2], iv(c), 'getnameinfo'); from .lib import NONUL; h = z3.Const(fresh_name('host'), SEQ); t = z3.Const(fresh_name('rest'), SEQ); NONUL.add(h.decl().name()); st.assume(z3.And(z3.Length(h) < c, z3.Length(t) == c - 1 - z3.Length(h))); q = cat(h, lit(b'\0'), t)
        ok = st.copy(); ex.write_seq(ok, a[2], q, iv(c), 'getnameinfo')
    else: ok = st.copy()
    x = z3.BitVec(fresh_name('eai'), 32); st.assume(x != 0); return out(ok, K(32, 0)) + out(st, IV(32, b=x))
@m(r'signal|gai_strerror')
def signal_(ex, st, a, mm, I): return NULL

# ------------------------------------------------------------------ establishing a TLS connection (property C23)
"""t_auth: peer verification mode of the configuration (0 none, 1 optional, 2 required); t_ca: its authorities are the socket's; t_cfg: the session was set up with it;
t_hset, t_host: host name of the session; t_bio: the session talks over the socket's connection; t_bad: some step failed;
t_hs: the handshake completed, and t_h*: the settings it ran under; t_vres: the verification result it left."""
def tls_env(ex, st, conf, ca):
    os_env(ex, st); b = lambda n: z3.Bool(fresh_name(n)); st.gh.update(t_auth=z3.Int(fresh_name('auth')), t_ca=b('ca'), t_cfg=b('cfg'), t_hset=b('hset'), t_host=z3.Const(fresh_name('host'), SEQ), t_bio=b('bio'), t_bad=z3.BoolVal(False), t_hs=z3.BoolVal(False), t_hauth=iv(-1), t_hca=z3.BoolVal(False), t_hcfg=z3.BoolVal(False), t_hhost=lit(b''), t_hhset=z3.BoolVal(False), t_hbio=z3.BoolVal(False), t_hfd=iv(-1), t_vres=iv(2**32-1))
    st.assume(z3.And(st.gh['t_auth'] >= 0, st.gh['t_auth'] <= 2))
    ex.tls_conf = (conf.obj, conf.off); ex.tls_ca = (ca.obj, ca.off)
def tls(st): need(st, 't_auth'); return st.gh
def isconf(ex, p):
    if not isinstance(p, Ptr) or p.null or (p.obj, p.off) != ex.tls_conf: raise Unsupported('another TLS configuration')
def tbad(st): gset(st, 't_bad', z3.BoolVal(True))
def terr(st):
    x = neg32(st); return x
def tstep(ex, st, upd):
    """a setup step: success with its effect, or failure"""
    ok = st.copy()
    for k, v in upd.items(): gset(ok, k, v)
    tbad(st); x = neg32(st); return out(ok, outcome(ok, 0, 32)) + out(st, II(x, 32))
def session(ex, st, p, what):
    """the session under construction (objects are told apart by their address)"""
    if not isinstance(p, Ptr) or p.null: ex.oblige(st, z3.BoolVal(False), f'{what}: a session'); raise Unsupported('null TLS session')
    if ex.cells(st, p.obj).get('tls') is None: raise Unsupported('TLS session of unknown state')
@m(r'mbedtls_ssl_init')
def ssl_init(ex, st, a, mm, I):
    if 't_auth' in st.gh:
        for k, v in dict(t_cfg=False, t_hset=False, t_bio=False, t_hs=False).items(): gset(st, k, z3.BoolVal(v))
        gset(st, 't_vres', iv(2**32-1))
    c = dict(ex.cells(st, a[0].obj)); c['tls'] = (0, NULL)
    for o in st.mem: 
        if isinstance(st.mem[o], dict) and 'tls' in st.mem[o]: d = dict(st.mem[o]); del d['tls']; st.mem[o] = d
    st.mem[a[0].obj] = c; return None
@m(r'mbedtls_net_init')
def net_init(ex, st, a, mm, I): ex.store(st, a[0], K(32, 2**32-1), I32); return None
@m(r'mbedtls_ssl_free|mbedtls_ssl_config_init|mbedtls_ssl_config_free|mbedtls_ssl_conf_rng|mbedtls_x509_crt_init|mbedtls_ctr_drbg_init|mbedtls_entropy_init|mbedtls_ssl_conf_min_version|mbedtls_ssl_conf_max_version|mbedtls_ssl_conf_read_timeout|mbedtls_debug_set_threshold|mbedtls_ssl_conf_dbg')
def tls_noop(ex, st, a, mm, I): return None
@m(r'mbedtls_net_free')
def net_free(ex, st, a, mm, I):
    need(st, 'open'); x = ex.load(st, a[0], I32).bv(); ex.oblige(st, z3.Or(x == -1, isopen(st, x)), 'the connection freed is an open one')
    gset(st, 'open', z3.If(x == -1, st.gh['open'], z3.Store(st.gh['open'], x, z3.BoolVal(False)))); ex.store(st, a[0], K(32, 2**32-1), I32); return None
@m(r'mbedtls_ssl_config_defaults')
def conf_defaults(ex, st, a, mm, I):
    tls(st); isconf(ex, a[0])
    if not all(isinstance(x, IV) and x.conc for x in a[1:4]) or (a[1].c, a[2].c) != (0, 0): raise Unsupported('TLS role')
    x = z3.Int(fresh_name('auth')); st.assume(z3.And(x >= 0, x <= 2)); ok = st.copy(); gset(ok, 't_auth', iv(2)); gset(st, 't_auth', x); tbad(st); e = neg32(st); return out(ok, outcome(ok, 0, 32)) + out(st, II(e, 32))
@m(r'mbedtls_ssl_conf_authmode')
def conf_auth(ex, st, a, mm, I): tls(st); isconf(ex, a[0]); gset(st, 't_auth', a[1].int()); return None
@m(r'mbedtls_ssl_conf_ca_chain')
def conf_ca(ex, st, a, mm, I): tls(st); isconf(ex, a[0]); p = a[1]; gset(st, 't_ca', z3.BoolVal(isinstance(p, Ptr) and not p.null and p.idx is None and (p.obj, p.off) == ex.tls_ca)); return None
@m(r'mbedtls_ssl_setup')
def ssl_setup(ex, st, a, mm, I): tls(st); isconf(ex, a[1]); session(ex, st, a[0], 'setup'); return tstep(ex, st, {'t_cfg': z3.BoolVal(True)})
@m(r'mbedtls_ssl_set_hostname')
def ssl_host(ex, st, a, mm, I):
    from .lib import cstr
    tls(st); session(ex, st, a[0], 'set_hostname')
    if not isinstance(a[1], Ptr) or a[1].null: gset(st, 't_hset', z3.BoolVal(False)); return out(st, K(32, 0))
    return tstep(ex, st, {'t_host': cstr(ex, st, a[1]), 't_hset': z3.BoolVal(True)})
@m(r'mbedtls_ssl_set_bio')
def ssl_bio(ex, st, a, mm, I): tls(st); session(ex, st, a[0], 'set_bio'); gset(st, 't_bio', z3.BoolVal(isinstance(a[1], Ptr) and not a[1].null)); c = dict(ex.cells(st, a[0].obj)); c['tls'] = (0, a[1]); st.mem[a[0].obj] = c; return None
@m(r'mbedtls_ssl_handshake')
def ssl_handshake(ex, st, a, mm, I):
    g = tls(st); session(ex, st, a[0], 'handshake'); ok = st.copy()
    n = ex.cells(st, a[0].obj)['tls'][1]; fd = ex.load(ok, n, I32).int() if isinstance(n, Ptr) and not n.null else iv(-1)
    v = fresh_int('vres', 0, 2**32-1); ok.assume(range_fact(v))
    for k, x in dict(t_hs=z3.BoolVal(True), t_hauth=g['t_auth'], t_hca=g['t_ca'], t_hcfg=g['t_cfg'], t_hhost=g['t_host'], t_hhset=g['t_hset'], t_hbio=g['t_bio'], t_hfd=fd, t_vres=v).items(): gset(ok, k, x)
    ag = st.copy(); x = neg32(st); st.assume(z3.And(x != WANT_READ % 2**32, x != WANT_WRITE % 2**32)); tbad(st)
    y = neg32(ag); ag.assume(z3.Or(y == WANT_READ % 2**32, y == WANT_WRITE % 2**32))
    return out(ok, outcome(ok, 0, 32)) + out(ag, II(y, 32)) + out(st, II(x, 32))
@m(r'mbedtls_ssl_get_verify_result')
def ssl_verify(ex, st, a, mm, I): g = tls(st); session(ex, st, a[0], 'get_verify_result'); return out(st, II(g['t_vres'], 32))
@m(r'mbedtls_x509_crt_parse(?:_file)?')
def crt_parse(ex, st, a, mm, I): ok = st.copy(); x = fresh_int('parse', 1, 2**32-1); st.assume(range_fact(x)); return out(ok, outcome(ok, 0, 32)) + out(st, II(x, 32))

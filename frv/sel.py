"""Contracts (models) the socket selector needs: shared_ptr, its registration table, and epoll over a ghost table of registrations."""
from .sym import *
from .exec import *
from . import lib, net
from .lib import m, out, thr, fork, K, II, IV
from .llir import Ty
from .net import need, gset, set_errno, errno_ptr, errno
I_ = z3.IntSort()
OPQ = z3.Datatype('SelEntry'); OPQ.declare('mk_entry', ('sock', I_), ('opaque', I_), ('desc', I_)); OPQ = OPQ.create()
SP = z3.Datatype('SelReady'); SP.declare('mk_ready', ('rsock', I_), ('ropaque', I_)); SP = SP.create()
EV = z3.Datatype('SelEvent'); EV.declare('mk_event', ('evfd', I_), ('evbits', I_)); EV = EV.create()
P64, I32T = Ty('ptr'), Ty('int', 32)
def addr(ex, v): 
    v = ex.p2i(v) if isinstance(v, Ptr) else v
    return iv(v.c) if v.conc else v.int()
def entry_of(ex, st, p):
    """the entry an Opaque object at p holds (its shared_ptr is moved from)"""
    s_ = addr(ex, ex.load(st, p, P64)); o = addr(ex, ex.load(st, ex.padd(p, 16), P64)); d = ex.load(st, ex.padd(p, 24), I32T)
    ex.store(st, p, NULL, P64)
    return OPQ.mk_entry(s_, o, iv(d.c) if d.conc else d.int())
def live(ex, st, l, k): ex.oblige(st, z3.Select(l.dom, k), 'the registration used still exists')
ENTRY = ('tup', OPQ, [(0, 'ptr', OPQ.sock), (16, 'ptr', OPQ.opaque), (24, 'i32', OPQ.desc)], entry_of, live)
lib.EXTRA_VAL['fr::SocketSelector::Opaque'] = ENTRY
def ready_of(ex, st, args, sig):
    if len(args) == 1:
        e = SP.mk_ready(addr(ex, ex.load(st, args[0], P64)), addr(ex, ex.load(st, ex.padd(args[0], 16), P64)))
        if '&&' in sig: ex.store(st, args[0], NULL, P64)
        return e
    if len(args) != 2: raise Unsupported('emplace_back of a ready socket')
    return SP.mk_ready(addr(ex, ex.load(st, args[0], P64)), addr(ex, ex.load(st, args[1], P64)))
READY = ('tup', SP, [(0, 'ptr', SP.rsock), (16, 'ptr', SP.ropaque)], ready_of)
lib.ELK['pair<shared_ptr<fr::SocketDescriptor>, void*>'] = (READY, 24, SP)
@m(r'shared_ptr<fr::SocketDescriptor>::shared_ptr\(shared_ptr<fr::SocketDescriptor>(&&| const&)\)')
def sp_ctor(ex, st, a, mm, I):
    v = ex.load(st, a[1], P64); ex.setc(st, a[0].obj, a[0].off, 8, v)
    if mm.group(1) == '&&': ex.store(st, a[1], NULL, P64)
@m(r'shared_ptr<fr::SocketDescriptor>::~shared_ptr\(\)', r'fr::SocketSelector::Opaque::~Opaque\(\)')
def sp_dtor(ex, st, a, mm, I): return None

# ------------------------------------------------------------------ sockets: current descriptor and state, by address
class SockFn(net.Iface):
    def __init__(s, norm, fn): s.norm = norm; s.fn = fn
    def apply(s, ex, st, a, I): return out(st, s.fn(ex, st, addr(ex, a[0])))
def cur(gh, k): return z3.Select(gh['cur'], k)
def get_desc(ex, st, k): x = cur(st.gh, k); st.assume(z3.And(x >= 0, x < 2**32)); return II(x, 32)
def is_conn(ex, st, k): return IV(1, z=z3.Select(st.gh['conn'], k)) if False else lib.Bo(z3.Select(st.gh['conn'], k))
IFACE = [SockFn('virtual fr::SocketDescriptor::get_socket_descriptor', get_desc), SockFn('virtual fr::SocketDescriptor::connected', is_conn)]

# ------------------------------------------------------------------ epoll
# ep_dom: registered descriptors; ep_key: the registration entry their event data designates; ep_ev: the event mask
AB, AI = z3.ArraySort(I_, z3.BoolSort()), z3.ArraySort(I_, I_)
def env(ex, st):
    st.gh = dict(st.gh)
    st.gh.update(ep_dom=z3.Const(fresh_name('ep_dom'), AB), ep_key=z3.Const(fresh_name('ep_key'), AI), ep_ev=z3.Const(fresh_name('ep_ev'), AI), cur=z3.Const(fresh_name('cur'), AI), conn=z3.Const(fresh_name('conn'), AB))
    st.gh.update(evn=iv(0), evs=z3.Empty(z3.SeqSort(EV)), waited=iv(0), epoll=None)
    errno_ptr(ex, st)
def num(v): return iv(v.c) if v.conc else v.int()
ADD, DEL, MOD = 1, 2, 3
EV_SYS = ('EINTR', 4)
def ctlfail(ex, st, also=None):
    e = set_errno(ex, st)
    if also is not None: st.assume(also(e))
    return out(st, IV(32, c=2**32 - 1))
@m(r'epoll_create1')
def ep_create(ex, st, a, mm, I):
    need(st, 'ep_dom'); s1 = st.copy(); x = fresh_int('epfd', 0, 2**31 - 1); s1.assume(z3.And(x >= 0, x < 2**31)); gset(s1, 'epoll', x); gset(s1, 'ep_dom', z3.K(I_, z3.BoolVal(False)))
    return out(s1, II(x, 32)) + ctlfail(ex, st)
def own(ex, st, fd, what):
    need(st, 'ep_dom'); e = st.gh['epoll']
    if e is None: raise Unsupported('epoll without a descriptor')
    ex.oblige(st, num(fd) == e, what + ' uses the epoll descriptor of this selector')
@m(r'epoll_ctl')
def ep_ctl(ex, st, a, mm, I):
    own(ex, st, a[0], 'epoll_ctl'); fd = num(a[2]); r = []
    if not a[1].conc: raise Unsupported('epoll_ctl operation')
    op = a[1].c
    if op in (ADD, MOD):
        ev = a[3]
        d = ex.load(st, ex.padd(ev, 4), P64); mask = num(ex.load(st, ev, I32T))
        if not (isinstance(d, Ptr) and isinstance(d.idx, tuple)): raise Unsupported('epoll data which is no registration entry')
        mo, mf = st.gh['table']
        ex.oblige(st, z3.BoolVal((d.obj, d.off) == (mo, mf) and d.sub == 8), 'the event data designates a registration entry of this selector')
        ok = st.copy(); was = z3.Select(st.gh['ep_dom'], fd); ok.assume(z3.Not(was) if op == ADD else was)
        gset(ok, 'ep_dom', z3.Store(ok.gh['ep_dom'], fd, z3.BoolVal(True))); gset(ok, 'ep_key', z3.Store(ok.gh['ep_key'], fd, d.idx[1])); gset(ok, 'ep_ev', z3.Store(ok.gh['ep_ev'], fd, mask))
        r += out(ok, K(32, 0)); r += ctlfail(ex, st)
    elif op == DEL:
        ok = st.copy(); ok.assume(z3.Select(st.gh['ep_dom'], fd)); gset(ok, 'ep_dom', z3.Store(ok.gh['ep_dom'], fd, z3.BoolVal(False)))
        r += out(ok, K(32, 0))
        # ENOENT: not registered here; EBADF: not an open descriptor, so not registered either (closing drops the registration)
        was = z3.Select(st.gh['ep_dom'], fd)
        r += ctlfail(ex, st, lambda e: z3.Implies(z3.Or(e == 2, e == 9), z3.Not(was)))
    else: raise Unsupported('epoll_ctl operation')
    return r
def event_fact(ex, st, i, e):
    gh = st.gh; fd = EV.evfd(e)
    ex.oblige(st, z3.And(i >= 0, i < gh['evn']), 'only events the system reported are read')
    l = ex.cells(st, gh['table'][0])[gh['table'][1]][1]; k = z3.Select(gh['ep_key'], fd); st.assume(z3.Select(gh['ep_dom'], fd)); st.assume(registered(l, k, fd))
def registered(l, k, fd):
    """class invariant at one registered descriptor"""
    v = z3.Select(l.val, k)
    return z3.And(z3.Select(l.dom, k), OPQ.desc(v) == fd, OPQ.sock(v) == k)
@m(r'epoll_wait')
def ep_wait(ex, st, a, mm, I):
    own(ex, st, a[0], 'epoll_wait'); p = a[1]
    if not isinstance(p, Ptr) or p.null or p.idx is not None or p.off: raise Unsupported('epoll_wait buffer')
    ex.cells(st, p.obj); size = st.osz.get(p.obj) or ex.base_osz.get(p.obj[1] if isinstance(p.obj, tuple) else None)
    if not size or not a[2].conc: raise Unsupported('epoll_wait buffer')
    ex.oblige(st, z3.BoolVal(0 < a[2].sc() <= size//12), 'the event buffer has room for the events asked for')
    ok = st.copy(); n = fresh_int('ready', 0, a[2].sc()); ok.assume(z3.And(n >= 0, n <= a[2].sc()))
    q = z3.Const(fresh_name('events'), z3.SeqSort(EV)); ok.assume(z3.Length(q) == size//12)
    mo, mf = ok.gh['table']; key = lambda e: Ptr(mo, mf, ('key', z3.Select(ok.gh['ep_key'], EV.evfd(e))), lib.ES, 8)
    ok.mem[p.obj] = {0: (size, Vec(q, ('arr', EV, [(0, 'i32', EV.evbits), (4, 'fn', key)], None, event_fact), 12))}
    gset(ok, 'evn', n); gset(ok, 'evs', q); gset(ok, 'waited', iv(1)); gset(st, 'waited', iv(2))
    return out(ok, II(n, 32)) + ctlfail(ex, st)

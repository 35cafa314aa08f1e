"""C20: Socket selector tracks exactly the added sockets.

Contracts of add, remove, wait, constructor and destructor over the registration table and a ghost table of epoll registrations.  The class
invariant (every registered descriptor's event data designates an existing entry, of that descriptor, whose key is its socket) is a pre- and
postcondition; it is stated for one arbitrary descriptor, which is all of them."""
from ..sym import *
from ..spec import Rec
from ..contract import *
from .. import lib, net, sel
from ..sel import OPQ, SP, EV
from .tcp import EMOD
MONITOR_SECS = 25
ASSUMES = ['a socket whose descriptor changed was closed in between, and closing drops the registration (no duplicated descriptors)', 'no two open sockets have the same descriptor', 'epoll_ctl(DEL) fails with ENOENT or EBADF only if the descriptor is not registered',
           'epoll_wait reports at most the events asked for, each with the data of a registered descriptor', 'shared_ptr keeps the socket alive (reference counts are not modelled); unordered_map entries keep their address']
SS = 'SocketSelector'; EFD = 0; TAB = 8
MASK = 0x1 | 0x10 | 0x8 | 0x2000
EVS = z3.SeqSort(EV); VAL = z3.ArraySort(z3.IntSort(), OPQ)
KEYS = z3.ArraySort(z3.IntSort(), z3.IntSort())
def ready(val, keys, e): v = z3.Select(val, z3.Select(keys, EV.evfd(e))); return SP.mk_ready(OPQ.sock(v), OPQ.opaque(v))
READY = Rec('SEL_READY', [VAL, KEYS, EVS, z3.IntSort()], z3.SeqSort(SP), body=lambda v, k, q, n: z3.If(n <= 0, z3.Empty(z3.SeqSort(SP)), z3.Concat(READY(v, k, q, n - 1), z3.Unit(ready(v, k, q[n - 1])))), depth=1)
W = z3.Int('watched_fd')          # an arbitrary descriptor
def tab(v, p): return v.st.mem[p.obj][TAB][1]
def inv(v, p, f):
    """the registration of descriptor f, if there is one, is that of an existing entry"""
    gh = v.st.gh; return z3.Implies(z3.Select(gh['ep_dom'], f), sel.registered(tab(v, p), z3.Select(gh['ep_key'], f), f))
def same_fd(v, f):
    """environment: a descriptor is registered for a socket only as long as it is the socket's"""
    gh = v.st.gh; return z3.Implies(z3.Select(gh['ep_dom'], f), sel.cur(gh, z3.Select(gh['ep_key'], f)) == f)
def selector(ex, st):
    p = Ptr(ex.new_obj(st, 64, 'selector'), 0); sel.env(ex, st); sym_map(ex, st, Ptr(p.obj, TAB), 'unordered_map<unsigned long, fr::SocketSelector::Opaque>', 'added')
    x = sym_int(ex, st, 32, 'epoll_fd', 'int'); ex.setc(st, p.obj, EFD, 4, x); gh = dict(st.gh); gh.update(table=(p.obj, TAB), epoll=x.int()); st.gh = gh
    return p
def socket(ex, st):
    """a shared_ptr to some socket, which may or may not be in the table"""
    s = Ptr(ex.new_obj(st, 64, 'sock'), 0); ex.setc(st, s.obj, 0, 8, VTab('fr::SocketDescriptor')); h = Ptr(ex.new_obj(st, 16, 'handle'), 0); ex.setc(st, h.obj, 0, 8, s)
    k = sel.addr(ex, s); st.assume(k >= 4096); return h, k
def owner(v, f, k):
    """environment: no two sockets have the same descriptor"""
    gh = v.st.gh; return z3.Implies(z3.And(z3.Select(gh['ep_dom'], f), sel.cur(gh, k) == f), z3.Select(gh['ep_key'], f) == k)
def facts(ex, st, p, k):
    """the invariant where it matters: at the arbitrary descriptor and at the socket's current and stored one"""
    v = View(ex, st); e = z3.Select(tab(v, p).val, k)
    for f in (W, sel.cur(st.gh, k), OPQ.desc(e)): st.assume(inv(v, p, f)); st.assume(same_fd(v, f)); st.assume(owner(v, f, k))
    st.assume(z3.And(sel.cur(st.gh, k) >= 0, sel.cur(st.gh, k) < 2**32, OPQ.desc(e) >= 0, OPQ.desc(e) < 2**32, OPQ.opaque(e) >= 0, OPQ.opaque(e) < 2**64))
    st.assume(z3.Implies(z3.Select(tab(v, p).dom, k), OPQ.sock(e) == k))
EPG = [('ghost', g) for g in ('ep_dom', 'ep_key', 'ep_ev')]
def prep(ex, st):
    for c in sel.IFACE: ex.contracts[c.norm] = c
def gsame(o, n): return z3.And([o.st.gh[g] == n.st.gh[g] for g in ('ep_dom', 'ep_key', 'ep_ev')])
def tsame(o, n, p): return z3.And(tab(o, p).dom == tab(n, p).dom, slen(tab(o, p).ord) == slen(tab(n, p).ord))
def entries_same(o, n, p, but=None):
    """entries in the table keep their values"""
    k = z3.Int('some_key'); c = z3.Select(tab(n, p).dom, k)
    if but is not None: c = z3.And(c, k != but)
    return z3.Implies(c, z3.Select(tab(n, p).val, k) == z3.Select(tab(o, p).val, k))
def jobs():
    J = []; box = {}
    def add_setup(ex, st):
        p = selector(ex, st); h, k = socket(ex, st); facts(ex, st, p, k); box['k'] = k
        return [p, h, sym_int(ex, st, 64, 'opaque', 'int')]
    def add_post(o, n, a, r, kind):
        p = a[0]; k = box['k']; gh, g2 = o.st.gh, n.st.gh; d = sel.cur(gh, k); t, t2 = tab(o, p), tab(n, p)
        if kind != 'ret':
            refused = z3.Or(z3.Not(z3.Select(gh['conn'], k)), z3.Select(t.dom, k))
            return [('a failed addition leaves the watched sockets unchanged', tsame(o, n, p)), ('a failed addition keeps every entry', entries_same(o, n, p)), ('a failed addition leaves the registrations unchanged', gsame(o, n)),
                    ('a logic error means unconnected or already added', (refused if kind == 'std::logic_error' else z3.Not(refused)))]
        e = z3.Select(t2.val, k)
        return [('only a connected socket is added', z3.Select(gh['conn'], k)), ('only a socket which was not watched is added', z3.Not(z3.Select(t.dom, k))),
                ('exactly the socket is added', z3.And(t2.dom == z3.Store(t.dom, k, z3.BoolVal(True)), slen(t2.ord) == slen(t.ord) + 1)), ('other entries are kept', entries_same(o, n, p, k)),
                ('the entry holds the socket', OPQ.sock(e) == k), ('the entry holds the opaque value given', OPQ.opaque(e) == a[2].int()), ('the entry holds the descriptor', OPQ.desc(e) == d),
                ('its descriptor is registered, and no other is touched', z3.And(g2['ep_dom'] == z3.Store(gh['ep_dom'], d, z3.BoolVal(True)), g2['ep_key'] == z3.Store(gh['ep_key'], d, k))),
                ('it is watched for input, hang-ups and errors', z3.Or([z3.Select(g2['ep_ev'], d) == MASK - x for x in (0, 0x10, 0x8, 0x18)])), ('every registration is that of an existing entry', inv(n, p, W))]
    TABM = lambda v, a: [Ptr(a[0].obj, TAB), EMOD] + EPG
    J.append(Job('add', r'fr::SocketSelector::add\(shared_ptr<fr::SocketDescriptor> const&, void\*\)', add_setup, add_post, modifies=TABM, throws=('std::logic_error', 'std::runtime_error'), prep=prep))
    def rem_setup(ex, st):
        p = selector(ex, st); h, k = socket(ex, st); facts(ex, st, p, k); box['r'] = k; return [p, h]
    def rem_post(o, n, a, r, kind):
        p = a[0]; k = box['r']; gh, g2 = o.st.gh, n.st.gh; t, t2 = tab(o, p), tab(n, p); was = z3.Select(t.dom, k); e = z3.Select(t.val, k)
        if kind != 'ret': return [('a failed removal leaves the watched sockets unchanged', tsame(o, n, p)), ('a failed removal keeps every entry', entries_same(o, n, p)), ('a failed removal leaves the registrations unchanged', gsame(o, n)), ('only the removal of a watched socket fails', was)]
        return [('the opaque value given at addition is returned, or null', sel.addr(n.ex, r) == z3.If(was, OPQ.opaque(e), 0)), ('exactly the socket is removed', z3.And(t2.dom == z3.Store(t.dom, k, z3.BoolVal(False)), slen(t2.ord) == slen(t.ord) - z3.If(was, 1, 0))),
                ('other entries are kept', entries_same(o, n, p, k)), ('no descriptor stays registered for it', z3.Not(z3.And(z3.Select(g2['ep_dom'], W), z3.Select(g2['ep_key'], W) == k))),
                ('registrations of other sockets are kept', z3.Implies(z3.And(z3.Select(gh['ep_dom'], W), z3.Select(gh['ep_key'], W) != k), z3.And(z3.Select(g2['ep_dom'], W), z3.Select(g2['ep_key'], W) == z3.Select(gh['ep_key'], W)))),
                ('nothing is registered', z3.Implies(z3.Select(g2['ep_dom'], W), z3.Select(gh['ep_dom'], W))), ('every registration is that of an existing entry', inv(n, p, W))]
    J.append(Job('remove', r'fr::SocketSelector::remove\(shared_ptr<fr::SocketDescriptor> const&\)', rem_setup, rem_post, modifies=TABM, throws=('std::runtime_error',), prep=prep))
    wb = {}
    def wait_setup(ex, st):
        p = selector(ex, st); wb['p'] = p; wb['r'] = raw_str(ex, st, 'result'); return [wb['r'], p, sym_int(ex, st, 64, 'timeout', 'int')]
    def res(ex, S):
        c = S.mem.get(wb['r'].obj, {}).get(0); return c[1].s if c and isinstance(c[1], Vec) else None
    def spec(ex, S, n): return READY(tab(View(ex, S), wb['p']).val, S.gh['ep_key'], S.gh['evs'], n)
    def wait_cands(l):
        out = []
        for i in l.ints(mod=True):
            out.append((f'{i} is within the reported events', lambda S, i=i: z3.And(i.int(S) >= 0, i.int(S) <= S.gh['evn'])))
            out.append((f'the result holds the first {i} ready sockets', lambda S, i=i: None if res(l.ex, S) is None else res(l.ex, S) == spec(l.ex, S, i.int(S))))
        for q in l.ptrs(mod=True):
            def at(S, q=q):
                v = q.val(S); return v.idx if isinstance(v, Ptr) and v.idx is not None and not isinstance(v.idx, tuple) else None
            out.append((f'{q} is within the reported events', lambda S, at=at: None if at(S) is None else z3.And(iv(at(S)) >= 0, iv(at(S)) <= S.gh['evn'])))
            out.append((f'the result holds the ready sockets before {q}', lambda S, at=at: None if at(S) is None or res(l.ex, S) is None else res(l.ex, S) == spec(l.ex, S, iv(at(S)))))
        return out
    def wait_post(o, n, a, r, kind):
        gh = n.st.gh; er = net.errno(n.ex, n.st); failed = z3.BoolVal(gh['waited'].eq(iv(2)))
        if kind != 'ret': return [('only a failing wait throws, and not for an interruption', z3.And(failed, er != 4))]
        q = res(n.ex, n.st)
        return [('each ready socket with its own opaque value, in order; none when interrupted', q == spec(n.ex, n.st, gh['evn'])), ('no result without asking the system', z3.BoolVal(not gh['waited'].eq(iv(0)))), ('a failing wait other than an interruption is not hidden', z3.Implies(failed, er == 4))]
    J.append(Job('wait', r'fr::SocketSelector::wait\(.*\)', wait_setup, wait_post, modifies=lambda v, a: [Ptr(wb['r'].obj, 0), EMOD] + [('ghost', g) for g in ('evn', 'evs', 'waited')], throws=('std::runtime_error',), loops={'*': {'cands': wait_cands}}, prep=prep))
    def ctor_setup(ex, st):
        p = Ptr(ex.new_obj(st, 64, 'selector'), 0); sel.env(ex, st); st.gh['table'] = (p.obj, TAB); return [p]
    def ctor_post(o, n, a, r, kind):
        if kind != 'ret': return [('nothing is acquired', z3.BoolVal(n.st.gh['epoll'] is None))]
        t = tab(n, a[0]); k = z3.Int('some_key')
        return [('nothing is watched', z3.And(z3.Not(z3.Select(t.dom, k)), slen(t.ord) == 0)), ('nothing is registered', z3.Not(z3.Select(n.st.gh['ep_dom'], W))), ('it has its own epoll descriptor', z3.BoolVal(False) if n.st.gh['epoll'] is None else n.int(Ptr(a[0].obj, EFD), 32) == n.st.gh['epoll'])]
    J.append(Job('constructor', r'fr::SocketSelector::SocketSelector\(\)', ctor_setup, ctor_post, modifies=lambda v, a: [Ptr(a[0].obj, TAB), ('int', Ptr(a[0].obj, EFD), 32), EMOD, ('ghost', 'epoll')] + EPG, throws=('std::runtime_error',), prep=prep))
    def dtor_setup(ex, st):
        p = selector(ex, st); x = z3.BitVec(fresh_name('epfd'), 32); st.assume(x >= 0); ex.setc(st, p.obj, EFD, 4, IV(32, b=x)); gh = st.gh; net.os_env(ex, st, x); st.gh = dict(gh, **st.gh); return [p]
    J.append(Job('destructor', r'fr::SocketSelector::~SocketSelector\(\)', dtor_setup, lambda o, n, a, r, k: [('the epoll descriptor is released', n.gh('open') == net.NOFD)], modifies=lambda v, a: [('ghost', 'open'), EMOD, Ptr(a[0].obj, TAB)], prep=prep))
    return J

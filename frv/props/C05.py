"""C05: the receive size limit is enforced before the payload (Packet::receive, WebFrame::receive, the limit's setter and getter)."""
from .pktspec import *
from .. import net
from . import C04, C16
ASSUMES = C16.ASSUMES
TOOBIG = 10
def limit(v, s): return v.f(s, 'Socket', 'max_receive_size').int()
def pkt_job():
    ctx = {}
    def post(o, n, a, r, k):
        if k != 'ret': return []
        s, L, m = r.int(), simp(ctx['L']), ctx['max']; t = n.gh('pos') - ctx['pos0']; over = z3.And(m > 0, L > m)
        return [('a message over the limit is rejected with the size status', z3.Implies(z3.And(t >= 4, over), s == TOOBIG)),
                ('a rejected message is one over the limit', z3.Implies(z3.And(s == TOOBIG, n.gh('status') != TOOBIG), z3.And(t >= 4, over))),
                ('no payload byte of a message over the limit is read', z3.Implies(z3.And(t >= 4, over), t == 4)),
                ('storage does not grow to the announced length', z3.Implies(z3.And(t >= 4, over), z3.Or(z3.Length(buf(n, a[0])) <= z3.Length(buf(o, a[0])), z3.Length(buf(n, a[0])) < L)))]
    return Job('packet', P + r'receive\(fr::Socket\*\)', C04.recv_setup(ctx), post, pre=pre, modifies=C04.RMOD, loops={'*': {'cands': C04.recv_cands(ctx), 'noterm': True}}, contracts=net.IFACE)
def frame_job(client):
    ctx = {}; cls = 'ClientWebFrame' if client else 'ServerWebFrame'
    def post(o, n, a, r, k):
        q, i, m = n.gh('in'), ctx['pos0'], ctx['max']; h0, masked, l7, L, hl = C16.dec(q, i, client); t = n.gh('pos') - i; right = masked == z3.BoolVal(not client); out = []
        for nm, cond, H in C16.FORMS:
            N = simp(C16.length(q, i, nm)); over = z3.And(t >= H, cond(l7), right, m > 0, N > m)
            if k == 'ret':
                s = r.int()
                out += [(f'{nm} length form: a frame over the limit is rejected with the size status', z3.Implies(over, s == TOOBIG)),
                        (f'{nm} length form: a rejected frame is one over the limit', z3.Implies(z3.And(s == TOOBIG, n.gh('status') != TOOBIG, cond(l7)), z3.And(t >= H, m > 0, N > m))),
                        (f'{nm} length form: no payload byte of a frame over the limit is read', z3.Implies(over, t <= H + (0 if client else 4))),
                        (f'{nm} length form: storage does not grow to the announced length', z3.Implies(over, z3.Or(z3.Length(C16.pl(n, a[0])) <= z3.Length(C16.pl(o, a[0])), z3.Length(C16.pl(n, a[0])) < N)))]
            else: out.append((f'{nm} length form: storage for a frame over the limit is never asked for', z3.Not(over)))
        return out
    return Job(f'frame ({"client" if client else "server"})', r'fr::WebFrame::receive\(fr::Socket\*\)', C16.recv_setup(ctx, cls), post, modifies=C16.RMOD, throws=('std::length_error', 'std::bad_alloc'), loops={'*': {'cands': lambda l: [c for c in C16.recv_cands(ctx, client)(l) if 'unmasked' not in c[0]], 'noterm': True}}, contracts=net.IFACE)
def set_job():
    def setup(ex, st): net.wire(ex, st); return [net.socket_obj(ex, st), sym_int(ex, st, 32, 'limit')]
    return Job('set_max_receive_size', r'fr::Socket::set_max_receive_size\(unsigned int\)', setup, lambda o, n, a, r, k: [('the limit is the one given', n.f(a[0], 'Socket', 'max_receive_size').bv() == a[1].bv())], modifies=lambda v, a: [('int', v.fld(a[0], 'Socket', 'max_receive_size'), 32)])
def get_job():
    def setup(ex, st): net.wire(ex, st); return [net.socket_obj(ex, st)]
    return Job('get_max_receive_size', r'fr::Socket::get_max_receive_size\(\) const', setup, lambda o, n, a, r, k: [('the limit is the one set', r.bv() == o.f(a[0], 'Socket', 'max_receive_size').bv())], modifies=lambda v, a: [])
def jobs(): return [pkt_job(), frame_job(False), frame_job(True), set_job(), get_job()]

"""C03: the packet cursor stays inside the data."""
from .pktspec import *
def cur(v, p): return ix(v, p) - 4
def size(v, p): return z3.Length(buf(v, p)) - 4
def jobs():
    out = []
    one = lambda ex, st: [pk(ex, st)]
    def off(ex, st): return [pk(ex, st), sym_int(ex, st, 64, 'pos', 'int')]
    def sp(f): return lambda o, n, a, r, k: f(o, n, a, r) + [('the position lies within the contents', inv(n, a[0]))]
    def setp(o, n, a, r): p = a[1].int(); return [('moves to the offset, or to the end when it is beyond it', cur(n, a[0]) == z3.If(p > size(o, a[0]), size(o, a[0]), p))]
    def seekp(o, n, a, r):
        d = a[1].int(); d = z3.If(d >= 2**63, d - 2**64, d); t = cur(o, a[0]) + d
        return [('moves by the distance, clamped to the start and the end', cur(n, a[0]) == z3.If(t < 0, I0, z3.If(t > size(o, a[0]), size(o, a[0]), t)))]
    m = lambda v, a: [fix(v, a[0])]; mb = lambda v, a: [fix(v, a[0]), fbuf(v, a[0])]
    out.append(Job('set_cursor', P + r'set_cursor\(unsigned long\)', off, sp(setp), pre=pre, modifies=m))
    out.append(Job('seek_cursor', P + r'seek_cursor\(long\)', off, sp(seekp), pre=pre, modifies=m))
    out.append(Job('get_cursor', P + r'get_cursor\(\) const', one, lambda o, n, a, r, k: [('reports the position', r.int() == cur(o, a[0]))], pre=pre))
    out.append(Job('size', P + r'size\(\) const', one, lambda o, n, a, r, k: [('reports the size', r.int() == size(o, a[0]))], pre=pre))
    out.append(Job('get_bytes_remaining', P + r'get_bytes_remaining\(\) const', one, lambda o, n, a, r, k: [('reports what lies between the position and the size', r.int() == size(o, a[0]) - cur(o, a[0]))], pre=pre))
    out.append(Job('clear', P + r'clear\(\)', one, sp(lambda o, n, a, r: [('nothing is left', z3.And(size(n, a[0]) == 0, cur(n, a[0]) == 0))]), modifies=mb))
    out.append(Job('set_buffer', P + r'set_buffer\(string&&\)', lambda ex, st: [pk(ex, st), fresh_str(ex, st, 'data')], sp(lambda o, n, a, r: [('the contents are the given ones', z3.If(z3.Length(o.str(a[1])) >= 4, buf(n, a[0]) == o.str(a[1]), z3.Length(buf(n, a[0])) == 4)), ('the position is kept, or moved to the end', ix(n, a[0]) == z3.If(ix(o, a[0]) > z3.Length(buf(n, a[0])), z3.Length(buf(n, a[0])), ix(o, a[0])))]), pre=pre, modifies=lambda v, a: mb(v, a) + [a[1]]))
    out.append(Job('reserve', P + r'reserve\(unsigned long\)', lambda ex, st: [pk(ex, st), sym_int(ex, st, 64, 'bytes', 'int')], sp(lambda o, n, a, r: []), pre=lambda v, a: pre(v, a) + [('the reservation is possible', a[1].int() <= SYMLEN)]))
    def cset(ex, st): return [Ptr(ex.new_obj(st, ex.di.size('Packet'), 'pkt'), 0)]
    out.append(Job('constructor', P + r'Packet\(\)', cset, sp(lambda o, n, a, r: [('empty', z3.And(size(n, a[0]) == 0, cur(n, a[0]) == 0))]), frame=False))
    # appending never moves the position (the operations of C01), extracting keeps it inside
    out += [j for j in write_jobs() if j.name in ('<< string', 'add_raw', '<< uint32_t')]
    for j in read_jobs():
        if j.name in ('>> string', '>> uint32_t', 'extract_raw'):
            q = j.post
            j.post = lambda o, n, a, r, k, q=q: q(o, n, a, r, k) + [('the position lies within the contents', inv(n, a[0]))]
            out.append(j)
    return out

"""Parser for the textual LLVM IR that clang emits for /repo's sources (lazy, function by function)."""
import re, subprocess

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]+"|[-\w.$]+))
 | (?P<loc>%(?:"[^"]+"|[-\w.$]+))
 | (?P<meta>!(?:\w+|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p>[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise SyntaxError('tok: ' + s[i:i+60])
        if m.lastgroup is None: break
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

class Ty:
    __slots__ = ('k', 'n', 'el', 'packed', 'name')
    def __init__(s, k, n=0, el=None, packed=False, name=None):
        s.k = k; s.n = n; s.el = el; s.packed = packed; s.name = name
    def __repr__(s):
        return {'int': f'i{s.n}', 'ptr': 'ptr', 'arr': f'[{s.n} x {s.el}]', 'void': 'void'}.get(s.k, s.name or s.k)

I1 = Ty('int', 1); I8 = Ty('int', 8); I32 = Ty('int', 32); I64 = Ty('int', 64); PTR = Ty('ptr'); VOID = Ty('void')
PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly','returned','immarg',
  'readnone','nofree','nosync','nest','swiftself','writable','dead_on_unwind','allocptr','allocalign','mustprogress','inalloca','nofpclass'}
PAREN_ATTRS = {'dereferenceable','dereferenceable_or_null','align','sret','byval','elementtype','byref','allocsize','memory','range','captures','initializes'}

class P:
    """token stream parser"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s, o=0): return s.t[s.i+o][1] if s.i+o < len(s.t) else None
    def kind(s, o=0): return s.t[s.i+o][0] if s.i+o < len(s.t) else None
    def next(s): v = s.t[s.i][1]; s.i += 1; return v
    def eat(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if s.peek() != v: raise SyntaxError(f'expected {v} got {s.t[s.i:s.i+6]}')
        s.i += 1
    def type(s):
        v = s.peek(); k = s.kind()
        if k == 'loc': s.i += 1; t = s.m.named(v)
        elif v == '[':
            s.i += 1; n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('arr', n, e)
        elif v == '{' or v == '<':
            packed = False
            if v == '<':
                s.i += 1
                if s.peek() != '{':
                    n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); return Ty('vec', n, e)
                packed = True
            s.expect('{'); el = []
            while not s.eat('}'):
                el.append(s.type()); s.eat(',')
            if packed: s.expect('>')
            t = Ty('struct', 0, el, packed)
        elif k == 'word':
            s.i += 1
            if re.fullmatch(r'i\d+', v): t = Ty('int', int(v[1:]))
            elif v in ('ptr','void','float','double','label','metadata','token','opaque','x86_fp80'): t = Ty(v)
            else: raise SyntaxError('type '+v)
        else: raise SyntaxError(f'type {v}')
        if s.peek() == '(' and (k != 'loc'):    # function type
            d = 0
            # only treat as function type if used as callee type
            j = s.i
            depth = 0
            while True:
                if s.t[j][1] == '(': depth += 1
                elif s.t[j][1] == ')':
                    depth -= 1
                    if depth == 0: break
                j += 1
            nxt = s.t[j+1] if j+1 < len(s.t) else None
            if nxt and (nxt[0] in ('glob', 'loc')):
                s.i = j+1
        return t
    def skip_attrs(s):
        attrs = {}
        while True:
            v = s.peek()
            if v in PAREN_ATTRS:
                s.i += 1
                if s.peek() == '(':
                    d = 0; start = s.i+1
                    while True:
                        x = s.next()
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                    if v in ('sret', 'byval'):
                        sub = P(s.t[start:s.i-1], s.m); attrs[v] = sub.type()
                else:
                    s.i += 1
                attrs.setdefault(v, True)
            elif v in PARAM_ATTRS: attrs[v] = True; s.i += 1
            elif s.kind() == 'attr': s.i += 1
            else: return attrs
    def value(s, ty):
        """operand of given type -> ('loc',name)|('glob',name)|('int',n)|('null',)|('undef',)|('zero',)|('cstr',bytes)|('agg',[(ty,val)])|('cexpr',op,...)"""
        k = s.kind(); v = s.peek()
        if k == 'loc': s.i += 1; return ('loc', v)
        if k == 'glob': s.i += 1; return ('glob', v[1:].strip('"'))
        if k == 'num':
            s.i += 1
            if ty.k in ('float','double'):
                import struct
                if v.startswith('0x'): bits = int(v, 16)
                else: bits = struct.unpack('<Q', struct.pack('<d', float(v)))[0]
                if ty.k == 'float':
                    f = struct.unpack('<d', struct.pack('<Q', bits))[0]
                    bits = struct.unpack('<I', struct.pack('<f', f))[0]
                return ('int', bits)
            return ('int', int(v))
        if k == 'str': s.i += 1; return ('cstr', unesc(v))
        if v in ('true','false'): s.i += 1; return ('int', 1 if v == 'true' else 0)
        if v == 'null': s.i += 1; return ('null',)
        if v in ('undef','poison'): s.i += 1; return ('undef',)
        if v == 'none': s.i += 1; return ('undef',)
        if v == 'zeroinitializer': s.i += 1; return ('zero',)
        if v in ('[','{','<'):
            s.i += 1; close = {'[':']','{':'}','<':'>'}[v]
            if v == '<' and s.peek() == '{': s.i += 1; close = '}'
            el = []
            while not s.eat(close):
                t = s.type(); el.append((t, s.value(t))); s.eat(',')
            if v == '<' and close == '}': s.expect('>')
            return ('agg', el)
        if k == 'word':
            op = s.next()
            while s.peek() in ('inbounds','nuw','nsw','exact','inrange','nusw'):
                if s.next() == 'inrange' and s.peek() == '(':
                    while s.next() != ')': pass
            s.expect('(')
            if op == 'getelementptr':
                bt = s.type(); s.expect(','); ops = []
                while not s.eat(')'):
                    s.eat('inrange')
                    t = s.type(); ops.append((t, s.value(t))); s.eat(',')
                return ('cgep', bt, ops)
            if op in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
                t = s.type(); a = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return ('ccast', op, t, a, t2)
            ops = []
            while not s.eat(')'):
                t = s.type(); ops.append((t, s.value(t))); s.eat(',')
            return ('cbin', op, ops)
        raise SyntaxError(f'value {s.t[s.i:s.i+5]}')

def unesc(v):
    v = v[2:-1] if v.startswith('c"') else v[1:-1]
    out = bytearray(); i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i+1:i+3], 16)); i += 3
        else: out += v[i].encode('latin1'); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op','res','ty','a','line','text')
    def __init__(s, op, res=None, ty=None, a=None): s.op = op; s.res = res; s.ty = ty; s.a = a; s.line = None

class Fn:
    def __init__(s): s.name = None; s.params = []; s.blocks = {}; s.order = []; s.ret = None; s.entry = None; s.dbg = None

class Module:
    def __init__(s, path):
        s.types_src = {}; s._types = {}; s.fn_src = {}; s._fns = {}; s.glob_src = {}; s.decls = {}; s.meta = {}; s._globals = {}; s.alias = {}
        s.ctors = []
        cur = None
        with open(path) as f: lines = f.read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == 'd' and l.startswith('define'):
                m = re.search(r'@("[^"]+"|[-\w.$]+)\(', l); name = m.group(1).strip('"')
                j = i+1
                while lines[j] != '}': j += 1
                s.fn_src[name] = lines[i:j]; i = j
            elif c == 'd' and l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[-\w.$]+)\(', l); s.decls[m.group(1).strip('"')] = l
            elif c == '@':
                m = re.match(r'@("[^"]+"|[-\w.$]+) = ', l); s.glob_src[m.group(1).strip('"')] = l[m.end():]
            elif c == '%':
                m = re.match(r'(%(?:"[^"]+"|[-\w.$]+)) = type (.*)$', l); s.types_src[m.group(1)] = m.group(2)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: s.meta[int(m.group(1))] = m.group(2)
            i += 1
        names = sorted(set(s.fn_src) | set(s.decls) | set(s.glob_src))
        r = subprocess.run(['/usr/bin/llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
        s.dem = dict(zip(names, r.stdout.split('\n')))
        s.norm = {n_: normalise(d) for n_, d in s.dem.items()}
        for g_, src in s.glob_src.items():
            if ' alias ' in ' ' + src[:60]: s.glob(g_)
        s.by_norm = {}
        for n_, d in s.norm.items():
            if n_ in s.fn_src: s.by_norm.setdefault(d, []).append(n_)
    def named(s, nm):
        if nm in s._types: return s._types[nm]
        t = Ty('struct', 0, None, False, nm); s._types[nm] = t
        src = s.types_src.get(nm)
        if src is None or src.strip() == 'opaque': t.k = 'opaque'; return t
        b = P(tokenize(src), s).type()
        t.k = b.k; t.el = b.el; t.packed = b.packed; t.n = b.n
        return t
    # layout
    def size(s, t): return s._lay(t)[0]
    def align(s, t): return s._lay(t)[1]
    def _lay(s, t):
        if t.k == 'int':
            b = {1:1, 8:1, 16:2, 32:4, 64:8, 128:16}.get(t.n) or max(1, 1 << ((t.n+7)//8 - 1).bit_length())
            return b, min(b, 16)
        if t.k == 'ptr': return 8, 8
        if t.k == 'float': return 4, 4
        if t.k == 'double': return 8, 8
        if t.k == 'x86_fp80': return 16, 16
        if t.k in ('arr', 'vec'):
            sz, al = s._lay(t.el); return sz*t.n, al
        if t.k == 'struct':
            o = 0; al = 1
            for e in t.el:
                sz, a = s._lay(e)
                if t.packed: a = 1
                o = (o + a-1)//a*a + sz; al = max(al, a)
            return (o+al-1)//al*al, al
        raise TypeError('size of %r' % t)
    def field_off(s, t, i):
        o = 0
        for j, e in enumerate(t.el):
            sz, a = s._lay(e)
            if t.packed: a = 1
            o = (o + a-1)//a*a
            if j == i: return o
            o += sz
        raise IndexError
    def fn(s, name):
        f = s._fns.get(name)
        if f is None: f = s._fns[name] = s._parse_fn(name)
        return f
    def glob(s, name):
        g = s._globals.get(name)
        if g is None:
            src = re.sub(r'\bcomdat(\([^)]*\))?', '', s.glob_src[name])
            m = re.match(r'.*?\balias\s.*@("[^"]+"|[-\w.$]+)\s*$', src)
            if m and ' alias ' in ' '+src:
                s.alias[name] = m.group(1).strip('"'); s._globals[name] = g = (PTR, None, True); return g
            m = re.match(r'.*?\b(global|constant)\s+', src)
            rest = src[m.end():]
            toks = tokenize(re.split(r', !dbg|, align \d+|, section ', rest)[0]) if not rest.startswith('c"') else tokenize(rest)
            p = P(toks, s); t = p.type()
            v = None
            if p.i < len(p.t) and p.peek() != ',':
                v = p.value(t)
            ext = bool(re.match(r'(.*\s)?external\s', src[:m.start(1)] + ' '))
            g = s._globals[name] = (t, None if ext else v, m.group(1) == 'constant')
        return g
    def _parse_fn(s, name):
        src = s.fn_src[name]
        f = Fn(); f.name = name
        h = src[0]
        m = re.search(r'!dbg !(\d+)', h); f.dbg = int(m.group(1)) if m else None
        toks = tokenize(re.sub(r'comdat(\(\$[^)]*\))?', '', h[:h.rindex('{')]))
        p = P(toks, s)
        gi = next(i for i, t in enumerate(toks) if t[0] == 'glob' and t[1][1:].strip('"') == name)
        # return type: parse backwards is hard; scan forward skipping linkage words
        p.i = 1
        while True:
            v = p.peek()
            if p.kind() == 'loc' or v in ('[', '{', 'void', 'ptr', 'float', 'double') or (p.kind() == 'word' and re.fullmatch(r'i\d+', v)): break
            if v in PAREN_ATTRS: p.skip_attrs()
            else: p.i += 1
        f.ret = p.type()
        p.i = gi+1; p.expect('(')
        while not p.eat(')'):
            if p.peek() == '...': p.i += 1; continue
            t = p.type(); at = p.skip_attrs()
            nm = p.next() if p.kind() == 'loc' else f'%{len(f.params)}'
            f.params.append((t, nm, at)); p.eat(',')
        cur = None
        body = src[1:]
        k = 0
        # merge multi-line instructions
        merged = []
        while k < len(body):
            l = body[k]
            if not l.strip(): k += 1; continue
            st = l.lstrip()
            if (st.startswith(('to label', 'cleanup', 'catch ', 'filter ')) and not st.split(' ')[0].endswith(':')) or (merged and merged[-1].count('[') > merged[-1].count(']') and 'switch' in merged[-1]):
                merged[-1] += ' ' + st
            else: merged.append(l)
            k += 1
        for l in merged:
            if not l.startswith(' '):
                m = re.match(r'("[^"]+"|[-\w.$]+):', l)
                cur = '%' + m.group(1); f.blocks[cur] = []; f.order.append(cur)
                if f.entry is None: f.entry = cur
                continue
            if cur is None:
                cur = '%entry0'; f.blocks[cur] = []; f.order.append(cur); f.entry = cur
            if 'llvm.dbg.' in l: continue
            ins = s._parse_inst(l)
            if ins: f.blocks[cur].append(ins)
        return f
    def _parse_inst(s, l):
        m = re.search(r', !dbg !(\d+)', l); dbg = int(m.group(1)) if m else None
        l = re.sub(r',? !\w[\w.]* !\d+', '', l)
        l = re.sub(r', !(srcloc|heapallocsite|nosanitize|prof|range|tbaa|llvm[\w.]*|unpredictable)\b.*$', '', l)
        toks = tokenize(l)
        p = P(toks, s); res = None
        if p.kind() == 'loc' and p.peek(1) == '=': res = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        I = Inst(op, res); I.line = dbg; I.text = l
        def skipw(*ws):
            while p.peek() in ws: p.i += 1
        if op == 'alloca':
            I.ty = p.type(); I.a = None
            if p.eat(',') and p.kind() == 'word' and re.fullmatch(r'i\d+', p.peek()):
                t = p.type(); I.a = (t, p.value(t))
        elif op == 'load':
            skipw('volatile', 'atomic'); I.ty = p.type(); p.expect(','); t = p.type(); I.a = p.value(t)
        elif op == 'store':
            skipw('volatile', 'atomic'); t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); I.a = (t, v, p.value(t2))
        elif op == 'getelementptr':
            skipw('inbounds', 'nuw', 'nusw'); bt = p.type(); p.expect(','); ops = []
            while True:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.eat(','): break
            I.a = (bt, ops)
        elif op in ('call', 'invoke'):
            while True:
                v = p.peek()
                if v in PAREN_ATTRS or v in PARAM_ATTRS: p.skip_attrs()
                elif v in ('fast','nnan','ninf','contract','fastcc','ccc','coldcc'): p.i += 1
                else: break
            I.ty = p.type(); fnv = p.value(PTR); p.expect('('); args = []
            while not p.eat(')'):
                t = p.type()
                if t.k == 'metadata':
                    p.i += 1; p.eat(','); continue
                at = p.skip_attrs(); args.append((t, p.value(t), at)); p.eat(',')
            I.a = (fnv, args)
            if op == 'invoke':
                while p.peek() != 'to': p.i += 1
                p.expect('to'); p.expect('label'); n1 = p.next(); p.expect('unwind'); p.expect('label'); n2 = p.next()
                I.a = (fnv, args, n1, n2)
        elif op == 'br':
            if p.eat('label'): I.a = (None, p.next())
            else:
                t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); I.a = (c, a, p.next())
        elif op == 'switch':
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('['); cs = []
            while not p.eat(']'):
                t2 = p.type(); v = p.value(t2); p.expect(','); p.expect('label'); cs.append((v[1], p.next()))
            I.a = (t, c, d, cs)
        elif op == 'ret':
            t = p.type(); I.ty = t; I.a = None if t.k == 'void' else p.value(t)
        elif op == 'unreachable': pass
        elif op == 'resume':
            t = p.type(); I.a = p.value(t)
        elif op == 'landingpad':
            I.ty = p.type(); cl = False; cs = []
            while p.i < len(p.t):
                if p.eat('cleanup'): cl = True
                elif p.eat('catch'): t = p.type(); cs.append(('catch', p.value(t)))
                elif p.eat('filter'): t = p.type(); cs.append(('filter', p.value(t)))
                else: break
            I.a = (cl, cs)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('samesign','fast'): p.i += 1
            pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); I.a = (pr, t, a, p.value(t))
        elif op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv'):
            fl = set()
            while p.peek() in ('nuw','nsw','exact','disjoint'): fl.add(p.next())
            t = p.type(); a = p.value(t); p.expect(','); I.ty = t; I.a = (a, p.value(t), fl)
        elif op in ('trunc','zext','sext','ptrtoint','inttoptr','bitcast','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'):
            while p.peek() in ('nneg','nuw','nsw'): p.i += 1
            t = p.type(); a = p.value(t); p.expect('to'); I.ty = p.type(); I.a = (t, a)
        elif op == 'phi':
            I.ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(I.ty); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b))
                if not p.eat(','): break
            I.a = inc
        elif op == 'select':
            t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); I.ty = t1; I.a = (c, a, p.value(t2))
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t); ix = []
            while p.eat(','): ix.append(int(p.next()))
            I.a = (t, v, ix)
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); ix = []
            while p.eat(','): ix.append(int(p.next()))
            I.ty = t; I.a = (t, v, t2, v2, ix)
        elif op in ('atomicrmw','cmpxchg','fence','freeze','fneg','extractelement','insertelement','shufflevector','va_arg'):
            I.a = l
        else: raise SyntaxError('inst '+l)
        return I
    def line_of(s, dbg):
        m = s.meta.get(dbg)
        if m:
            r = re.search(r'line: (\d+)', m)
            if r: return int(r.group(1))
        return None

def normalise(s):
    s = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'string', s)
    s = s.replace('[abi:cxx11]', '')
    # strip allocator/less/hash/equal_to/default_delete template arguments (balanced)
    for kw in ('allocator', 'less', 'hash', 'equal_to', 'default_delete'):
        while True:
            i = s.find(', std::%s<' % kw)
            if i < 0: break
            d = 0; j = s.index('<', i)
            while True:
                if s[j] == '<': d += 1
                elif s[j] == '>' and s[j-1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            s = s[:i] + s[j+1:]
    s = s.replace('std::', '').replace('__detail::', '').replace('__cxx11::', '')
    s = re.sub(r' +>', '>', s)
    s = s.replace('basic_string<char, char_traits<char>>', 'string')
    return s


class DI:
    """member names, offsets and types of classes, from the debug information"""
    def __init__(s, mod):
        s.m = mod; s.comp = {}; s.cache = {}
        for i, t in mod.meta.items():
            if 'DICompositeType(' in t and ('DW_TAG_class_type' in t or 'DW_TAG_structure_type' in t) and 'elements:' in t and 'DIFlagFwdDecl' not in t:
                n = re.search(r'name: "([^"]*)"', t)
                if n: s.comp.setdefault(n.group(1), i)
    def attr(s, t, k, d=None):
        r = re.search(k + r': ("[^"]*"|!?[\w.]+)', t)
        return r.group(1).strip('"') if r else d
    def node(s, i): return s.m.meta[int(i.lstrip('!'))] if isinstance(i, str) else s.m.meta[i]
    def kind(s, tid):
        """('int',bits)|('ptr',)|('str',)|('vec',name)|('map',name)|('set',name)|('struct',id,size)|('array',kind,n)|('opaque',bytes)"""
        t = s.node(tid)
        if 'DIBasicType' in t: return ('int', int(s.attr(t, 'size')), s.attr(t, 'name'))
        if 'DIDerivedType' in t:
            tag = s.attr(t, 'tag')
            if tag in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_atomic_type', 'DW_TAG_member'):
                b = s.attr(t, 'baseType')
                return s.kind(b) if b else ('int', 8, 'void')
            return ('ptr', s.attr(t, 'baseType'))
        if 'DICompositeType' in t:
            tag = s.attr(t, 'tag'); n = s.attr(t, 'name', ''); sz = int(s.attr(t, 'size', '0'))
            if tag == 'DW_TAG_enumeration_type': return ('int', sz, 'enum ' + n)
            if tag == 'DW_TAG_array_type':
                k = s.kind(s.attr(t, 'baseType')); return ('array', k, sz)
            if n.startswith('basic_string<char'): return ('str',)
            n2 = normalise(n)
            if n.startswith('vector<'): return ('vec', n2)
            if n.startswith(('unordered_map<', 'map<')): return ('map', n2)
            if n.startswith('set<'): return ('set', n2)
            if 'DIFlagFwdDecl' in t: return ('opaque', sz//8)
            return ('struct', tid, sz//8)
        return ('opaque', 0)
    def fields(s, name_or_id, base=0, prefix=''):
        """flattened [(offset, name, kind)]; nested plain structs are flattened with dotted names"""
        tid = s.comp[name_or_id] if name_or_id in s.comp else name_or_id
        t = s.node(tid); out = []
        el = s.attr(t, 'elements')
        if not el: return out
        if s.attr(t, 'vtableHolder') and '_vptr' not in s.node(el): pass
        for e in re.findall(r'!\d+', s.node(el)):
            d = s.node(e)
            if 'DIDerivedType' not in d: continue
            tag = s.attr(d, 'tag')
            if 'DIFlagStaticMember' in d: continue
            off = int(s.attr(d, 'offset', '0'))//8 + base
            if tag == 'DW_TAG_inheritance':
                out += s.fields(s.attr(d, 'baseType'), off, prefix)
            elif tag == 'DW_TAG_member':
                nm = s.attr(d, 'name', '')
                k = s.kind(s.attr(d, 'baseType'))
                if nm.startswith('_vptr'): out.append((off, prefix + '_vptr', ('vptr',))); continue
                if k[0] == 'struct': out += s.fields(k[1], off, prefix + nm + '.')
                else: out.append((off, prefix + nm, k))
        return out
    def size(s, name):
        return int(s.attr(s.node(s.comp[name]), 'size'))//8

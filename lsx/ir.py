"""Parser for the textual LLVM IR rustc emits (opaque pointers)."""
import re

# ---- types: ('i',w) ('f',w) ('p',) ('a',n,t) ('s',(t..),packed) ('v',n,t) ('void',) ('m',)
class P:
    """cursor over one line / constant text"""
    __slots__ = ('s', 'i')
    def __init__(self, s, i=0):
        self.s = s; self.i = i
    def ws(self):
        s = self.s; i = self.i; n = len(s)
        while i < n and s[i] in ' \t':
            i += 1
        self.i = i
    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ''
    def eat(self, c):
        self.ws()
        if self.s.startswith(c, self.i):
            self.i += len(c)
            return True
        return False
    def expect(self, c):
        if not self.eat(c):
            raise SyntaxError('expected %r at %r' % (c, self.s[self.i:self.i + 80]))
    def word(self):
        self.ws()
        m = _word.match(self.s, self.i)
        if not m:
            raise SyntaxError('word at %r' % self.s[self.i:self.i + 80])
        self.i = m.end()
        return m.group()
    def peekword(self):
        self.ws()
        m = _word.match(self.s, self.i)
        return m.group() if m else ''

_word = re.compile(r'[A-Za-z_][A-Za-z0-9_.]*')
_ident = re.compile(r'[%@](?:"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"|([-A-Za-z$._0-9]+))')
_num = re.compile(r'-?\d+')
_fp = re.compile(r'-?\d+\.\d*(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|f0x[0-9A-Fa-f]+|[+-]?(?:inf|nan|qnan)(?:\(0x[0-9a-fA-F]+\))?')

class Types:
    def __init__(self):
        self.named = {}

def parse_type(p, named):
    p.ws()
    s = p.s
    c = s[p.i]
    if c == 'i' and s[p.i + 1].isdigit():
        m = re.compile(r'i(\d+)').match(s, p.i)
        p.i = m.end()
        t = ('i', int(m.group(1)))
    elif c == '{':
        p.i += 1
        t = ('s', _tlist(p, '}', named), False)
    elif c == '<':
        p.i += 1
        if p.peek() == '{':
            p.expect('{')
            l = _tlist(p, '}', named)
            p.expect('>')
            t = ('s', l, True)
        else:
            n = int(_eatnum(p)); p.expect('x')
            e = parse_type(p, named)
            p.expect('>')
            t = ('v', n, e)
    elif c == '[':
        p.i += 1
        n = int(_eatnum(p)); p.expect('x')
        e = parse_type(p, named)
        p.expect(']')
        t = ('a', n, e)
    elif c == '%':
        m = _ident.match(s, p.i)
        p.i = m.end()
        t = named[m.group(1) or m.group(2)]
    else:
        w = p.word()
        if w == 'ptr':
            t = ('p',)
            if p.peekword() == 'addrspace':
                raise SyntaxError('addrspace')
        elif w == 'double': t = ('f', 64)
        elif w == 'float': t = ('f', 32)
        elif w == 'half': t = ('f', 16)
        elif w == 'fp128': t = ('f', 128)
        elif w == 'x86_fp80': t = ('f', 80)
        elif w == 'void': t = ('void',)
        elif w == 'metadata': t = ('m',)
        elif w == 'label': t = ('label',)
        elif w == 'token': t = ('m',)
        else:
            raise SyntaxError('type %r' % w)
    return t

def _eatnum(p):
    p.ws()
    m = _num.match(p.s, p.i)
    p.i = m.end()
    return m.group()

def _tlist(p, end, named):
    l = []
    if p.eat(end):
        return tuple(l)
    while True:
        l.append(parse_type(p, named))
        if p.eat(end):
            return tuple(l)
        p.expect(',')

def align_of(t):
    k = t[0]
    if k == 'i':
        w = t[1]
        b = 1
        while b * 8 < w and b < 16:
            b *= 2
        return b
    if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == 'p': return 8
    if k == 'a': return align_of(t[2])
    if k == 's':
        if t[2]: return 1
        return max([align_of(x) for x in t[1]] or [1])
    if k == 'v':
        return max(1, size_of(t))
    return 1

def size_of(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == 'p': return 8
    if k == 'a': return t[1] * size_of(t[2])
    if k == 's':
        off = 0
        for x in t[1]:
            a = 1 if t[2] else align_of(x)
            off = (off + a - 1) // a * a + size_of(x)
        a = align_of(t)
        return (off + a - 1) // a * a
    if k == 'v':
        if t[2] == ('i', 1):
            return (t[1] + 7) // 8
        return t[1] * size_of(t[2])
    return 0

def field_off(t, i):
    off = 0
    for j, x in enumerate(t[1]):
        a = 1 if t[2] else align_of(x)
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += size_of(x)
    raise IndexError

ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly zeroext signext inreg immarg returned
nofree nosync nounwind willreturn allocalign allocptr swiftself swifterror nest noundef writable dead_on_unwind
dead_on_return inalloca'''.split())
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'captures', 'initializes',
          'byref', 'preallocated', 'elementtype', 'alignstack', 'nofpclass', 'memory', 'allockind', 'allocsize', 'dead_on_return'}

def skip_attrs(p):
    got = []
    while True:
        p.ws()
        m = _word.match(p.s, p.i)
        if p.i < len(p.s) and p.s[p.i] == '"':
            j = p.s.index('"', p.i + 1)
            p.i = j + 1
            if p.s.startswith('=', p.i):
                p.i += 2
                p.i = p.s.index('"', p.i) + 1
            continue
        if not m:
            return got
        w = m.group()
        if w in PATTRS:
            p.i = m.end()
            if p.s.startswith('(', p.i):
                d = 0
                while True:
                    c = p.s[p.i]
                    if c == '(':
                        d += 1
                    elif c == ')':
                        d -= 1
                        if d == 0:
                            break
                    p.i += 1
                p.i += 1
            elif w == 'align':
                _eatnum(p)
            got.append(w)
        elif w in ATTRS:
            p.i = m.end()
            got.append(w)
        else:
            return got

def unq(m):
    g = m.group(1)
    if g is not None:
        return re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), g)
    return m.group(2)

# values: ('l',name) local, ('g',name) global, ('c',int|float), ('z',) zero, ('u',) undef,
#         ('agg',[ (t,v) ]) , ('bytes', b), ('ce', op, ...)
def parse_value(p, t, named):
    p.ws()
    s = p.s
    c = s[p.i]
    if c == '%':
        m = _ident.match(s, p.i); p.i = m.end()
        return ('l', unq(m))
    if c == '@':
        m = _ident.match(s, p.i); p.i = m.end()
        return ('g', unq(m))
    if c == 'c' and s.startswith('c"', p.i):
        j = s.index('"', p.i + 2)
        raw = s[p.i + 2:j]
        p.i = j + 1
        out = bytearray(); k = 0
        while k < len(raw):
            if raw[k] == '\\':
                if raw[k + 1] == '\\':
                    out.append(92); k += 2
                else:
                    out.append(int(raw[k + 1:k + 3], 16)); k += 3
            else:
                out += raw[k].encode('utf-8'); k += 1
        return ('bytes', bytes(out))
    if c == '{' or c == '[' or (c == '<'):
        if s.startswith('<{', p.i):
            p.i += 2; end = '}>'
        else:
            p.i += 1; end = {'{': '}', '[': ']', '<': '>'}[c]
        l = []
        p.ws()
        if p.eat(end):
            return ('agg', l)
        while True:
            tt = parse_type(p, named)
            l.append((tt, parse_value(p, tt, named)))
            p.ws()
            if end == '}>' and p.s.startswith('}', p.i):
                p.expect('}'); p.expect('>')
                return ('agg', l)
            if p.eat(end):
                return ('agg', l)
            p.expect(',')
    if t[0] == 'f':
        m = _fp.match(s, p.i)
        if m:
            p.i = m.end()
            return ('c', parse_fp(m.group(), t[1]))
    m = _num.match(s, p.i)
    if m:
        p.i = m.end()
        if t[0] == 'f':
            return ('c', float(m.group()))
        return ('c', int(m.group()) & ((1 << t[1]) - 1))
    w = p.word()
    if w == 'true': return ('c', 1)
    if w == 'false': return ('c', 0)
    if w == 'null': return ('c', 0)
    if w in ('undef', 'poison'): return ('u',)
    if w in ('zeroinitializer', 'none'): return ('z',)
    if w == 'splat':
        p.expect('(')
        tt = parse_type(p, named)
        v = parse_value(p, tt, named)
        p.expect(')')
        return ('agg', [(tt, v)] * t[1])
    if w == 'getelementptr':
        while p.peekword() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            x = p.word()
            if x == 'inrange':
                p.expect('('); p.i = p.s.index(')', p.i) + 1
        p.expect('(')
        bt = parse_type(p, named); p.expect(',')
        pt = parse_type(p, named); base = parse_value(p, pt, named)
        idx = []
        while p.eat(','):
            it = parse_type(p, named)
            idx.append((it, parse_value(p, it, named)))
        p.expect(')')
        return ('ce', 'gep', bt, base, idx)
    if w in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'ptrtoaddr', 'addrspacecast'):
        while p.peekword() in ('nuw', 'nsw', 'nneg'):
            p.word()
        p.expect('(')
        st = parse_type(p, named); v = parse_value(p, st, named)
        x = p.word(); assert x == 'to'
        dt = parse_type(p, named)
        p.expect(')')
        return ('ce', 'cast', w, st, v, dt)
    if w in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
        while p.peekword() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.word()
        p.expect('(')
        t1 = parse_type(p, named); a = parse_value(p, t1, named); p.expect(',')
        t2 = parse_type(p, named); b = parse_value(p, t2, named)
        p.expect(')')
        return ('ce', 'bin', w, t1, a, b)
    if w in ('dso_local_equivalent', 'no_cfi'):
        return parse_value(p, t, named)
    if w in ('inf', 'nan'):
        return ('c', float(w))
    raise SyntaxError('value %r in %r' % (w, s[max(0, p.i - 40):p.i + 80]))

def parse_fp(s, w):
    import struct
    if s.startswith('f0x'):
        b = int(s[3:], 16)
        if w == 32:
            return struct.unpack('<f', struct.pack('<I', b))[0]
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    if s.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(s[2:], 16)))[0]
    if 'inf' in s:
        return float('-inf') if s[0] == '-' else float('inf')
    if 'nan' in s:
        return float('nan')
    return float(s)

class Func:
    __slots__ = ('name', 'lines', 'params', 'ret', 'doc', 'noret', 'start', 'linkage')

class Module:
    """lazily parsed module"""
    def __init__(self, path):
        self.named = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.decls = set()
        self.meta = None
        self.path = path
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            self.lines = f.read().split('\n')
        self._scan()

    def _scan(self):
        L = self.lines
        i = 0; n = len(L)
        gre = re.compile(r'@(?:"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"|([-A-Za-z$._0-9]+)) = ')
        doc = ''
        self.metastart = n
        attrs_noret = set()
        while i < n:
            l = L[i]
            if l.startswith('@'):
                m = gre.match(l)
                self.globals[unq(m)] = l[m.end():]
            elif l.startswith('define'):
                j = i
                while L[j] != '}':
                    j += 1
                m = _ident.search(l, l.index('@'))
                nm = unq(m)
                self.funcs[nm] = (i, j, doc)
                i = j
                doc = ''
            elif l.startswith('; ') and not l.startswith('; Function Attrs'):
                doc = l[2:]
            elif l.startswith('%'):
                m = re.match(r'%(?:"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"|([-A-Za-z$._0-9]+)) = type ', l)
                if m:
                    if l[m.end():].startswith('opaque'):
                        self.named[unq(m)] = ('s', (), False)
                    else:
                        self.named[unq(m)] = parse_type(P(l, m.end()), self.named)
            elif l.startswith('declare'):
                m = _ident.search(l, l.index('@'))
                self.decls.add(unq(m))
            elif l.startswith('!') and self.metastart == n:
                self.metastart = i
            elif l.startswith('attributes'):
                if ' noreturn' in l:
                    attrs_noret.add(l.split()[1])
            i += 1
        self.attrs_noret = attrs_noret

    def get(self, name):
        i, j, doc = self.funcs[name]
        f = Func()
        f.name = name
        f.doc = doc
        head = self.lines[i]
        f.lines = self.lines[i + 1:j]
        f.start = i + 1
        p = P(head, len('define'))
        # linkage etc. up to return type
        f.ret = None
        words = {'internal', 'private', 'dso_local', 'hidden', 'fastcc', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'unnamed_addr',
                 'local_unnamed_addr', 'coldcc', 'ccc', 'available_externally', 'protected', 'preserve_mostcc', 'linkonce', 'cold', 'default'}
        while True:
            skip_attrs(p)
            w = p.peekword()
            if w in words:
                p.word(); continue
            break
        f.ret = parse_type(p, self.named)
        p.ws()
        m = _ident.match(p.s, p.i)
        p.i = m.end()
        p.expect('(')
        f.params = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')'); break
                t = parse_type(p, self.named)
                at = skip_attrs(p)
                p.ws()
                m = _ident.match(p.s, p.i)
                if m:
                    p.i = m.end()
                    nm = unq(m)
                else:
                    nm = str(len(f.params))
                f.params.append((t, nm, at))
                if p.eat(')'):
                    break
                p.expect(',')
        tail = p.s[p.i:]
        f.noret = any(x in self.attrs_noret for x in re.findall(r'#\d+', tail))
        return f

    # debug metadata: map '!123' (DILocation) -> list of (subprogram name, file, line), innermost first
    def metaline(self, k):
        if self.meta is None:
            self.meta = {}
            r = re.compile(r'!(\d+) = ')
            for l in self.lines[self.metastart:]:
                m = r.match(l)
                if m:
                    self.meta[m.group(1)] = l[m.end():]
        return self.meta.get(k)

"""Compiles LLVM functions to Python source that runs on mixed concrete/symbolic values."""
import re
from . import ir
from .ir import P, parse_type, parse_value, skip_attrs, size_of, field_off, unq, _ident

PANIC = re.compile(r'4core9panicking|4core6option13(expect|unwrap)_failed|4core6option13expect_failed|unwrap_failed|expect_failed|'
                   r'4core5slice5index|slice_index_fail|slice_start_index|slice_end_index|slice_error_fail|handle_alloc_error|capacity_overflow|'
                   r'3std9panicking|panic_already|7process5abort|__rustc10rust_panic|___rust_abort|panic_on_ord_violation|len_mismatch_fail|'
                   r'raw_vec12handle_error|assert_failed|copy_from_slice|panic_const|panic_display|begin_panic|str16slice_error|panic_fmt|panic_nounwind|'
                   r'4cell\d+panic_|index_len_fail|_panicky')

# printing has no effect on the state the properties speak about
PRINT = re.compile(r'3std2io5stdio(6__print|7__eprint)')

class GenError(Exception):
    pass

def mask(w): return (1 << w) - 1

class Gen:
    def __init__(self, R, f):
        self.R = R
        self.m = R.mod
        self.f = f
        self.names = {}
        self.out = []
        self.blocks = []       # (label, [lines])
        self.tmp = 0

    def lv(self, name):
        n = self.names.get(name)
        if n is None:
            n = 'v%d' % len(self.names)
            self.names[name] = n
        return n

    # ---- constants -> python expression
    def const(self, t, v):
        k = v[0]
        if k == 'l':
            return self.lv(v[1])
        if k == 'c':
            x = v[1]
            if x.__class__ is float:
                if x != x: return 'NAN'
                if x in (float('inf'), float('-inf')):
                    return 'INF' if x > 0 else '(-INF)'
                return repr(x) if x >= 0 and not str(x).startswith('-') else '(%r)' % x
            return str(x)
        if k in ('z', 'u'):
            return self.zero(t)
        if k == 'agg':
            l = [self.const(tt, vv) for tt, vv in v[1]]
            return '(%s,)' % ', '.join(l) if l else '()'
        if k == 'bytes':
            return repr(tuple(v[1]))
        if k in ('g', 'ce'):
            return str(self.R.constaddr(t, v))
        raise GenError('const %r' % (v,))

    def zero(self, t):
        k = t[0]
        if k in ('i', 'p'): return '0'
        if k == 'f': return '0.0'
        if k == 'a' or k == 'v':
            e = self.zero(t[2])
            return '(%s,)' % ', '.join([e] * t[1]) if t[1] else '()'
        if k == 's':
            return '(%s,)' % ', '.join(self.zero(x) for x in t[1]) if t[1] else '()'
        return '0'

    def tv(self, p):
        t = parse_type(p, self.m.named)
        skip_attrs(p)
        v = parse_value(p, t, self.m.named)
        return t, v

    # ---- function
    def compile(self):
        f = self.f
        cur = None
        order = []
        blk = {}
        lab = re.compile(r'(?:"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"|([-A-Za-z$._0-9]+)):')
        i = 0
        lines = f.lines
        first = True
        nparams = len([1 for _, nm, _ in f.params if nm.isdigit()])
        while i < len(lines):
            l = lines[i]
            if not l or l.startswith(';'):
                i += 1; continue
            if l[0] != ' ':
                m = lab.match(l)
                cur = unq(m)
                blk[cur] = []
                order.append(cur)
                i += 1; continue
            s = l.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'):
                i += 1; continue
            if cur is None:
                cur = str(nparams)
                blk[cur] = []; order.append(cur)
            # multi-line switch / landingpad / invoke
            if s.startswith('switch') and not s.split(', !')[0].rstrip().endswith(']'):
                i += 1
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ]'
            elif ' landingpad ' in s or s.startswith('landingpad'):
                while i + 1 < len(lines) and lines[i + 1].strip().startswith(('catch', 'filter', 'cleanup')):
                    i += 1
            elif s.startswith('invoke') or ' invoke ' in s[:60]:
                if i + 1 < len(lines) and lines[i + 1].strip().startswith('to label'):
                    i += 1
                    s += ' ' + lines[i].strip()
            blk[cur].append(s)
            i += 1
        self.blk = blk
        self.order = order
        self.bid = {b: k for k, b in enumerate(order)}
        # phis
        self.phis = {}
        for b in order:
            ph = []
            for s in blk[b]:
                m = re.match(r'(%(?:"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|[-A-Za-z$._0-9]+)) = phi (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*', s)
                if not m:
                    break
                nm = unq(_ident.match(m.group(1)))
                p = P(s, m.end())
                t = parse_type(p, self.m.named)
                inc = {}
                while True:
                    p.expect('[')
                    v = parse_value(p, t, self.m.named)
                    p.expect(',')
                    p.ws()
                    mm = _ident.match(p.s, p.i); p.i = mm.end()
                    p.expect(']')
                    inc[unq(mm)] = v
                    if not p.eat(','):
                        break
                    if p.peek() == '!':
                        break
                ph.append((nm, t, inc))
            self.phis[b] = ph
        # predecessors
        self.npred = {b: 0 for b in order}
        self.succ = {}
        for b in order:
            last = blk[b][-1]
            ss = [unq(m) for m in re.finditer(r'label (?=%)', last) for m in [_ident.match(last, m.end())]]
            self.succ[b] = ss
            for x in ss:
                self.npred[x] += 1
        self.npred[order[0]] += 2
        body = []
        done = set()
        self.cov0 = len(self.R.covmap)
        self.inlined = set()
        # which blocks get dispatch entries
        code = {}
        todo = [order[0]]
        seen = {order[0]}
        while todo:
            b = todo.pop()
            self.pending = []
            code[b] = self.block(b, 0)
            for x in self.pending:
                if x not in seen:
                    seen.add(x); todo.append(x)
        ent = sorted(code, key=lambda b: self.bid[b])
        args = ', '.join(self.lv(nm) for _, nm, _ in f.params)
        src = ['def FUNC(%s):' % args]
        if len(ent) == 1 and not self.selfloop(ent[0], code[ent[0]]):
            src += ['  ' + x for x in code[ent[0]]]
        else:
            src.append('  bb = %d' % self.bid[order[0]])
            src.append('  while True:')
            self.tree(src, ent, code, 2)
        return '\n'.join(src) + '\n'

    def selfloop(self, b, lines):
        return any('continue' in x for x in lines)

    def tree(self, src, ent, code, ind):
        if len(ent) == 1:
            src += ['  ' * ind + x for x in code[ent[0]]]
            return
        if len(ent) <= 3:
            for k, b in enumerate(ent):
                pre = 'if' if k == 0 else 'elif'
                src.append('  ' * ind + ('%s bb == %d:' % (pre, self.bid[b]) if k < len(ent) - 1 else 'else:'))
                src += ['  ' * (ind + 1) + x for x in code[b]]
            return
        h = len(ent) // 2
        src.append('  ' * ind + 'if bb < %d:' % self.bid[ent[h]])
        self.tree(src, ent[:h], code, ind + 1)
        src.append('  ' * ind + 'else:')
        self.tree(src, ent[h:], code, ind + 1)

    def goto(self, frm, to, depth):
        """lines for the edge frm -> to"""
        ph = self.phis[to]
        out = []
        if ph:
            if frm not in ph[0][2]:
                raise GenError('phi edge')
            pairs = [(self.lv(nm), self.const(t, inc[frm])) for nm, t, inc in ph]
            pairs = [(a, b) for a, b in pairs if a != b]
            if pairs:
                out.append('%s = %s' % (', '.join(a for a, _ in pairs), ', '.join(b for _, b in pairs)))
        if self.npred[to] == 1 and depth < 12 and to not in self.inlined:
            self.inlined.add(to)
            out += self.block(to, depth)
            return out
        self.pending.append(to)
        out.append('bb = %d' % self.bid[to])
        out.append('continue')
        return out

    def block(self, b, depth):
        out = []
        lines = self.blk[b]
        dbg = []
        ck = len(self.R.covmap)
        self.R.covmap.append(None)
        body = []
        for s in lines[len(self.phis[b]):]:
            k = s.rfind('!dbg !')
            if k >= 0:
                e = re.match(r'\d+', s[k + 6:]).group()
                dbg.append(e)
            body += self.inst(b, s, depth)
        self.R.covmap[ck] = (self.f.name, dbg)
        out.append('C[%d] = 1; S.n += %d' % (ck, len(lines)))
        return out + body

    def inst(self, b, s, depth):
        c = s[0]
        if c == '%':
            m = _ident.match(s)
            dst = self.lv(unq(m))
            p = P(s, m.end())
            p.expect('=')
        else:
            dst = None
            p = P(s)
        op = p.word()
        if op in ('tail', 'musttail', 'notail'):
            op = p.word()
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise GenError('instruction %s' % s)
        return h(dst, p, b, depth)

    # ---- terminators
    def i_br(self, dst, p, b, depth):
        if p.eat('label'):
            p.ws(); m = _ident.match(p.s, p.i)
            return self.goto(b, unq(m), depth)
        t, v = self.tv(p)
        p.expect(','); p.expect('label'); p.ws()
        m = _ident.match(p.s, p.i); p.i = m.end(); t1 = unq(m)
        p.expect(','); p.expect('label'); p.ws()
        m = _ident.match(p.s, p.i); t2 = unq(m)
        c = self.const(t, v)
        if v[0] != 'l':
            return self.goto(b, t1 if c == '1' else t2, depth)
        out = ['if (%s if %s.__class__ is int else br(%s)):' % (c, c, c)]
        out += ['  ' + x for x in self.goto(b, t1, depth + 1)]
        out += ['else:']
        out += ['  ' + x for x in self.goto(b, t2, depth + 1)]
        return out

    def i_switch(self, dst, p, b, depth):
        t, v = self.tv(p)
        p.expect(','); p.expect('label'); p.ws()
        m = _ident.match(p.s, p.i); p.i = m.end(); dflt = unq(m)
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, cv = self.tv(p)
            p.expect(','); p.expect('label'); p.ws()
            m = _ident.match(p.s, p.i); p.i = m.end()
            cases.append((cv[1], unq(m)))
        x = self.const(t, v)
        # the default edge is often taken from several cases
        out = ['_s = %s if %s.__class__ is int else swi(%s, %d, (%s))' % (x, x, x, t[1], ''.join('%d, ' % k for k, _ in cases))] if v[0] == 'l' else ['_s = ' + x]
        for k, (cv, tgt) in enumerate(cases):
            out.append('%s _s == %d:' % ('if' if k == 0 else 'elif', cv))
            out += ['  ' + y for y in self.goto(b, tgt, depth + 1)]
        if cases:
            out.append('else:')
            out += ['  ' + y for y in self.goto(b, dflt, depth + 1)]
        else:
            out += self.goto(b, dflt, depth)
        return out

    def i_ret(self, dst, p, b, depth):
        if p.peekword() == 'void':
            return ['return None']
        t, v = self.tv(p)
        return ['return ' + self.const(t, v)]

    def i_unreachable(self, dst, p, b, depth):
        return ['S.unreachable(%r)' % self.f.name, 'return']

    def i_resume(self, dst, p, b, depth):
        return ['S.unreachable("resume")', 'return']

    # ---- arithmetic
    def bin(self, dst, p, op, fast, flags=('nuw', 'nsw', 'exact', 'disjoint')):
        while p.peekword() in flags:
            p.word()
        t, a = self.tv(p)
        p.expect(',')
        bv = parse_value(p, t, self.m.named)
        A = self.const(t, a); B = self.const(t, bv)
        if t[0] == 'v':
            return ['%s = vbin(%r, %s, %s, %d)' % (dst, op, A, B, t[2][1])]
        w = t[1]
        M = mask(w)
        chk = ' and '.join('%s.__class__ is int' % X for X, V in ((A, a), (B, bv)) if V[0] == 'l')
        slow = 'T_%s(%s, %s, %d)' % (op, A, B, w)
        if fast is None or not chk:
            return ['%s = %s' % (dst, slow)]
        return ['%s = %s if %s else %s' % (dst, fast.format(A=A, B=B, M=M, w=w), chk, slow)]

    def i_add(self, d, p, b, dp): return self.bin(d, p, 'add', '({A} + {B}) & {M}')
    def i_sub(self, d, p, b, dp): return self.bin(d, p, 'sub', '({A} - {B}) & {M}')
    def i_mul(self, d, p, b, dp): return self.bin(d, p, 'mul', '({A} * {B}) & {M}')
    def i_and(self, d, p, b, dp): return self.bin(d, p, 'and_', '{A} & {B}')
    def i_or(self, d, p, b, dp): return self.bin(d, p, 'or_', '{A} | {B}')
    def i_xor(self, d, p, b, dp): return self.bin(d, p, 'xor', '{A} ^ {B}')
    def i_shl(self, d, p, b, dp): return self.bin(d, p, 'shl', '(({A} << {B}) & {M} if {B} < {w} else 0)')
    def i_lshr(self, d, p, b, dp): return self.bin(d, p, 'lshr', '({A} >> {B} if {B} < {w} else 0)')
    def i_ashr(self, d, p, b, dp): return self.bin(d, p, 'ashr', None)
    def i_udiv(self, d, p, b, dp): return self.bin(d, p, 'udiv', None)
    def i_urem(self, d, p, b, dp): return self.bin(d, p, 'urem', None)
    def i_sdiv(self, d, p, b, dp): return self.bin(d, p, 'sdiv', None)
    def i_srem(self, d, p, b, dp): return self.bin(d, p, 'srem', None)

    FM = ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast')
    def fbin(self, dst, p, op, fast):
        while p.peekword() in self.FM:
            p.word()
        t, a = self.tv(p)
        p.expect(',')
        bv = parse_value(p, t, self.m.named)
        A = self.const(t, a); B = self.const(t, bv)
        if t[0] == 'v':
            f = 'T_%s(' % op if t[2][1] == 64 else 'f32op(%r, ' % op
            return ['%s = tuple(%sx, y) for x, y in zip(%s, %s))' % (dst, f, A, B)]
        if t[1] != 64:
            return ['%s = f32op(%r, %s, %s)' % (dst, op, A, B)]
        chk = ' and '.join('%s.__class__ is float' % X for X, V in ((A, a), (B, bv)) if V[0] == 'l')
        slow = 'T_%s(%s, %s)' % (op, A, B)
        if fast is None or not chk:
            return ['%s = %s' % (dst, slow)]
        return ['%s = %s if %s else %s' % (dst, fast.format(A=A, B=B), chk, slow)]
    def i_fadd(self, d, p, b, dp): return self.fbin(d, p, 'fadd', '{A} + {B}')
    def i_fsub(self, d, p, b, dp): return self.fbin(d, p, 'fsub', '{A} - {B}')
    def i_fmul(self, d, p, b, dp): return self.fbin(d, p, 'fmul', '{A} * {B}')
    def i_fdiv(self, d, p, b, dp): return self.fbin(d, p, 'fdiv', None)
    def i_fneg(self, dst, p, b, dp):
        while p.peekword() in self.FM:
            p.word()
        t, a = self.tv(p)
        A = self.const(t, a)
        if t[0] == 'v':
            return ['%s = tuple(T_fneg(x) for x in %s)' % (dst, A)]
        return ['%s = T_fneg(%s)' % (dst, A)]

    def i_icmp(self, dst, p, b, dp):
        pr = p.word()
        if pr == 'samesign':
            pr = p.word()
        t, a = self.tv(p)
        p.expect(',')
        bv = parse_value(p, t, self.m.named)
        A = self.const(t, a); B = self.const(t, bv)
        if t[0] == 'v':
            w = t[2][1] if t[2][0] == 'i' else 64
            return ['%s = tuple(T_icmp(%r, x, y, %d) for x, y in zip(%s, %s))' % (dst, pr, w, A, B)]
        w = t[1] if t[0] == 'i' else 64
        chk = ' and '.join('%s.__class__ is int' % X for X, V in ((A, a), (B, bv)) if V[0] == 'l')
        slow = 'T_icmp(%r, %s, %s, %d)' % (pr, A, B, w)
        if not chk:
            return ['%s = %s' % (dst, slow)]
        o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pr if len(pr) == 2 else pr[1:]]
        if pr[0] == 's' and len(pr) == 3:
            H = 1 << (w - 1)
            def fl(X, V):
                return '(%s ^ %d)' % (X, H) if V[0] == 'l' else str(int(X) ^ H)
            e = '(1 if %s %s %s else 0)' % (fl(A, a), o, fl(B, bv))
        else:
            e = '(1 if %s %s %s else 0)' % (A, o, B)
        return ['%s = %s if %s else %s' % (dst, e, chk, slow)]

    def i_fcmp(self, dst, p, b, dp):
        while p.peekword() in self.FM:
            p.word()
        pr = p.word()
        t, a = self.tv(p)
        p.expect(',')
        bv = parse_value(p, t, self.m.named)
        A = self.const(t, a); B = self.const(t, bv)
        if t[0] == 'v':
            return ['%s = tuple(T_fcmp(%r, x, y) for x, y in zip(%s, %s))' % (dst, pr, A, B)]
        return ['%s = T_fcmp(%r, %s, %s)' % (dst, pr, A, B)]

    def i_select(self, dst, p, b, dp):
        while p.peekword() in self.FM:
            p.word()
        ct, c = self.tv(p); p.expect(',')
        t, x = self.tv(p); p.expect(',')
        t2, y = self.tv(p)
        C_ = self.const(ct, c); X = self.const(t, x); Y = self.const(t2, y)
        if ct[0] == 'v':
            return ['%s = vsel(%s, %s, %s, %r)' % (dst, C_, X, Y, self.wof(t[2]))]
        slow = 'sel(%s, %s, %s, %s)' % (C_, X, Y, self.wexpr(t))
        if c[0] != 'l':
            return ['%s = %s' % (dst, slow)]
        return ['%s = (%s if %s else %s) if %s.__class__ is int else %s' % (dst, X, C_, Y, C_, slow)]

    def wof(self, t):
        if t[0] == 'i': return t[1]
        if t[0] == 'p': return 64
        if t[0] == 'f': return 'd' if t[1] == 64 else 'f'
        return None
    def wexpr(self, t):
        if t[0] in 'ipf':
            return repr(self.wof(t))
        if t[0] == 's':
            return '(' + ''.join(self.wexpr(x) + ', ' for x in t[1]) + ')'
        if t[0] in 'av':
            return '(' + (self.wexpr(t[2]) + ', ') * t[1] + ')'
        return 'None'

    # ---- conversions
    def conv(self, dst, p, fn):
        while p.peekword() in ('nneg', 'nuw', 'nsw') + self.FM:
            p.word()
        t, a = self.tv(p)
        w = p.word(); assert w == 'to', w
        d = parse_type(p, self.m.named)
        A = self.const(t, a)
        if t[0] == 'v' and d[0] == 'v':
            e = fn('x', t[2], d[2], False)
            return ['%s = tuple(%s for x in %s)' % (dst, e, A)]
        return ['%s = %s' % (dst, fn(A, t, d, a[0] == 'l'))]
    def i_zext(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: '%s if %s.__class__ is int else T_zext(%s, %d, %d)' % (A, A, A, t[1], u[1]))
    def i_sext(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'T_sext(%s, %d, %d)' % (A, t[1], u[1]))
    def i_trunc(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: '%s & %d if %s.__class__ is int else T_trunc(%s, %d, %d)' % (A, mask(u[1]), A, A, t[1], u[1]))
    def i_ptrtoint(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: A if u[1] == 64 else 'T_trunc(%s, 64, %d)' % (A, u[1]) if u[1] < 64 else A)
    i_ptrtoaddr = i_ptrtoint
    def i_inttoptr(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: A if t[1] == 64 else 'T_zext(%s, %d, 64)' % (A, t[1]))
    def i_sitofp(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'i2f(%s, %d, True, %d)' % (A, t[1], u[1]))
    def i_uitofp(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'i2f(%s, %d, False, %d)' % (A, t[1], u[1]))
    def i_fptosi(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'f2i(%s, %d, True, %d)' % (A, u[1], t[1]))
    def i_fptoui(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'f2i(%s, %d, False, %d)' % (A, u[1], t[1]))
    def i_fpext(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'fpext(%s)' % A)
    def i_fptrunc(self, d, p, b, dp):
        return self.conv(d, p, lambda A, t, u, l: 'fptrunc(%s)' % A)
    def i_bitcast(self, d, p, b, dp):
        t, a = self.tv(p)
        w = p.word(); assert w == 'to'
        u = parse_type(p, self.m.named)
        A = self.const(t, a)
        if t == u or (t[0] in 'ip' and u[0] in 'ip'):
            return ['%s = %s' % (d, A)]
        return ['%s = bitcast(%s, %r, %r)' % (d, A, t, u)]
    def i_freeze(self, d, p, b, dp):
        t, a = self.tv(p)
        return ['%s = %s' % (d, self.const(t, a))]

    # ---- aggregates, vectors
    def i_extractvalue(self, d, p, b, dp):
        t, a = self.tv(p)
        e = self.const(t, a)
        while p.eat(','):
            if p.peek() == '!': break
            e += '[%s]' % ir._eatnum(p)
        return ['%s = %s' % (d, e)]
    def i_insertvalue(self, d, p, b, dp):
        t, a = self.tv(p); p.expect(',')
        t2, v = self.tv(p)
        idx = []
        while p.eat(','):
            if p.peek() == '!': break
            idx.append(int(ir._eatnum(p)))
        return ['%s = insv(%s, %s, %r)' % (d, self.const(t, a), self.const(t2, v), tuple(idx))]
    def i_extractelement(self, d, p, b, dp):
        t, a = self.tv(p); p.expect(',')
        t2, i = self.tv(p)
        return ['%s = %s[cc(%s)]' % (d, self.const(t, a), self.const(t2, i))]
    def i_insertelement(self, d, p, b, dp):
        t, a = self.tv(p); p.expect(',')
        t2, v = self.tv(p); p.expect(',')
        t3, i = self.tv(p)
        return ['%s = insv(%s, %s, (cc(%s),))' % (d, self.const(t, a), self.const(t2, v), self.const(t3, i))]
    def i_shufflevector(self, d, p, b, dp):
        t, a = self.tv(p); p.expect(',')
        t2, c = self.tv(p); p.expect(',')
        t3, mk = self.tv(p)
        return ['%s = shuf(%s, %s, %s)' % (d, self.const(t, a), self.const(t2, c), self.const(t3, mk))]

    # ---- memory
    def i_alloca(self, dst, p, b, dp):
        if p.peekword() == 'inalloca': p.word()
        t = parse_type(p, self.m.named)
        n = '1'
        if p.eat(','):
            if p.peekword() not in ('align', 'addrspace'):
                t2, v = self.tv(p)
                n = self.const(t2, v)
        return ['%s = S.alloc(%d * cc(%s))' % (dst, size_of(t), n)]

    def i_load(self, dst, p, b, dp):
        while p.peekword() in ('volatile', 'atomic'):
            p.word()
        t = parse_type(p, self.m.named)
        p.expect(',')
        pt, a = self.tv(p)
        return ['%s = %s' % (dst, self.ldx(t, self.const(pt, a)))]

    def ldx(self, t, A):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if t[1] % 8:
                return 'T_trunc(ldi(%s, %d), %d, %d)' % (A, n, n * 8, t[1])
            return 'ldi(%s, %d)' % (A, n)
        if k == 'p':
            return 'ldi(%s, 8)' % A
        if k == 'f':
            return 'ldd(%s)' % A if t[1] == 64 else 'ldf(%s)' % A
        return 'ldagg(%s, %r)' % (A, t)

    def stx(self, t, A, V):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if t[1] % 8:
                return 'sti(%s, %d, T_zext(%s, %d, %d))' % (A, n, V, t[1], n * 8)
            return 'sti(%s, %d, %s)' % (A, n, V)
        if k == 'p':
            return 'sti(%s, 8, %s)' % (A, V)
        if k == 'f':
            return 'sti(%s, 8, %s)' % (A, V) if t[1] == 64 else 'stf(%s, %s)' % (A, V)
        return 'stagg(%s, %r, %s)' % (A, t, V)

    def i_store(self, dst, p, b, dp):
        while p.peekword() in ('volatile', 'atomic'):
            p.word()
        t, v = self.tv(p); p.expect(',')
        pt, a = self.tv(p)
        if v[0] == 'u':
            return ['pass']
        return [self.stx(t, self.const(pt, a), self.const(t, v))]

    def i_getelementptr(self, dst, p, b, dp):
        while p.peekword() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.word()
        t = parse_type(p, self.m.named); p.expect(',')
        pt, base = self.tv(p)
        e = self.const(pt, base)
        off = 0
        dyn = []
        first = True
        while p.eat(','):
            if p.peek() == '!': break
            it, iv = self.tv(p)
            if first:
                sz = size_of(t); first = False
            elif t[0] == 's':
                off += field_off(t, iv[1] if iv[0] == 'c' else 0)
                t = t[1][iv[1] if iv[0] == 'c' else 0]
                continue
            else:
                t = t[2]
                sz = size_of(t)
            if iv[0] in ('c', 'z', 'u'):
                x = iv[1] if iv[0] == 'c' else 0
                w = it[1]
                x = x - (1 << w) if x >> (w - 1) else x
                off += x * sz
            else:
                dyn.append((self.const(it, iv), it[1], sz))
        M = mask(64)
        if not dyn:
            if base[0] != 'l':
                return ['%s = %d' % (dst, (int(e) + off) & M)]
            if off == 0:
                return ['%s = %s' % (dst, e)]
            return ['%s = %s + %d if %s.__class__ is int else T_add(%s, %d, 64)' % (dst, e, off, e, e, off & M)] if off >= 0 else \
                   ['%s = (%s - %d) & %d if %s.__class__ is int else T_add(%s, %d, 64)' % (dst, e, -off, M, e, e, off & M)]
        out = []
        cur = e
        chk = ['%s.__class__ is int' % x for x in ([e] if base[0] == 'l' else []) + [d[0] for d in dyn]]
        if all(w == 64 for _, w, _ in dyn):
            fast = '(%s + %s + %d) & %d' % (e, ' + '.join('%s * %d' % (x, sz) for x, _, sz in dyn), off, M)
            slow = cur
            for x, _, sz in dyn:
                slow = 'T_add(%s, T_mul(%s, %d, 64), 64)' % (slow, x, sz)
            slow = 'T_add(%s, %d, 64)' % (slow, off & M)
            return ['%s = %s if %s else %s' % (dst, fast, ' and '.join(chk), slow)]
        slow = cur
        for x, w, sz in dyn:
            slow = 'T_add(%s, T_mul(T_sext(%s, %d, 64), %d, 64), 64)' % (slow, x, w, sz)
        return ['%s = T_add(%s, %d, 64)' % (dst, slow, off & M)]

    def i_atomicrmw(self, dst, p, b, dp):
        if p.peekword() == 'volatile': p.word()
        op = p.word()
        pt, a = self.tv(p); p.expect(',')
        t, v = self.tv(p)
        n = size_of(t)
        w = t[1] if t[0] == 'i' else 64
        A = self.const(pt, a); V = self.const(t, v)
        o = {'xchg': V, 'add': 'T_add(_o, %s, %d)' % (V, w), 'sub': 'T_sub(_o, %s, %d)' % (V, w), 'and': 'T_and_(_o, %s, %d)' % (V, w),
             'or': 'T_or_(_o, %s, %d)' % (V, w), 'xor': 'T_xor(_o, %s, %d)' % (V, w)}[op]
        return ['_o = ldi(%s, %d)' % (A, n), 'sti(%s, %d, %s)' % (A, n, o), '%s = _o' % (dst or '_o')]
    def i_cmpxchg(self, dst, p, b, dp):
        while p.peekword() in ('volatile', 'weak'): p.word()
        pt, a = self.tv(p); p.expect(',')
        t, c = self.tv(p); p.expect(',')
        t2, v = self.tv(p)
        n = size_of(t); w = t[1] if t[0] == 'i' else 64
        A = self.const(pt, a)
        return ['%s = cmpx(%s, %d, %s, %s, %d)' % (dst, A, n, self.const(t, c), self.const(t2, v), w)]
    def i_fence(self, dst, p, b, dp):
        return ['pass']
    def i_landingpad(self, dst, p, b, dp):
        return ['%s = (0, 0)' % dst]

    # ---- calls
    def i_invoke(self, dst, p, b, depth):
        out, fin = self.call(dst, p, b)
        if fin:
            return out
        s = p.s
        k = s.rindex('to label')
        m = _ident.match(s, s.index('%', k))
        return out + self.goto(b, unq(m), depth)

    def i_call(self, dst, p, b, depth):
        return self.call(dst, p, b)[0]

    CC = {'fastcc', 'coldcc', 'ccc', 'preserve_mostcc', 'tailcc', 'swiftcc', 'preserve_nonecc'} | set(FM)
    def call(self, dst, p, b):
        while True:
            skip_attrs(p)
            if p.peekword() in self.CC:
                p.word(); continue
            if p.peekword() == 'addrspace':
                raise GenError('addrspace')
            break
        rt = parse_type(p, self.m.named)
        p.ws()
        if p.s[p.i] == '(':        # full function type (varargs)
            d = 0
            while True:
                c = p.s[p.i]
                if c == '(': d += 1
                if c == ')':
                    d -= 1
                    if d == 0: break
                p.i += 1
            p.i += 1
        p.ws()
        if p.s.startswith('asm', p.i):
            return ['pass' if dst is None else '%s = 0' % dst], False
        callee = parse_value(p, ('p',), self.m.named)
        args = []
        p.expect('(')
        if not p.eat(')'):
            while True:
                t = parse_type(p, self.m.named)
                at = skip_attrs(p)
                if t[0] == 'm':
                    # metadata arg: skip to matching
                    d = 0
                    while True:
                        c = p.s[p.i]
                        if c in '([{': d += 1
                        if c in ')]}':
                            if d == 0: break
                            d -= 1
                        if c == ',' and d == 0: break
                        p.i += 1
                    args.append((t, None, at))
                else:
                    args.append((t, parse_value(p, t, self.m.named), at))
                if p.eat(')'):
                    break
                p.expect(',')
        if callee[0] == 'g':
            name = callee[1]
            name = self.R.resolve_alias(name)
            if name.startswith('llvm.'):
                r = self.intrinsic(name, dst, rt, args)
                return r, False
            ex = [self.const(t, v) for t, v, _ in args]
            spec = self.R.intercept(name)
            if spec is not None:
                e = '%s(%s)' % (spec, ', '.join(ex))
                return [('%s = ' % dst if dst else '') + e], False
            if PRINT.search(name) and dst is None:
                return ['pass'], False
            if PANIC.search(name) and '5Debug3fmt' not in name and '7Display3fmt' not in name and '11get_or_init' not in name:
                return ['S.panic(%r, (%s))' % (name, ''.join(x + ', ' for x in ex)), 'return'], True
            if name in self.m.funcs:
                e = '%s(%s)' % (self.R.fname(name), ', '.join(ex))
            else:
                e = 'S.external(%r, (%s))' % (name, ''.join(x + ', ' for x in ex))
        else:
            ex = [self.const(t, v) for t, v, _ in args]
            e = 'S.icall(%s, (%s))' % (self.const(('p',), callee), ''.join(x + ', ' for x in ex))
        return [('%s = ' % dst if dst else '') + e], False

    def intrinsic(self, name, dst, rt, args):
        n = name[5:]
        base = re.sub(r'(\.(p\d+|[ivf]\d+|v\d+[if]\d+|nxv\w+))+$', '', n)
        ex = [self.const(t, v) if v is not None else 'None' for t, v, _ in args]
        w = None
        for t, v, _ in args:
            if t[0] == 'i': w = t[1]; break
            if t[0] == 'v': w = t[2][1]; break
        D = '%s = ' % dst if dst else ''
        if base in ('lifetime.start', 'lifetime.end', 'experimental.noalias.scope.decl', 'assume', 'donothing', 'prefetch',
                    'dbg.value', 'dbg.declare', 'invariant.start', 'invariant.end', 'sideeffect', 'x86.sse2.pause'):
            return ['pass']
        if base in ('memcpy', 'memmove', 'memcpy.inline'):
            return ['mcpy(%s, %s, %s)' % tuple(ex[:3])]
        if base in ('memset', 'memset.inline'):
            return ['mset(%s, %s, %s)' % tuple(ex[:3])]
        vec = rt[0] == 'v'
        if base in ('umax', 'umin', 'smax', 'smin', 'uadd.sat', 'usub.sat', 'sadd.sat', 'ssub.sat'):
            f = 'X_' + base.replace('.', '_')
            if vec:
                return ['%stuple(%s(x, y, %d) for x, y in zip(%s, %s))' % (D, f, w, ex[0], ex[1])]
            return ['%s%s(%s, %s, %d)' % (D, f, ex[0], ex[1], w)]
        if base in ('scmp', 'ucmp'):
            return ['%sT_%s(%s, %s, %d, %d)' % (D, base, ex[0], ex[1], args[0][0][1] if args[0][0][0] == 'i' else 64, rt[1])]
        if base.endswith('.with.overflow'):
            return ['%sX_ovf(%r, %s, %s, %d)' % (D, base[:4], ex[0], ex[1], w)]
        if base == 'abs':
            if vec: return ['%stuple(T_iabs(x, %d) for x in %s)' % (D, w, ex[0])]
            return ['%sT_iabs(%s, %d)' % (D, ex[0], w)]
        if base in ('ctlz', 'cttz', 'ctpop'):
            return ['%sT_%s(%s, %d)' % (D, base, ex[0], w)]
        if base in ('bswap', 'bitreverse'):
            return ['%sX_%s(%s, %d)' % (D, base, ex[0], w)]
        if base in ('fshl', 'fshr'):
            return ['%sX_%s(%s, %s, %s, %d)' % (D, base, ex[0], ex[1], ex[2], w)]
        if base in ('is.constant',):
            return ['%s0' % D]
        if base in ('expect', 'threadlocal.address', 'launder.invariant.group', 'ssa.copy', 'expect.with.probability'):
            return ['%s%s' % (D, ex[0])]
        if base == 'ptrmask':
            return ['%sT_and_(%s, %s, 64)' % (D, ex[0], ex[1])]
        if base in ('trap', 'ubsantrap', 'debugtrap'):
            return ['S.panic("llvm.trap", ())']
        ft = None
        for t, v, _ in args:
            if t[0] == 'f': ft = t[1]; break
            if t[0] == 'v' and t[2][0] == 'f': ft = t[2][1]
        if ft == 32:
            return ['%sf32intr(%r, %s)' % (D, base, ', '.join(ex))]
        if base in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
            f = {'sqrt': 'T_fsqrt(%s)', 'fabs': 'T_fabs_(%s)', 'rint': 'T_fround("roundeven", %s)', 'nearbyint': 'T_fround("roundeven", %s)'}.get(base, 'T_fround("%s", %%s)' % base)
            if vec: return ['%stuple(%s for x in %s)' % (D, f % 'x', ex[0])]
            return [D + f % ex[0]]
        if base == 'copysign':
            return ['%sT_fcopysign(%s, %s)' % (D, ex[0], ex[1])]
        if base in ('minnum', 'maxnum', 'minimum', 'maximum', 'minimumnum', 'maximumnum'):
            return ['%sX_fminmax(%r, %s, %s)' % (D, base, ex[0], ex[1])]
        if base in ('fma', 'fmuladd'):
            return ['%sX_fma(%s, %s, %s)' % (D, ex[0], ex[1], ex[2])]
        if base in ('fptosi.sat', 'fptoui.sat'):
            return ['%sT_d2int(%s, %d, %r, True)' % (D, ex[0], rt[1], base[4] == 's' or base.startswith('fptosi'))]
        if base.startswith('vector.reduce.'):
            o = base[14:]
            return ['%sX_reduce(%r, %s, %d)' % (D, o, ex[0], w or 64)]
        if base in ('vector.extract',):
            return ['%s%s[%s:%s+%d]' % (D, ex[0], ex[1], ex[1], rt[1])]
        return ['%sS.external(%r, (%s))' % (D, name, ''.join(x + ', ' for x in ex))]

"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for this repository."""
import re, struct

TOK = re.compile(r'''
   [%@]"(?:[^"\\]|\\.)*" | [%@][-a-zA-Z$._0-9]+ | c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*" | "(?:[^"\\]|\\.)*"
 | ![a-zA-Z0-9._]* | \#\d+ | 0x[KLMHR]?[0-9A-Fa-f]+ | [-+]?\d+\.\d*(?:e[-+]?\d+)? | [-+]?\d+
 | \.\.\. | [a-zA-Z_][a-zA-Z0-9_.]* | [\[\](){}<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


# ---- types: ('i',n) ('f',32|64|80) ('ptr',) ('arr',n,t) ('st',packed,[t]) ('vec',n,t) ('void',) ('name',s)
class Toks:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.p = 0

    def peek(self, k=0):
        i = self.p + k
        return self.t[i] if i < len(self.t) else None

    def next(self):
        v = self.t[self.p] if self.p < len(self.t) else None
        self.p += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.p += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x != v:
            raise IRError("expected %r got %r near %r" % (v, x, " ".join(self.t[max(0, self.p - 8):self.p + 8])))

    def eof(self):
        return self.p >= len(self.t)


def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


def ptype(k):
    t = k.next()
    if t is None:
        raise IRError("type expected")
    if t == 'ptr':
        if k.peek() == 'addrspace':
            k.next(); k.expect('('); k.next(); k.expect(')')
        return ('ptr',)
    if t == 'void':
        return ('void',)
    if t == 'float':
        return ('f', 32)
    if t == 'double':
        return ('f', 64)
    if t == 'x86_fp80':
        return ('f', 80)
    if t == 'metadata':
        return ('meta',)
    if t == 'label':
        return ('label',)
    if re.fullmatch(r'i\d+', t):
        return ('i', int(t[1:]))
    if t == '[':
        n = int(k.next()); k.expect('x'); e = ptype(k); k.expect(']')
        return ('arr', n, e)
    if t == '<':
        if k.peek() == '{':
            k.next(); r = fields(k); k.expect('>')
            return ('st', True, r)
        n = int(k.next()); k.expect('x'); e = ptype(k); k.expect('>')
        return ('vec', n, e)
    if t == '{':
        return ('st', False, fields(k))
    if t[0] == '%':
        return ('name', unq(t))
    raise IRError("bad type token %r" % t)


def fields(k):
    r = []
    if k.accept('}'):
        return tuple(r)
    while True:
        r.append(ptype(k))
        if k.accept('}'):
            return tuple(r)
        k.expect(',')


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias',
               'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'noinline', 'dead_on_unwind', 'writable'}


def skip_attrs(k):
    while True:
        p = k.peek()
        if p in PARAM_ATTRS:
            k.next()
        elif p == 'align':
            k.next()
            if k.accept('('):
                k.next(); k.expect(')')
            else:
                k.next()
        elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'captures', 'range',
                   'nofpclass', 'memory', 'initializes'):
            k.next(); k.expect('(')
            d = 1
            while d:
                x = k.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
        else:
            return


def fpconst(tok, bits):
    if tok.startswith('0x'):
        if tok[2] == 'K':
            v = int(tok[3:], 16)
            sign = -1 if v >> 79 else 1
            e = (v >> 64) & 0x7fff
            m = v & ((1 << 64) - 1)
            if e == 0 and m == 0:
                return 0.0 * sign
            return sign * float(m) * 2.0 ** (e - 16383 - 63)
        return struct.unpack('<d', struct.pack('<Q', int(tok[2:], 16)))[0]
    return float(tok)


CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast',
         'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul',
       'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'disjoint', 'nneg',
         'inrange'}


def pvalue(k, ty):
    """operand of known type"""
    t = k.next()
    if t[0] == '%':
        return ('loc', unq(t))
    if t[0] == '@':
        return ('glob', unq(t))
    kind = ty[0]
    if t in ('undef', 'poison'):
        return ('undef', ty)
    if t == 'zeroinitializer':
        return ('zero', ty)
    if t == 'null':
        return ('null',)
    if t in ('true', 'false'):
        return ('ci', 1 if t == 'true' else 0, 1)
    if kind == 'i' and re.fullmatch(r'[-+]?\d+', t):
        return ('ci', int(t), ty[1])
    if kind == 'f' and (t[0].isdigit() or t[0] in '+-' or t.startswith('0x')):
        return ('cf', fpconst(t, ty[1]), ty[1])
    if t[0] == 'c' and len(t) > 1 and t[1] == '"':
        s = t[2:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    b.append(92); i += 2
                else:
                    b.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                b.append(ord(s[i])); i += 1
        return ('bytes', bytes(b))
    if t in ('[', '{', '<'):
        packed = False
        if t == '<' and k.peek() == '{':
            k.next(); packed = True; close = '}'
        else:
            close = {'[': ']', '{': '}', '<': '>'}[t]
        r = []
        if k.peek() != close:
            while True:
                et = ptype(k)
                r.append((et, pvalue(k, et)))
                if not k.accept(','):
                    break
        k.expect(close)
        if packed:
            k.expect('>')
        return ('agg', r)
    if t == 'getelementptr':
        while k.peek() in FLAGS:
            k.next()
        k.expect('(')
        bt = ptype(k); k.expect(',')
        pt = ptype(k); p = pvalue(k, pt)
        idx = []
        while k.accept(','):
            while k.peek() in FLAGS:
                k.next()
            it = ptype(k); idx.append((it, pvalue(k, it)))
        k.expect(')')
        return ('cgep', bt, p, idx)
    if t in CASTS:
        k.expect('(')
        ft = ptype(k); v = pvalue(k, ft); k.expect('to'); tt = ptype(k); k.expect(')')
        return ('ccast', t, ft, v, tt)
    raise IRError("bad value %r of type %r" % (t, ty))


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'src')


class Instr:
    __slots__ = ('op', 'res', 'a')

    def __init__(self, op, res, a):
        self.op, self.res, self.a = op, res, a


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}   # name -> (ty, init|None, const)
        self.funcs = {}
        self.decls = {}
        self._sz = {}
        self._parse(open(path).read().split('\n'))

    def _parse(self, lines):
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] == '%':
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
                if m:
                    if m.group(2).strip() == 'opaque':
                        self.types[unq(m.group(1))] = ('st', False, ())
                    else:
                        self.types[unq(m.group(1))] = ptype(Toks(m.group(2)))
                continue
            if ln[0] == '@':
                self._global(ln)
                continue
            if ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                self.decls['@' + m.group(1).strip('"')] = ln
                continue
            if ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._func(ln, body)

    def _global(self, ln):
        m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
        name = unq(m.group(1))
        rest = m.group(2)
        k = Toks(rest)
        const = False
        while True:
            p = k.peek()
            if p in ('global', 'constant'):
                const = k.next() == 'constant'
                break
            if p in ('alias',):
                return
            if p == 'thread_local' and k.peek(1) == '(':
                k.next(); k.next(); k.next(); k.next()
                continue
            if p is None:
                return
            k.next()
        if ' external ' in ' ' + rest.split('global')[0].split('constant')[0] + ' ':
            self.globals[name] = (ptype(k), None, const)
            return
        ty = ptype(k)
        if k.eof():
            self.globals[name] = (ty, None, const)
            return
        self.globals[name] = (ty, pvalue(k, ty), const)

    def _func(self, head, body):
        f = Func()
        head = head.split(' personality ')[0]
        k = Toks(head)
        k.expect('define')
        LINK = {'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'hidden', 'protected', 'available_externally',
                'fastcc', 'linkonce', 'local_unnamed_addr', 'unnamed_addr'}
        while k.peek() in LINK:
            k.next()
        skip_attrs(k)
        f.ret = ptype(k)
        f.name = unq(k.next())
        k.expect('(')
        f.params = []
        if not k.accept(')'):
            while True:
                if k.accept('...'):
                    pass
                else:
                    t = ptype(k)
                    skip_attrs(k)
                    nm = None
                    if k.peek() and k.peek()[0] == '%':
                        nm = unq(k.next())
                    else:
                        nm = '%' + str(len(f.params))
                    f.params.append((t, nm))
                if k.accept(')'):
                    break
                k.expect(',')
        f.blocks = {}
        f.entry = None
        cur = None
        # implicit entry label
        j = 0
        while j < len(body):
            ln = body[j]
            j += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' '):
                m = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                cur = '%' + m.group(1).strip('"')
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = '%' + str(len(f.params))
                f.blocks[cur] = []
                f.entry = cur
            if s.startswith('switch') and s.endswith('['):
                while body[j].strip() != ']' and not body[j].strip().startswith(']'):
                    s += ' ' + body[j].strip()
                    j += 1
                s += ' ]'
                j += 1
            f.blocks[cur].append(self._instr(s))
        self.funcs[f.name] = f

    def _instr(self, s):
        k = Toks(s)
        res = None
        if k.peek()[0] == '%' and k.peek(1) == '=':
            res = unq(k.next()); k.next()
        op = k.next()
        if op in ('tail', 'musttail', 'notail'):
            op = k.next()
        if op in BIN:
            fl = set()
            while k.peek() in FLAGS:
                fl.add(k.next())
            t = ptype(k); a = pvalue(k, t); k.expect(','); b = pvalue(k, t)
            return Instr('bin', res, (op, t, a, b, frozenset(fl)))
        if op == 'fneg':
            while k.peek() in FLAGS:
                k.next()
            t = ptype(k); a = pvalue(k, t)
            return Instr('fneg', res, (t, a))
        if op in ('icmp', 'fcmp'):
            while k.peek() in FLAGS:
                k.next()
            pr = k.next()
            t = ptype(k); a = pvalue(k, t); k.expect(','); b = pvalue(k, t)
            return Instr(op, res, (pr, t, a, b))
        if op in CASTS:
            while k.peek() in FLAGS:
                k.next()
            ft = ptype(k); v = pvalue(k, ft); k.expect('to'); tt = ptype(k)
            return Instr('cast', res, (op, ft, v, tt))
        if op == 'alloca':
            t = ptype(k)
            cnt = None
            if k.accept(',') and k.peek() != 'align':
                ct = ptype(k); cnt = (ct, pvalue(k, ct))
            return Instr('alloca', res, (t, cnt))
        if op == 'load':
            while k.peek() in ('atomic', 'volatile'):
                k.next()
            t = ptype(k); k.expect(','); pt = ptype(k); p = pvalue(k, pt)
            return Instr('load', res, (t, p))
        if op == 'store':
            while k.peek() in ('atomic', 'volatile'):
                k.next()
            t = ptype(k); v = pvalue(k, t); k.expect(','); pt = ptype(k); p = pvalue(k, pt)
            return Instr('store', None, (t, v, p))
        if op == 'getelementptr':
            while k.peek() in FLAGS:
                k.next()
            bt = ptype(k); k.expect(','); pt = ptype(k); p = pvalue(k, pt)
            idx = []
            while k.accept(','):
                if k.peek() and k.peek()[0] == '!':
                    break
                it = ptype(k); idx.append((it, pvalue(k, it)))
            return Instr('gep', res, (bt, p, idx))
        if op == 'br':
            if k.peek() == 'label':
                k.next()
                return Instr('br', None, (unq(k.next()),))
            t = ptype(k); c = pvalue(k, t); k.expect(','); k.expect('label'); a = unq(k.next()); k.expect(','); k.expect('label')
            b = unq(k.next())
            return Instr('cbr', None, (c, a, b))
        if op == 'switch':
            t = ptype(k); v = pvalue(k, t); k.expect(','); k.expect('label'); d = unq(k.next()); k.expect('[')
            cs = []
            while not k.accept(']'):
                ct = ptype(k); cv = pvalue(k, ct); k.expect(','); k.expect('label'); cs.append((cv[1], unq(k.next())))
            return Instr('switch', None, (t, v, d, cs))
        if op == 'ret':
            t = ptype(k)
            if t[0] == 'void':
                return Instr('ret', None, (None, None))
            return Instr('ret', None, (t, pvalue(k, t)))
        if op == 'phi':
            while k.peek() in FLAGS:
                k.next()
            t = ptype(k)
            inc = {}
            while True:
                k.expect('['); v = pvalue(k, t); k.expect(','); b = unq(k.next()); k.expect(']')
                inc[b] = v
                if not k.accept(','):
                    break
                if k.peek() and k.peek()[0] == '!':
                    break
            return Instr('phi', res, (t, inc))
        if op == 'select':
            while k.peek() in FLAGS:
                k.next()
            ct = ptype(k); c = pvalue(k, ct); k.expect(','); t = ptype(k); a = pvalue(k, t); k.expect(','); t2 = ptype(k)
            b = pvalue(k, t2)
            return Instr('select', res, (c, t, a, b))
        if op == 'call':
            while k.peek() in FLAGS or k.peek() in ('fastcc',):
                k.next()
            skip_attrs(k)
            rt = ptype(k)
            if k.peek() == '(':   # function type for varargs
                d = 0
                while True:
                    x = k.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            callee = pvalue(k, ('ptr',))
            k.expect('(')
            args = []
            if not k.accept(')'):
                while True:
                    t = ptype(k)
                    if t[0] == 'meta':
                        args.append((t, None))
                        d = 0
                        while not (d == 0 and k.peek() in (',', ')')):
                            x = k.next()
                            if x in '([{':
                                d += 1
                            elif x in ')]}':
                                d -= 1
                    else:
                        skip_attrs(k)
                        args.append((t, pvalue(k, t)))
                    if k.accept(')'):
                        break
                    k.expect(',')
            return Instr('call', res, (rt, callee, args))
        if op == 'unreachable':
            return Instr('unreachable', None, ())
        if op == 'freeze':
            t = ptype(k)
            return Instr('copy', res, (t, pvalue(k, t)))
        if op == 'extractelement':
            t = ptype(k); v = pvalue(k, t); k.expect(','); it = ptype(k); i = pvalue(k, it)
            return Instr('extractel', res, (t, v, i))
        if op == 'insertelement':
            t = ptype(k); v = pvalue(k, t); k.expect(','); et = ptype(k); e = pvalue(k, et); k.expect(','); it = ptype(k)
            i = pvalue(k, it)
            return Instr('insertel', res, (t, v, e, i))
        if op == 'extractvalue':
            t = ptype(k); v = pvalue(k, t); k.expect(',')
            ix = [int(k.next())]
            while k.accept(','):
                ix.append(int(k.next()))
            return Instr('extractvalue', res, (t, v, ix))
        if op == 'insertvalue':
            t = ptype(k); v = pvalue(k, t); k.expect(','); et = ptype(k); e = pvalue(k, et); k.expect(',')
            ix = [int(k.next())]
            while k.accept(','):
                ix.append(int(k.next()))
            return Instr('insertvalue', res, (t, v, et, e, ix))
        return Instr('unsupported', res, (s,))

    # ---- layout
    def resolve(self, t):
        while t[0] == 'name':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._size_align(t)
            self._sz[t] = r
        return r

    def _size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'f':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == 'ptr':
            return (8, 8)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2])
            return (s * t[1], s * t[1])
        if k == 'st':
            off = 0
            al = 1
            for f in t[2]:
                s, a = self.size_align(f)
                if not t[1]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            off = (off + al - 1) // al * al
            return (off, al)
        raise IRError("sizeof %r" % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[2]):
            s, a = self.size_align(f)
            if not t[1]:
                off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IRError("field")

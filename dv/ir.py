"""Parser for textual LLVM IR (clang 18, opaque pointers)."""
import re, subprocess


class Type:
    pass


def _tok(s):
    return s


class Fn:
    def __init__(self):
        self.blocks = {}
        self.order = []


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'x', 'dbg', 'text')

    def __init__(self, op, dst, ty, x, dbg, text):
        self.op, self.dst, self.ty, self.x, self.dbg, self.text = op, dst, ty, x, dbg, text


class P:
    """cursor over a string"""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        s, i = self.s, self.i
        while i < len(s) and s[i] in ' \t':
            i += 1
        self.i = i

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def word(self, t):
        self.ws()
        m = re.compile(re.escape(t) + r'(?![\w.$])').match(self.s, self.i)
        if m:
            self.i = m.end()
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise SyntaxError('expected %r at %r' % (t, self.s[self.i:self.i + 60]))

    def re(self, rx):
        self.ws()
        m = rx.match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group(0)
        return None

    def rest(self):
        return self.s[self.i:]


RX_NAME = re.compile(r'[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+)')
RX_INT = re.compile(r'-?\d+')
RX_FP = re.compile(r'0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+(?:e[-+]?\d+)?')
RX_WORD = re.compile(r'[a-zA-Z_][\w.]*')


class Module:
    def __init__(self, text):
        self.types = {}
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self.parse(text)

    # ---------------- types
    def ptype(self, p):
        p.ws()
        s = p.s
        c = s[p.i]
        if c == '%':
            n = p.re(RX_NAME)
            t = ('named', n)
        elif c == '[':
            p.i += 1
            n = int(p.re(RX_INT))
            p.need('x')
            e = self.ptype(p)
            p.need(']')
            t = ('arr', n, e)
        elif c == '<':
            p.i += 1
            if p.eat('{'):
                fs = []
                if not p.eat('}'):
                    while True:
                        fs.append(self.ptype(p))
                        if p.eat('}'):
                            break
                        p.need(',')
                p.need('>')
                t = ('struct', tuple(fs), True)
            else:
                n = int(p.re(RX_INT))
                p.need('x')
                e = self.ptype(p)
                p.need('>')
                t = ('vec', n, e)
        elif c == '{':
            p.i += 1
            fs = []
            if not p.eat('}'):
                while True:
                    fs.append(self.ptype(p))
                    if p.eat('}'):
                        break
                    p.need(',')
            t = ('struct', tuple(fs), False)
        else:
            w = p.re(RX_WORD)
            if w is None:
                raise SyntaxError('type at %r' % p.s[p.i:p.i + 60])
            if w == 'ptr':
                if p.word('addrspace'):
                    p.need('(')
                    p.re(RX_INT)
                    p.need(')')
                t = ('ptr',)
            elif w[0] == 'i' and w[1:].isdigit():
                t = ('i', int(w[1:]))
            elif w in ('double', 'float', 'void', 'label', 'metadata', 'x86_fp80', 'opaque', 'half', 'token'):
                t = (w,)
            else:
                raise SyntaxError('type word ' + w)
        # function type:  ret (args)
        p.ws()
        return t

    def res(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            q = 1
            while q < n:
                q *= 2
            return q
        if k == 'double' or k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            if not t[1]:
                return 0
            off = 0
            al = 1
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(f)
            return (off + al - 1) // al * al
        raise ValueError('size of %r' % (t,))

    def align(self, t):
        t = self.res(t)
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'struct':
            if t[2] or not t[1]:
                return 1
            return max(self.align(f) for f in t[1])
        if t[0] == 'x86_fp80':
            return 16
        return self.size(t)

    def field_off(self, t, i):
        t = self.res(t)
        off = 0
        for j, f in enumerate(t[1]):
            a = 1 if t[2] else self.align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += self.size(f)
        raise IndexError

    # ---------------- operands
    def operand(self, p, ty):
        p.ws()
        s = p.s
        c = s[p.i]
        if c in '%@':
            n = p.re(RX_NAME)
            return ('loc', n) if c == '%' else ('glob', n)
        fp = p.re(RX_FP)
        if fp is not None:
            if fp.startswith('0x'):
                import struct
                if ty[0] in ('double', 'float'):
                    v = struct.unpack('>d', bytes.fromhex(fp[2:].zfill(16)))[0]
                else:
                    v = float('nan')
                return ('fp', v)
            return ('fp', float(fp))
        n = p.re(RX_INT)
        if n is not None:
            return ('int', int(n))
        if c == '{' or c == '<' or c == '[':
            # aggregate constant
            close = {'{': '}', '<': '>', '[': ']'}[c]
            p.i += 1
            if c == '<' and p.eat('{'):
                close = '}>'
            els = []
            if not p.eat(close):
                while True:
                    t = self.ptype(p)
                    els.append((t, self.operand(p, t)))
                    if p.eat(close):
                        break
                    p.need(',')
            return ('agg', els)
        if c == 'c' and s.startswith('c"', p.i):
            j = p.i + 2
            while s[j] != '"':
                j += 1
            raw = s[p.i + 2:j]
            p.i = j + 1
            return ('str', raw)
        w = p.re(RX_WORD)
        if w in ('true', 'false'):
            return ('int', 1 if w == 'true' else 0)
        if w in ('null', 'none'):
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'getelementptr':
            p.word('inbounds')
            if p.eat('inrange'):
                pass
            p.need('(')
            t = self.ptype(p)
            ops = []
            while p.eat(','):
                p.word('inrange')
                ot = self.ptype(p)
                ops.append((ot, self.operand(p, ot)))
            p.need(')')
            return ('cgep', t, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'zext', 'sext'):
            p.need('(')
            t = self.ptype(p)
            v = self.operand(p, t)
            p.need('to')
            t2 = self.ptype(p)
            p.need(')')
            return ('ccast', w, t, v, t2)
        if w in ('sub', 'add', 'mul'):
            while p.re(RX_WORD):
                pass
            p.need('(')
            t = self.ptype(p)
            a = self.operand(p, t)
            p.need(',')
            t2 = self.ptype(p)
            b = self.operand(p, t2)
            p.need(')')
            return ('cbin', w, a, b)
        if w == 'blockaddress':
            raise SyntaxError('blockaddress')
        raise SyntaxError('operand %r in %r' % (w, s[:200]))

    ATTR = re.compile(r'(?:noundef|nonnull|signext|zeroext|inreg|returned|nocapture|readonly|readnone|writeonly|noalias|immarg|dead_on_unwind|writable|nofree|nest|swiftself|allocptr|allocalign|noreturn|nounwind'
                      r'|align \d+|dereferenceable(?:_or_null)?\(\d+\)|(?:sret|byval|byref|elementtype|preallocated|inalloca)\((?:[^()]|\([^()]*\))*\)|initializes\([^)]*\)|range\([^)]*\)|nofpclass\([^)]*\)|captures\([^)]*\))(?=[\s,)])')

    def attrs(self, p):
        out = []
        while True:
            m = p.re(self.ATTR)
            if m is None:
                return out
            out.append(m)

    # ---------------- module
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        pend = []
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] == ';':
                continue
            if l[0] == '%' and ' = type ' in l:
                name, t = l.split(' = type ', 1)
                p = P(t)
                if t.startswith('opaque'):
                    self.types[name] = ('struct', (), False)
                else:
                    self.types[name] = self.ptype(p)
            elif l[0] == '@':
                self.pglobal(l)
            elif l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                pend.append((l, body))
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
                if m:
                    self.decls[m.group(1).strip('"')] = l
            elif l[0] == '!':
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
        self.pend = {}
        for l, body in pend:
            m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
            self.pend[m.group(1).strip('"')] = (l, body)

    def get(self, name):
        f = self.fns.get(name)
        if f is None and name in self.pend:
            l, body = self.pend[name]
            f = self.pfn(name, l, body)
            self.fns[name] = f
        return f

    def pglobal(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l)
        if not m:
            return
        name, r = m.group(1), m.group(2)
        p = P(r)
        const = False
        ext = False
        while True:
            w = None
            save = p.i
            if p.peek('{') or p.peek('[') or p.peek('%') or p.peek('<'):
                break
            w = p.re(RX_WORD)
            if w is None:
                return
            if w in ('constant', 'global'):
                const = (w == 'constant')
                break
            if w in ('external', 'extern_weak', 'available_externally'):
                ext = True
            if w in ('thread_local', 'addrspace', 'comdat') and p.peek('('):
                p.i = p.s.index(')', p.i) + 1
            if w == 'alias' or w == 'ifunc':
                mm = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\s*$', r.split(' comdat')[0].split(', !')[0])
                if mm:
                    self.globals[name] = ('alias', mm.group(1))
                return
        try:
            t = self.ptype(p)
            init = None
            if not ext:
                init = self.operand(p, t)
            self.globals[name] = ('var', t, init, const)
        except SyntaxError:
            self.globals[name] = ('var', ('ptr',), None, const)

    def pfn(self, name, head, body):
        f = Fn()
        f.name = name
        m = re.search(r'@(?:"(?:[^"])*"|[-\w.$]+)\(', head)
        p = P(head[m.end():])
        # return type: text before name
        pre = head[:m.start()]
        pp = P(pre.split('define', 1)[1])
        f.ret = None
        while True:
            pp.ws()
            if pp.i >= len(pp.s):
                break
            save = pp.i
            if self.attrs(pp):
                continue
            try:
                f.ret = self.ptype(pp)
                break
            except SyntaxError:
                pp.i = save
                if not pp.re(RX_WORD):
                    break
                if pp.peek('('):
                    pp.i = pp.s.index(')', pp.i) + 1
        f.params = []
        cnt = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.need(')')
                    break
                t = self.ptype(p)
                at = self.attrs(p)
                nm = p.re(RX_NAME)
                if nm is None:
                    nm = '%%%d' % cnt
                cnt += 1
                f.params.append((t, nm, at))
                if p.eat(')'):
                    break
                p.need(',')
        dbg = re.search(r'!dbg !(\d+)', head)
        f.dbg = int(dbg.group(1)) if dbg else None
        cur = None
        first = True
        # join multi-line (switch / landingpad)
        joined = []
        for l in body:
            if l.startswith('    ') or l.startswith('  ]'):
                joined[-1] += ' ' + l.strip()
            else:
                joined.append(l)
        for l in joined:
            if not l.strip():
                continue
            if not l.startswith(' '):
                m = re.match(r'((?:"[^"]*"|[-\w.$]+)):', l)
                if m:
                    cur = '%' + m.group(1)
                    f.blocks[cur] = []
                    f.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(len(f.params) if all(re.match(r'%\d+$', q[1]) for q in f.params) else 'entry')
                f.blocks[cur] = []
                f.order.append(cur)
            l = l.strip()
            if l.startswith(';') or l.startswith('#dbg'):
                continue
            ins = self.pinst(l)
            if ins is not None:
                f.blocks[cur].append(ins)
        f.entry = f.order[0]
        return f

    def targ(self, p):
        t = self.ptype(p)
        self.attrs(p)
        return t, self.operand(p, t)

    def label(self, p):
        p.need('label')
        return p.re(RX_NAME)

    FLAGS = {'nuw', 'nsw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg', 'inbounds', 'volatile', 'atomic', 'tail', 'musttail', 'notail', 'inrange'}

    def flags(self, p):
        fl = set()
        while True:
            save = p.i
            w = p.re(RX_WORD)
            if w in self.FLAGS:
                fl.add(w)
            else:
                p.i = save
                return fl

    def pinst(self, l):
        dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            dbg = int(m.group(1))
        text = l
        # strip metadata attachments
        l = re.sub(r', ![a-zA-Z.]\w*(?:\.\w+)* !\d+', '', l)
        l = re.sub(r', ![a-zA-Z.]\w*(?:\.\w+)* !\{[^}]*\}', '', l)
        dst = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', l)
        if m:
            dst = m.group(1)
            l = l[m.end():]
        p = P(l)
        fl = self.flags(p)
        op = p.re(RX_WORD)
        mk = lambda ty, x: Inst(op, dst, ty, x, dbg, text)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            f2 = self.flags(p)
            t = self.ptype(p)
            a = self.operand(p, t)
            p.need(',')
            b = self.operand(p, t)
            return mk(t, (a, b, f2))
        if op == 'fneg' or op == 'freeze':
            self.flags(p)
            t = self.ptype(p)
            return mk(t, (self.operand(p, t),))
        if op in ('icmp', 'fcmp'):
            self.flags(p)
            pred = p.re(RX_WORD)
            t = self.ptype(p)
            a = self.operand(p, t)
            p.need(',')
            b = self.operand(p, t)
            return mk(t, (pred, a, b))
        if op == 'br':
            if p.peek('label'):
                return mk(None, (self.label(p),))
            t = self.ptype(p)
            c = self.operand(p, t)
            p.need(',')
            a = self.label(p)
            p.need(',')
            return mk(None, (c, a, self.label(p)))
        if op == 'switch':
            t = self.ptype(p)
            v = self.operand(p, t)
            p.need(',')
            d = self.label(p)
            p.need('[')
            cs = []
            while not p.eat(']'):
                ct = self.ptype(p)
                cv = self.operand(p, ct)
                p.need(',')
                cs.append((cv, self.label(p)))
            return mk(t, (v, d, cs))
        if op == 'ret':
            t = self.ptype(p)
            if t == ('void',):
                return mk(t, ())
            return mk(t, (self.operand(p, t),))
        if op == 'phi':
            self.flags(p)
            t = self.ptype(p)
            inc = []
            while True:
                p.need('[')
                v = self.operand(p, t)
                p.need(',')
                b = p.re(RX_NAME)
                p.need(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
            return mk(t, inc)
        if op == 'load':
            self.flags(p)
            t = self.ptype(p)
            p.need(',')
            pt = self.ptype(p)
            return mk(t, (self.operand(p, pt),))
        if op == 'store':
            self.flags(p)
            t = self.ptype(p)
            v = self.operand(p, t)
            p.need(',')
            pt = self.ptype(p)
            return mk(t, (v, self.operand(p, pt)))
        if op == 'alloca':
            p.word('inalloca')
            t = self.ptype(p)
            cnt = None
            if p.eat(','):
                if not p.peek('align'):
                    ct = self.ptype(p)
                    cnt = self.operand(p, ct)
            return mk(t, (cnt,))
        if op == 'getelementptr':
            self.flags(p)
            t = self.ptype(p)
            ops = []
            while p.eat(','):
                ops.append(self.targ(p))
            return mk(t, ops)
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            self.flags(p)
            t = self.ptype(p)
            v = self.operand(p, t)
            p.need('to')
            t2 = self.ptype(p)
            return mk(t2, (t, v))
        if op == 'select':
            self.flags(p)
            t, c = self.targ(p)
            p.need(',')
            t, a = self.targ(p)
            p.need(',')
            t2, b = self.targ(p)
            return mk(t, (c, a, b))
        if op in ('call', 'invoke'):
            self.flags(p)
            # calling convention / ret attrs
            while True:
                self.attrs(p)
                save = p.i
                w = p.re(RX_WORD)
                if w in ('fastcc', 'ccc', 'coldcc', 'spir_func', 'spir_kernel'):
                    continue
                p.i = save
                break
            rt = self.ptype(p)
            if p.peek('('):
                # explicit function type
                d = 0
                j = p.i
                p.ws()
                j = p.i
                while True:
                    if p.s[j] == '(':
                        d += 1
                    elif p.s[j] == ')':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                p.i = j + 1
            if p.word('asm'):
                return mk(rt, (('asm',), [], None))
            callee = self.operand(p, ('ptr',))
            p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = self.ptype(p)
                    if t == ('metadata',):
                        # debug intrinsics: ignore
                        return None
                    at = self.attrs(p)
                    args.append((t, self.operand(p, t), at))
                    if p.eat(')'):
                        break
                    p.need(',')
            tgt = None
            if op == 'invoke':
                m = re.search(r'to label (%(?:"[^"]*"|[-\w.$]+)) unwind label (%(?:"[^"]*"|[-\w.$]+))', p.rest())
                tgt = (m.group(1), m.group(2))
            return mk(rt, (callee, args, tgt))
        if op == 'extractvalue':
            t = self.ptype(p)
            v = self.operand(p, t)
            idx = []
            while p.eat(','):
                idx.append(int(p.re(RX_INT)))
            return mk(t, (v, idx))
        if op == 'insertvalue':
            t = self.ptype(p)
            v = self.operand(p, t)
            p.need(',')
            t2 = self.ptype(p)
            w = self.operand(p, t2)
            idx = []
            while p.eat(','):
                idx.append(int(p.re(RX_INT)))
            return mk(t, (v, w, idx, t2))
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            if op == 'extractelement':
                t, v = self.targ(p)
                p.need(',')
                t2, i = self.targ(p)
                return mk(t, (v, i))
            if op == 'insertelement':
                t, v = self.targ(p)
                p.need(',')
                t2, e = self.targ(p)
                p.need(',')
                t3, i = self.targ(p)
                return mk(t, (v, e, i))
            return mk(None, (l,))
        if op in ('unreachable', 'resume', 'landingpad', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'cleanupret', 'catchret'):
            return mk(None, (l,))
        raise SyntaxError('inst ' + l)

    # ---------------- debug
    def loc(self, dbg):
        if dbg is None:
            return '?'
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        line = m.group(1) if m else '?'
        f = self._file(s, 0)
        return '%s:%s' % (f, line)

    def _file(self, s, d):
        if d > 20:
            return '?'
        m = re.search(r'file: !(\d+)', s)
        if m:
            t = self.md.get(int(m.group(1)), '')
            q = re.search(r'filename: "([^"]*)"', t)
            return q.group(1).split('/')[-1] if q else '?'
        m = re.search(r'scope: !(\d+)', s)
        if m:
            return self._file(self.md.get(int(m.group(1)), ''), d + 1)
        return '?'


# ---------------------------------------------------------------- CFG
def succs(b):
    t = b[-1]
    if t.op == 'br':
        return [x for x in t.x if isinstance(x, str)]
    if t.op == 'switch':
        r = [t.x[1]]
        for _, l in t.x[2]:
            if l not in r:
                r.append(l)
        return r
    if t.op == 'invoke':
        return [t.x[2][0]]
    return []


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.children = []
        self.parent = None


def analyse(f):
    """RPO, loop forest (reducible).  Cached on f."""
    if hasattr(f, 'rpo'):
        return f
    for b in f.order:
        # cut block at invoke handled as terminator already
        pass
    seen = set()
    post = []
    st = [(f.entry, iter(succs(f.blocks[f.entry])))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]):
            preds[s].append(b)
    # dominators
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise SyntaxError('irreducible loop in ' + f.name)
                L = loops.setdefault(s, Loop(s))
                L.blocks.add(s)
                w = [b]
                while w:
                    x = w.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        w.extend(preds[x])
    ls = sorted(loops.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(ls):
        for M in ls[i + 1:]:
            if L.header in M.blocks:
                L.parent = M
                M.children.append(L)
                break
    f.rpo, f.idx, f.preds, f.loops = rpo, idx, preds, loops
    return f


FLAGS_BASE = ['-O0', '-Xclang', '-disable-O0-optnone', '-g1', '-ffp-contract=off', '-fno-math-errno',
              '-S', '-emit-llvm', '-w']
PASSES = 'function(sroa,early-cse,jump-threading,simplifycfg,loop-simplify,loop-rotate<no-header-duplication>,lcssa,adce)'
PASSES = 'function(loop-simplify,sroa,early-cse,jump-threading,simplifycfg,loop-simplify,lcssa,adce)'


def compile_ir(src, flags, out, passes=PASSES, std='-std=c++17', cc='clang++-18'):
    r = subprocess.run([cc] + ([std] if std else []) + FLAGS_BASE + flags + [src, '-o', out + '.0.ll'],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('clang failed on %s:\n%s' % (src, r.stderr[-4000:]))
    r = subprocess.run(['opt', '-S', '-passes=' + passes, out + '.0.ll', '-o', out], capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('opt failed on %s:\n%s' % (src, r.stderr[-4000:]))
    return Module(open(out).read())

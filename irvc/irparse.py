"""Lazy parser for textual LLVM IR (the subset rustc emits).

A Module indexes the file once (function bodies and globals are kept as text)
and parses a body only when the executor first reaches it.
"""
import re, struct

TOK = re.compile(r'''
   (?P<cstr>c"[^"]*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<hexf>f?0x[KHLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<inf>[+-](?:inf|nan|qnan|snan)\b)
 | (?P<word>[a-zA-Z_.$][-a-zA-Z0-9_.$]*)
 | (?P<str>"[^"]*")
 | (?P<p><\{|\}>|\.\.\.|[\[\]{}()<>,=*|:])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n\r':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token at %r' % s[i:i + 40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


# ---- types -------------------------------------------------------------
# ('i',n) ('f',32|64|...) ('ptr',) ('void',) ('arr',n,t) ('st',packed,(t..)) ('vec',n,t)
PTR = ('ptr',)
VOID = ('void',)
F64 = ('f', 64)
F32 = ('f', 32)
_size_cache = {}


def align_of(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        return a
    if k == 'f':
        return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == 'ptr':
        return 8
    if k == 'arr':
        return align_of(t[2])
    if k == 'vec':
        s = size_of(t)
        a = 1
        while a < s:
            a *= 2
        return a
    if k == 'st':
        if t[1]:
            return 1
        return max([align_of(x) for x in t[2]] or [1])
    raise ParseError('align ' + repr(t))


def store_size(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8
    return size_of(t)


def size_of(t):
    r = _size_cache.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = align_of(t)
        r = (n + a - 1) // a * a
    elif k == 'f':
        r = t[1] // 8 if t[1] != 80 else 16
    elif k == 'ptr':
        r = 8
    elif k == 'arr':
        r = t[1] * size_of(t[2])
    elif k == 'vec':
        if t[2] == ('i', 1):
            r = (t[1] + 7) // 8
        else:
            r = t[1] * size_of(t[2])
    elif k == 'st':
        off = 0
        for x in t[2]:
            if not t[1]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            off += size_of(x)
        a = align_of(t)
        r = (off + a - 1) // a * a
    else:
        raise ParseError('size ' + repr(t))
    _size_cache[t] = r
    return r


_fo_cache = {}


def field_offsets(t):
    r = _fo_cache.get(t)
    if r is None:
        off = 0
        r = []
        for x in t[2]:
            if not t[1]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            r.append(off)
            off += size_of(x)
        _fo_cache[t] = r
    return r


def unquote(name):
    # '@"foo\01"' -> '@foo'
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


PARAM_ATTRS = set('''zeroext signext inreg noalias nocapture nonnull noundef nofree nest returned
 readnone readonly writeonly immarg swiftself swifterror swiftasync allocptr allocalign noext
 writable dead_on_unwind dead_on_return noinline captures'''.split())
PAREN_ATTRS = set('''sret byval byref inalloca preallocated dereferenceable dereferenceable_or_null
 align initializes range nofpclass captures elementtype memory alignstack dead_on_return'''.split())

FLAGS = set('''nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc inbounds nusw disjoint
 samesign nneg volatile atomic inrange'''.split())


class TS:
    """token stream"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        g = self.next()
        if g != s:
            raise ParseError('expected %r got %r in %r' % (s, g, ' '.join(x[1] for x in self.t[max(0,self.i-8):self.i + 8])))

    def at_type(self):
        p = self.peek()
        if p is None:
            return False
        if p in ('ptr', 'void', 'double', 'float', 'half', 'fp128', 'x86_fp80', 'bfloat', 'label',
                 'metadata', 'token', 'opaque', '[', '{', '<', '<{'):
            return True
        if re.match(r'^i[0-9]+$', p):
            return True
        return False

    def type(self):
        p = self.next()
        if p == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            t = PTR
        elif p == 'void':
            t = VOID
        elif p == 'double':
            t = F64
        elif p == 'float':
            t = F32
        elif p in ('half', 'bfloat'):
            t = ('f', 16)
        elif p == 'fp128':
            t = ('f', 128)
        elif p == 'x86_fp80':
            t = ('f', 80)
        elif p in ('label', 'metadata', 'token'):
            t = (p,)
        elif p == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif p == '{' or p == '<{':
            close = '}' if p == '{' else '}>'
            fs = []
            if self.peek() != close:
                fs.append(self.type())
                while self.accept(','):
                    fs.append(self.type())
            self.expect(close)
            t = ('st', p == '<{', tuple(fs))
        elif p == '<':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            t = ('vec', n, e)
        elif p[0] == '%':
            t = self.mod.named_type(p)
        else:
            m = re.match(r'^i([0-9]+)$', p)
            if not m:
                raise ParseError('type? %r near %r' % (p, ' '.join(x[1] for x in self.t[max(0,self.i-8):self.i + 8])))
            t = ('i', int(m.group(1)))
        # function type suffix
        if self.peek() == '(' and t is not None and self._functype_ahead():
            self.skip_paren()
            return ('fn', t)
        return t

    def _functype_ahead(self):
        # only used in call instructions: "call void (i64, ...) @f(...)"
        j = self.i
        d = 0
        while j < len(self.t):
            s = self.t[j][1]
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in ('glob', 'loc')

    def skip_paren(self):
        d = 0
        while True:
            s = self.next()
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1
                if d == 0:
                    return

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p is None:
                return
            if p in PAREN_ATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                elif self.kind() == 'num':
                    self.next()
                continue
            if p in PARAM_ATTRS or p in ('range', 'nofpclass'):
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                continue
            if self.kind() in ('attr', 'str'):
                self.next()
                if self.accept('='):
                    self.next()
                continue
            return

    # operand (given type) -> ('c',...) constants or ('l',name) locals or ('g',name)
    def value(self, ty):
        k = self.kind()
        p = self.next()
        if k == 'loc':
            return ('l', unquote(p))
        if k == 'glob':
            return ('g', self.mod.gname(unquote(p)[1:]))
        if k == 'num':
            if ty[0] == 'i':
                return ('i', int(p) & ((1 << ty[1]) - 1))
            if ty[0] == 'f':
                return ('f', float(p))
            raise ParseError('num for %r' % (ty,))
        if k == 'hexf':
            if p[0] == 'f':
                p = p[1:]
            h = p[2:]
            if h[0] in 'KHLMR':
                return ('fx', p)
            if ty == F64:
                return ('f', struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0], int(h, 16))
            if ty == F32:
                if len(h) <= 8:
                    return ('f', struct.unpack('>f', bytes.fromhex(h.rjust(8, '0')))[0], int(h, 16))
                v = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
                return ('f', v)
            raise ParseError('hexf')
        if k == 'inf':
            return ('f', float(p.replace('qnan', 'nan').replace('snan', 'nan')))
        if p == 'true':
            return ('i', 1)
        if p == 'false':
            return ('i', 0)
        if p == 'null':
            return ('null',)
        if p in ('undef', 'poison'):
            return ('undef',)
        if p == 'zeroinitializer':
            return ('zero',)
        if p in ('nan', 'qnan', 'snan'):
            return ('f', float('nan'))
        if k == 'cstr':
            return ('cstr', decode_cstr(p[2:-1]))
        if p == '[' or p == '<' or p == '{' or p == '<{':
            close = {'[': ']', '<': '>', '{': '}', '<{': '}>'}[p]
            xs = []
            if self.peek() != close:
                while True:
                    t = self.type()
                    xs.append((t, self.value(t)))
                    if not self.accept(','):
                        break
            self.expect(close)
            return ('agg', xs)
        if p == 'splat':
            self.expect('(')
            t = self.type(); v = self.value(t)
            self.expect(')')
            return ('splat', t, v)
        if p in ('inf', 'infinity'):
            return ('f', float('inf'))
        if p == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1][1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type(); idx.append((t, self.value(t)))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if p in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            t = self.type(); v = self.value(t)
            self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', p, t, v, t2)
        if p in ('sub', 'add', 'xor', 'mul', 'and', 'or', 'shl', 'lshr'):
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            t = self.type(); a = self.value(t); self.expect(',')
            t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', p, t, a, b)
        if k == 'md' or p == 'metadata':
            return ('md',)
        if p in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        if p == 'asm':
            return ('asm',)
        raise ParseError('value? %r (%r) near %r' % (p, k, ' '.join(x[1] for x in self.t[max(0,self.i-6):self.i + 6])))


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'x', 'txt')

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, x=None, txt=None):
        self.op = op; self.res = res; self.ty = ty
        self.a = a; self.b = b; self.c = c; self.x = x; self.txt = txt

    def __repr__(self):
        return 'Ins(%s)' % self.txt


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'text', 'parsed', 'order', 'loops', 'preds', 'mod')

    def __init__(self, name):
        self.name = name
        self.parsed = False
        self.blocks = None
        self.loops = None


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast ptrtoaddr'.split())


class Module:
    def __init__(self, text, mid=0):
        self.mid = mid
        self.local = set()
        self.funcs = {}
        self.decls = {}
        self.gtext = {}
        self.globals = {}
        self.types = {}
        self.ttext = {}
        self.aliases = {}
        self._index(text)

    def _index(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        namere = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = namere.search(ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                if ln.startswith('define internal') or ln.startswith('define private'):
                    self.local.add(nm)
                f = Func(nm)
                f.mod = self
                f.text = (ln, lines[i + 1:j])
                self.funcs[nm] = f
                i = j + 1
                continue
            if ln.startswith('@'):
                k = ln.index(' = ')
                nm = unquote(ln[:k])[1:]
                self.gtext[nm] = ln[k + 3:]
                if ' private ' in ln[k:k + 40] or ' internal ' in ln[k:k + 40]:
                    self.local.add(nm)
            elif ln.startswith('declare '):
                m = namere.search(ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                self.decls[nm] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                k = ln.index(' = type ')
                self.ttext[ln[:k]] = ln[k + 8:]
            i += 1

    def gname(self, nm):
        return nm + '$%d' % self.mid if nm in self.local else nm

    def named_type(self, nm):
        if nm in self.types:
            return self.types[nm]
        s = self.ttext.get(nm)
        if s is None:
            raise ParseError('named type ' + nm)
        ts = TS(tokenize(s), self)
        t = ts.type()
        self.types[nm] = t
        return t

    def global_init(self, nm):
        """-> (type, value, is_const) or None if external"""
        if nm in self.globals:
            return self.globals[nm]
        s = self.gtext[nm]
        ts = TS(tokenize(s), self)
        ext = False
        while True:
            p = ts.peek()
            if p in ('global', 'constant'):
                isc = ts.next() == 'constant'
                break
            if p in ('external', 'extern_weak'):
                ext = True
            if p in ('alias', 'ifunc'):
                ts.next()
                t = ts.type(); ts.expect(','); t2 = ts.type()
                v = ts.value(t2)
                self.globals[nm] = ('alias', v)
                return self.globals[nm]
            ts.next()
            if p in ('thread_local', 'addrspace') and ts.peek() == '(':
                ts.skip_paren()
        t = ts.type()
        v = None
        if not ext and ts.peek() not in (None, ','):
            v = ts.value(t)
        self.globals[nm] = (t, v, isc)
        return self.globals[nm]

    def func(self, nm):
        f = self.funcs.get(nm)
        if f is None:
            return None
        if not f.parsed:
            self._parse_func(f)
        return f

    def _parse_func(self, f):
        head, body = f.text
        ts = TS(tokenize(head), self)
        ts.expect('define')
        # skip linkage etc until a type
        while True:
            p = ts.peek()
            if p in PAREN_ATTRS or p in PARAM_ATTRS:
                ts.skip_attrs()
                continue
            if ts.at_type() or (p[0] == '%' ):
                break
            ts.next()
            if ts.peek() == '(':
                ts.skip_paren()
        f.ret = ts.type()
        while ts.kind() != 'glob':
            ts.next()
        ts.next()
        ts.expect('(')
        params = []
        cnt = 0
        while ts.peek() != ')':
            if ts.accept('...'):
                break
            t = ts.type()
            byval = None
            # look for byval(T)
            while True:
                p = ts.peek()
                if p == 'byval':
                    ts.next(); ts.expect('('); byval = ts.type(); ts.expect(')')
                    continue
                j = ts.i
                ts.skip_attrs()
                if ts.i == j:
                    break
            if ts.kind() == 'loc':
                nm = unquote(ts.next())
            else:
                nm = '%' + str(cnt)
            cnt += 1
            params.append((nm, t, byval))
            ts.accept(',')
        f.params = params
        # body
        blocks = {}
        order = []
        cur = None
        # numeric default entry label
        unnamed = sum(1 for (nm, _, _) in params if nm[1:].isdigit())
        first = True
        i = 0
        nb = len(body)
        labre = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
        while i < nb:
            ln = body[i]
            i += 1
            if not ln or ln.isspace() or ln.lstrip().startswith(';') or ln.lstrip().startswith('#dbg'):
                continue
            m = labre.match(ln)
            if m and not ln.startswith(' '):
                lab = m.group(1)
                if lab[0] == '"':
                    lab = lab[1:-1]
                cur = []
                blocks['%' + lab] = cur
                order.append('%' + lab)
                first = False
                continue
            if first:
                lab = '%' + str(unnamed)
                cur = []
                blocks[lab] = cur
                order.append(lab)
                first = False
            # join multi-line
            st = ln.strip()
            if st.startswith('switch ') and not ']' in st:
                while True:
                    l2 = body[i]; i += 1
                    ln += ' ' + l2
                    if l2.strip().startswith(']'):
                        break
            elif ('invoke ' in st):
                while ' unwind label ' not in ln:
                    ln += ' ' + body[i]; i += 1
            elif 'landingpad' in st:
                while i < nb and body[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    ln += ' ' + body[i]; i += 1
            cur.append(ln)
        f.blocks = blocks
        f.order = order
        f.entry = order[0]
        f.parsed = True
        f.text = None
        # lazily parse block instrs at first use
        f.preds = None

    def block(self, f, lab):
        b = f.blocks[lab]
        if b and isinstance(b[0], str):
            b = [self.parse_ins(s) for s in b]
            f.blocks[lab] = b
        return b

    def parse_ins(self, s):
        k = s.find(', !')
        txt = s if k < 0 else s[:k]
        # metadata operands of calls such as (metadata ...) are rare; cut trailing metadata
        ts = TS(tokenize(txt), self)
        res = None
        if ts.kind() == 'loc' and ts.peek(1) == '=':
            res = unquote(ts.next())
            ts.next()
        op = ts.next()
        if op in ('tail', 'musttail', 'notail'):
            op = ts.next()
        I = lambda *a, **k: Ins(op, res, *a, txt=txt.strip(), **k)
        if op in BINOPS:
            while ts.peek() in FLAGS:
                ts.next()
            t = ts.type(); a = ts.value(t); ts.expect(','); b = ts.value(t)
            return I(t, a, b)
        if op == 'fneg':
            while ts.peek() in FLAGS:
                ts.next()
            t = ts.type(); a = ts.value(t)
            return I(t, a)
        if op in CASTS:
            while ts.peek() in FLAGS:
                ts.next()
            t = ts.type(); a = ts.value(t); ts.expect('to'); t2 = ts.type()
            return I(t2, a, t)
        if op in ('icmp', 'fcmp'):
            while ts.peek() in FLAGS:
                ts.next()
            pred = ts.next()
            t = ts.type(); a = ts.value(t); ts.expect(','); b = ts.value(t)
            return I(t, a, b, pred)
        if op == 'alloca':
            ts.accept('inalloca')
            t = ts.type()
            n = None
            if ts.accept(','):
                if ts.peek() != 'align' and ts.peek() != 'addrspace':
                    nt = ts.type(); n = (nt, ts.value(nt))
            return I(t, n)
        if op == 'load':
            while ts.peek() in FLAGS:
                ts.next()
            t = ts.type(); ts.expect(','); pt = ts.type(); a = ts.value(pt)
            return I(t, a)
        if op == 'store':
            while ts.peek() in FLAGS:
                ts.next()
            t = ts.type(); v = ts.value(t); ts.expect(','); pt = ts.type(); a = ts.value(pt)
            return I(t, v, a)
        if op == 'getelementptr':
            while ts.peek() in FLAGS:
                ts.next()
                if ts.peek() == '(':
                    ts.skip_paren()
            bt = ts.type(); ts.expect(',')
            pt = ts.type(); base = ts.value(pt)
            idx = []
            while ts.accept(','):
                t = ts.type(); idx.append((t, ts.value(t)))
            return I(bt, base, idx, pt)
        if op == 'br':
            if ts.peek() == 'label':
                ts.next()
                return I(None, None, unquote(ts.next()))
            t = ts.type(); c = ts.value(t)
            ts.expect(','); ts.expect('label'); l1 = unquote(ts.next())
            ts.expect(','); ts.expect('label'); l2 = unquote(ts.next())
            return I(t, c, l1, l2)
        if op == 'switch':
            t = ts.type(); v = ts.value(t); ts.expect(','); ts.expect('label'); d = unquote(ts.next())
            ts.expect('[')
            cases = []
            while ts.peek() != ']':
                ct = ts.type(); cv = ts.value(ct); ts.expect(','); ts.expect('label')
                cases.append((cv[1], unquote(ts.next())))
            return I(t, v, d, cases)
        if op == 'ret':
            t = ts.type()
            if t == VOID:
                return I(t)
            return I(t, ts.value(t))
        if op == 'phi':
            while ts.peek() in FLAGS:
                ts.next()
            t = ts.type()
            inc = []
            while True:
                ts.expect('[')
                v = ts.value(t); ts.expect(','); l = unquote(ts.next()); ts.expect(']')
                inc.append((v, l))
                if not ts.accept(','):
                    break
            return I(t, inc)
        if op == 'select':
            while ts.peek() in FLAGS:
                ts.next()
            ct = ts.type(); c = ts.value(ct); ts.expect(',')
            t = ts.type(); a = ts.value(t); ts.expect(',')
            t2 = ts.type(); b = ts.value(t2)
            return I(t, c, a, b, x=ct)
        if op in ('call', 'invoke'):
            # cc, ret attrs
            while True:
                p = ts.peek()
                if p in FLAGS or p in ('fastcc', 'coldcc', 'ccc', 'swiftcc', 'tailcc', 'preserve_mostcc', 'preserve_allcc'):
                    ts.next(); continue
                if p == 'cc':
                    ts.next(); ts.next(); continue
                j = ts.i
                ts.skip_attrs()
                if ts.i == j:
                    break
            t = ts.type()
            if t[0] == 'fn':
                t = t[1]
            if ts.peek() == 'asm':
                return I(t, ('asm',), [])
            callee = ts.value(PTR)
            ts.expect('(')
            args = []
            while ts.peek() != ')':
                at = ts.type()
                byval = None
                while True:
                    p = ts.peek()
                    if p == 'byval':
                        ts.next(); ts.expect('('); byval = ts.type(); ts.expect(')')
                        continue
                    j = ts.i
                    ts.skip_attrs()
                    if ts.i == j:
                        break
                if at[0] == 'metadata':
                    while ts.peek() not in (',', ')'):
                        if ts.next() == '(':
                            ts.i -= 1; ts.skip_paren()
                    args.append((at, ('md',)))
                else:
                    args.append((at, ts.value(at)))
                ts.accept(',')
            ts.expect(')')
            x = None
            if op == 'invoke':
                while ts.peek() != 'to':
                    ts.next()
                ts.next(); ts.expect('label'); nl = unquote(ts.next())
                ts.expect('unwind'); ts.expect('label'); ul = unquote(ts.next())
                x = (nl, ul)
            return I(t, callee, args, x=x)
        if op == 'extractvalue':
            t = ts.type(); v = ts.value(t)
            idx = []
            while ts.accept(','):
                idx.append(int(ts.next()))
            return I(t, v, idx)
        if op == 'insertvalue':
            t = ts.type(); v = ts.value(t); ts.expect(',')
            t2 = ts.type(); e = ts.value(t2)
            idx = []
            while ts.accept(','):
                idx.append(int(ts.next()))
            return I(t, v, e, idx, x=t2)
        if op == 'extractelement':
            t = ts.type(); v = ts.value(t); ts.expect(','); t2 = ts.type(); i = ts.value(t2)
            return I(t, v, i)
        if op == 'insertelement':
            t = ts.type(); v = ts.value(t); ts.expect(','); t2 = ts.type(); e = ts.value(t2)
            ts.expect(','); t3 = ts.type(); i = ts.value(t3)
            return I(t, v, e, i)
        if op == 'shufflevector':
            t = ts.type(); v = ts.value(t); ts.expect(','); t2 = ts.type(); w = ts.value(t2)
            ts.expect(','); t3 = ts.type(); m = ts.value(t3)
            return I(t, v, w, m, x=t3)
        if op == 'freeze':
            t = ts.type(); v = ts.value(t)
            return I(t, v)
        if op == 'unreachable':
            return I()
        if op == 'fence':
            return I()
        if op == 'landingpad' or op == 'resume':
            return I()
        if op == 'atomicrmw':
            while ts.peek() in FLAGS:
                ts.next()
            sub = ts.next()
            pt = ts.type(); p = ts.value(pt); ts.expect(','); t = ts.type(); v = ts.value(t)
            return I(t, p, v, sub)
        if op == 'cmpxchg':
            while ts.peek() in FLAGS or ts.peek() == 'weak':
                ts.next()
            pt = ts.type(); p = ts.value(pt); ts.expect(','); t = ts.type(); c = ts.value(t)
            ts.expect(','); t2 = ts.type(); n = ts.value(t2)
            return I(t, p, c, n)
        return Ins('unsupported:' + op, res, txt=txt)

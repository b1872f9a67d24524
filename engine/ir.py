"""Textual LLVM-18 IR reader: splits a module into globals, declarations and lazily parsed functions."""
import re
import struct as _struct

# ---------------------------------------------------------------- types
VOID = ('void',)
PTR = ('ptr',)
LABEL = ('label',)
META = ('metadata',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)

FLOATS = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}


def iw(t):
    """bit width of a scalar type"""
    k = t[0]
    if k == 'i' or k == 'f':
        return t[1]
    if k == 'ptr':
        return 64
    raise TypeError(t)


def align_of(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if k == 'ptr':
        return 8
    if k == 'f':
        return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == 'v':
        s = size_of(t)
        a = 1
        while a < s:
            a *= 2
        return a
    if k == 'a':
        return align_of(t[2])
    if k == 's':
        if t[2]:
            return 1
        return max([align_of(x) for x in t[1]], default=1)
    raise TypeError(t)


_size_cache = {}


def size_of(t):
    r = _size_cache.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = align_of(t)
        r = (b + a - 1) // a * a
    elif k == 'ptr':
        r = 8
    elif k == 'f':
        r = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    elif k == 'v':
        r = (t[1] * iw(t[2]) + 7) // 8
        a = 1
        while a < r:
            a *= 2
        r = a
    elif k == 'a':
        r = t[1] * size_of(t[2])
    elif k == 's':
        off = 0
        for x in t[1]:
            if not t[2]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            off += size_of(x)
        if not t[2]:
            a = align_of(t)
            off = (off + a - 1) // a * a
        r = off
    else:
        raise TypeError(t)
    _size_cache[t] = r
    return r


_off_cache = {}


def field_offsets(t):
    r = _off_cache.get(t)
    if r is None:
        r = []
        off = 0
        for x in t[1]:
            if not t[2]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            r.append(off)
            off += size_of(x)
        _off_cache[t] = r
    return r


TOK = re.compile(r'''
   \s+
 | ;[^\n]*
 | (?P<t>
     [%@]"(?:[^"\\]|\\.)*"
   | [%@][-a-zA-Z$._0-9]+
   | c"(?:[^"])*"
   | "(?:[^"])*"
   | -?\d+\.\d+(?:[eE][-+]?\d+)?
   | 0x[HKLMR]?[0-9A-Fa-f]+
   | -?\d+
   | \.\.\.
   | !\w*
   | \#\d+
   | [a-zA-Z_$.][-a-zA-Z0-9_$.]*
   | [()\[\]{}<>,=*|:]
   )''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mo = m(s, pos)
        if not mo:
            raise SyntaxError('tokenize: %r' % s[pos:pos + 60])
        t = mo.group('t')
        if t is not None:
            out.append(t)
        pos = mo.end()
    return out


PARAM_ATTRS = {
    'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'inreg',
    'returned', 'nofree', 'nest', 'immarg', 'swiftself', 'swifterror', 'writable', 'dead_on_unwind', 'noext',
}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                 'elementtype', 'preallocated', 'nofpclass', 'range', 'initializes', 'captures', 'alignstack'}


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r near %r' % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    # ---- types
    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif x == 'void':
            t = VOID
        elif x in FLOATS:
            t = ('f', FLOATS[x])
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = META
        elif x == 'token':
            t = ('token',)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif x == '{':
            t = self._struct('}', False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct('}', True)
                self.expect('>')
            else:
                if self.peek() == 'vscale':
                    raise SyntaxError('vscale')
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
        elif x[0] == '%':
            t = self.mod.named_type(x)
        else:
            raise SyntaxError('type %r near %r' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))
        # function type
        if self.peek() == '(' and t[0] != 'label':
            # function type like  i32 (ptr, ...)
            j = self.i
            depth = 0
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                self.accept(',')
            t = ('fn', t, tuple(args), va)
        return t

    def _struct(self, close, packed):
        fs = []
        while not self.accept(close):
            fs.append(self.type())
            self.accept(',')
        return ('s', tuple(fs), packed)

    def skip_attrs(self):
        """skip parameter attributes; return sret/byval info"""
        info = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PARAM_ATTRS_P:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if x == 'byval':
                        info = ('byval', self.type())
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
                else:
                    self.next()
            elif x is not None and x[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return info

    # ---- constants (returns python value); registers handled by the caller
    def const(self, t):
        x = self.next()
        k = t[0]
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x == 'null':
            return 0
        if x in ('undef', 'poison'):
            return undef_of(t)
        if x == 'zeroinitializer':
            return zero_of(t)
        if x == 'none':
            return 0
        if x[0] == '@':
            return self.mod.sym_addr(unq(x))
        if x[0] == 'c' and x[1:2] == '"':
            return tuple(cstr(x[2:-1]))
        if x == '<':
            if self.peek() == '{':
                self.next()
                r = self._cagg('}')
                self.expect('>')
                return r
            return self._cagg('>')
        if x == '{':
            return self._cagg('}')
        if x == '[':
            return self._cagg(']')
        if k == 'f':
            return fconst(x, t[1])
        if re.fullmatch(r'-?\d+', x):
            return int(x) & ((1 << iw(t)) - 1)
        return self._cexpr(x, t)

    def _cagg(self, close):
        r = []
        while not self.accept(close):
            t = self.type()
            r.append(self.const(t))
            self.accept(',')
        return tuple(r)

    def _cexpr(self, op, t):
        if op == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
            if self.peek() == 'inrange':
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.const(PTR)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                v = self.const(it)
                w = it[1]
                if v >> (w - 1):
                    v -= 1 << w
                idx.append(v)
            self.expect(')')
            off = 0
            cur = bt
            for n, v in enumerate(idx):
                if n == 0:
                    off += v * size_of(cur)
                elif cur[0] == 's':
                    off += field_offsets(cur)[v]
                    cur = cur[1][v]
                else:
                    cur = cur[2]
                    off += v * size_of(cur)
            return (base + off) & (2 ** 64 - 1)
        if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.const(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            if op == 'sext':
                w = iw(st)
                if v >> (w - 1):
                    v -= 1 << w
            return v & ((1 << iw(dt)) - 1)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.next()
            self.expect('(')
            ta = self.type()
            a = self.const(ta)
            self.expect(',')
            self.type()
            b = self.const(ta)
            self.expect(')')
            m = (1 << iw(ta)) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                    'shl': a << b, 'lshr': a >> b}[op] & m
        raise SyntaxError('const expr %r near %r' % (op, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


def undef_of(t):
    if t[0] == 'v':
        return (UNDEF,) * t[1]
    if t[0] == 'a':
        return (undef_of(t[2]),) * t[1]
    if t[0] == 's':
        return tuple(undef_of(x) for x in t[1])
    return UNDEF


def zero_of(t):
    if t[0] == 'v':
        return (0,) * t[1]
    if t[0] == 'a':
        return (zero_of(t[2]),) * t[1]
    if t[0] == 's':
        return tuple(zero_of(x) for x in t[1])
    return 0


def fconst(x, w):
    if x.startswith('0x'):
        h = x[2:]
        if h[0] in 'HKLMR':
            return int(h[1:], 16)
        bits = int(h, 16)
        if w == 64:
            return bits
        d = _struct.unpack('<d', _struct.pack('<Q', bits))[0]
        if w == 32:
            return _struct.unpack('<I', _struct.pack('<f', d))[0]
        return _struct.unpack('<H', _struct.pack('<e', d))[0]
    d = float(x)
    return {64: lambda: _struct.unpack('<Q', _struct.pack('<d', d))[0],
            32: lambda: _struct.unpack('<I', _struct.pack('<f', d))[0],
            16: lambda: _struct.unpack('<H', _struct.pack('<e', d))[0]}[w]()


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


def unq(x):
    """@"foo" -> foo ; @foo -> foo"""
    x = x[1:]
    if x and x[0] == '"':
        x = x[1:-1]
    return x


class Func:
    __slots__ = ('name', 'header', 'body', 'mod', 'parsed', 'params', 'ret', 'varargs', 'code', 'nregs', 'template',
                 'blocks', 'compiled', 'byval', 'lines', 'weak')


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_text = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}  # name -> (type, const_flag, initializer text or None)
        self.sym_addr = None  # set by the engine
        self.aliases = {}
        self.ctors = []
        self.load(text)

    def load(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func()
                f.header = ln
                f.body = lines[i + 1:j]
                f.lines = j - i - 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                f.name = m.group(1).strip('"')
                f.mod = self
                f.parsed = False
                f.compiled = None
                self.funcs[f.name] = f
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%'):
                name, rest = ln.split(' = type ', 1)
                self.type_text[name] = rest
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                name = m.group(1).strip('"')
                rest = m.group(2)
                if name == 'llvm.global_ctors':
                    cs = re.findall(r'i32 (\d+), ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
                    self.ctors = [c.strip('"') for _, c in sorted(cs, key=lambda x: int(x[0]))]
                    i += 1
                    continue
                if ' alias ' in ' ' + rest.split('(')[0]:
                    mm = re.search(r'alias .*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
                    self.aliases[name] = mm.group(1).strip('"')
                else:
                    self.globals[name] = rest
            i += 1

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            txt = self.type_text[name]
            if txt.strip() == 'opaque':
                t = ('s', (), False)
            else:
                t = P(tokenize(txt), self).type()
            self.types[name] = t
        return t

    def parse_global(self, name):
        """-> (type, is_const, init_value or None, align)"""
        rest = self.globals[name]
        p = P(tokenize(rest), self)
        is_const = False
        ext = False
        while True:
            x = p.next()
            if x == 'global':
                break
            if x == 'constant':
                is_const = True
                break
            if x in ('external', 'extern_weak', 'available_externally'):
                ext = x != 'available_externally'
            if x == '(':
                while p.next() != ')':
                    pass
        t = p.type()
        init = None
        if not ext:
            init = p.const(t)
        al = align_of(t)
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            else:
                break
        return t, is_const, init, al

    # -------------------------------------------------- functions
    def parse_header(self, f):
        p = P(tokenize(f.header), self)
        p.expect('define')
        while True:
            x = p.peek()
            if x in PARAM_ATTRS or x in PARAM_ATTRS_P:
                p.skip_attrs()
                continue
            if x in ('internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'hidden', 'dso_local',
                     'external', 'local_unnamed_addr', 'unnamed_addr', 'protected', 'default', 'fastcc', 'coldcc',
                     'available_externally', 'dso_preemptable', 'cc', 'ccc'):
                p.next()
                continue
            break
        f.ret = p.type()
        p.next()  # @name
        p.expect('(')
        params = []
        byval = []
        f.varargs = False
        while not p.accept(')'):
            if p.accept('...'):
                f.varargs = True
                continue
            t = p.type()
            info = p.skip_attrs()
            nm = p.next() if p.peek() not in (',', ')') else None
            params.append((t, nm))
            byval.append(info)
            p.accept(',')
        # unnamed params numbering
        k = 0
        out = []
        for t, nm in params:
            if nm is None:
                nm = '%' + str(k)
                k += 1
            out.append((t, nm))
        f.params = out
        f.byval = byval


def split_blocks(body):
    """-> list of (label, [line])"""
    blocks = []
    cur = None
    joined = []
    buf = None
    depth = 0
    for ln in body:
        s = ln
        if not s.strip():
            continue
        if s[0] not in ' \t':
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                if buf is not None:
                    joined.append(buf)
                    buf = None
                joined.append(('L', m.group(1).strip('"')))
                continue
            if s.startswith(';'):
                continue
        st = s.strip()
        # continuation lines: landingpad clauses, switch tables, invoke unwind
        if buf is not None and (depth > 0 or st.startswith(('catch ', 'cleanup', 'filter ', 'to label', ']'))):
            buf += ' ' + st
        else:
            if buf is not None:
                joined.append(buf)
            buf = st
            depth = 0
        if st.startswith('switch ') or depth > 0 or st.startswith('indirectbr'):
            depth += st.count('[') - st.count(']')
    if buf is not None:
        joined.append(buf)
    for x in joined:
        if isinstance(x, tuple):
            cur = (x[1], [])
            blocks.append(cur)
        else:
            if cur is None:
                cur = (None, [])
                blocks.append(cur)
            cur[1].append(x)
    return blocks


META_RE = re.compile(r'(, !\w[\w.]* ![\w]+)+$|(, !\w[\w.]* !\{[^}]*\})+$')


def strip_meta(s):
    while True:
        s2 = META_RE.sub('', s)
        if s2 == s:
            return s
        s = s2

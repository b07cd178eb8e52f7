"""Parser for the textual LLVM IR that clang emits for /repo's own sources.

Functions are indexed eagerly (one scan of the text) and parsed lazily."""
import re, bisect

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 |(?P<attr>\#\d+)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[HKLMR]?[0-9A-Fa-f]+)
 |(?P<dots>\.\.\.)
 |(?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 |(?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            # comment to the end of line
            e = s.find('\n', pos)
            pos = n if e < 0 else e
            continue
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("IR token at %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        if k == 'num' and s[m.start():m.start()+2] == '0x':
            pass
        out.append((k, m.group()))
    return out


def unq(name):
    """canonical name of %"foo" / @"foo" """
    if len(name) > 1 and name[1] == '"':
        return name[2:-1]
    return name[1:]


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'size', 'align', 'offs')

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b
        self.size = None
        self.align = None
        self.offs = None

    def __repr__(self):
        return f"Ty({self.k},{self.a},{self.b})"


VOID = Ty('void')
PTR = Ty('ptr')
LABEL = Ty('label')
META = Ty('metadata')
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('i', n)
    return _ints[n]


FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}
_fl = {k: Ty('f', k) for k in FLOATS}


class Module:
    def __init__(self, text):
        self.text = text
        self.types = {}       # name -> Ty or source text (lazy)
        self.globs = {}       # name -> text of definition (lazy) or parsed Global
        self.funcs = {}       # name -> (start, end) or Function
        self.decls = set()
        self.aliases = {}
        self._index()

    # ------------------------------------------------------------ index
    def _index(self):
        t = self.text
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', t, re.M):
            self.types[unq(m.group(1))] = m.group(2)
        for m in re.finditer(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', t, re.M):
            name = unq(m.group(1))
            rest = m.group(2)
            if re.search(r'\balias\b', rest.split('"')[0][:80]) and ' alias ' in ' ' + rest:
                tgt = re.findall(r'@(?:"[^"]*"|[-\w$.]+)', rest)
                self.aliases[name] = unq(tgt[-1])
            else:
                self.globs[name] = rest
        for m in re.finditer(r'^define [^@]*?(@(?:"[^"]*"|[-\w$.]+))\(', t, re.M):
            e = t.find('\n}\n', m.end())
            if e < 0:
                e = len(t) - 2
            self.funcs[unq(m.group(1))] = (m.start(), e + 2)
        for m in re.finditer(r'^declare [^@]*?(@(?:"[^"]*"|[-\w$.]+))\(', t, re.M):
            self.decls.add(unq(m.group(1)))

    def resolve_alias(self, name):
        seen = 0
        while name in self.aliases and seen < 10:
            name = self.aliases[name]
            seen += 1
        return name

    def func(self, name):
        name = self.resolve_alias(name)
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = parse_function(self, name, self.text[f[0]:f[1]])
            self.funcs[name] = f
        return f

    def ftext(self, name):
        f = self.funcs.get(self.resolve_alias(name))
        if f is None:
            return None
        if isinstance(f, tuple):
            return self.text[f[0]:f[1]]
        return f.text

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            raise KeyError("type " + name)
        if isinstance(t, str):
            ph = Ty('named', name)
            self.types[name] = ph
            if t.strip() == 'opaque':
                r = Ty('opaque')
            else:
                p = P(self, tokenize(t))
                r = p.type()
            ph.b = r
        return self.types[name]

    # ------------------------------------------------------------ layout
    def real(self, ty):
        while ty.k == 'named':
            ty = ty.b
        return ty

    def align(self, ty):
        if ty.align is None:
            self._lay(ty)
        return ty.align

    def size(self, ty):
        if ty.size is None:
            self._lay(ty)
        return ty.size

    def offsets(self, ty):
        ty = self.real(ty)
        if ty.offs is None:
            self._lay(ty)
        return ty.offs

    def _lay(self, ty):
        r = self.real(ty)
        if r is not ty:
            self._lay(r)
            ty.size, ty.align, ty.offs = r.size, r.align, r.offs
            return
        if r.size is not None:
            return
        k = r.k
        if k == 'i':
            n = r.a
            b = 1
            while b * 8 < n:
                b *= 2
            if n == 128:
                b = 16
            r.size = b
            r.align = min(b, 16)
        elif k == 'ptr':
            r.size = r.align = 8
        elif k == 'f':
            r.size = FLOATS[r.a]
            r.align = r.size
        elif k == 'arr':
            r.align = self.align(r.b)
            r.size = r.a * self.size(r.b)
        elif k == 'vec':
            r.size = r.a * self.size(r.b)
            r.align = r.size
        elif k in ('st', 'pst'):
            off = 0
            al = 1
            offs = []
            for e in r.a:
                ea = 1 if k == 'pst' else self.align(e)
                off = (off + ea - 1) // ea * ea
                offs.append(off)
                off += self.size(e)
                al = max(al, ea)
            r.size = (off + al - 1) // al * al
            r.align = al
            r.offs = offs
        elif k == 'opaque':
            r.size = 0
            r.align = 1
        else:
            raise SyntaxError("layout of " + repr(r))

    def glob(self, name):
        g = self.globs.get(name)
        if g is None:
            return None
        if isinstance(g, str):
            g = parse_global(self, name, g)
            self.globs[name] = g
        return g


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')


LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


def parse_global(mod, name, rest):
    p = P(mod, tokenize(rest))
    g = Global()
    g.name = name
    g.external = False
    while True:
        k, v = p.peek()
        if v in LINK:
            if v in ('external', 'extern_weak'):
                g.external = True
            p.next()
            if v == 'thread_local' and p.peek()[1] == '(':
                p.skip_paren()
        elif v in ('constant', 'global'):
            g.const = v == 'constant'
            p.next()
            break
        else:
            raise SyntaxError("global " + name + " " + rest[:100])
    g.ty = p.type()
    g.init = None
    if not g.external and not p.eof() and p.peek()[1] != ',':
        g.init = p.value(g.ty)
    return g


# ---------------------------------------------------------------- operands
# operand encodings (tuples):
# ('l', name) local ; ('c', int) int const ; ('g', name) global ; ('null',) ; ('undef',ty) ; ('zero',ty)
# ('agg', ty, [ (ty, op) ...]) ; ('bytes', b) ; ('ce', op, ...) constant expr ; ('f', bits, ty)

class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def eof(self):
        return self.i >= len(self.t)

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError("expected %s got %s near %s" % (v, x, self.t[max(0, self.i - 8):self.i + 8]))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next()
                    self.skip_paren()
                return PTR
            if v[0] == 'i' and v[1:].isdigit():
                return IntTy(int(v[1:]))
            if v == 'void':
                r = VOID
            elif v == 'label':
                return LABEL
            elif v == 'metadata':
                return META
            elif v in _fl:
                return _fl[v]
            elif v == 'opaque':
                return Ty('opaque')
            elif v == 'token':
                return Ty('token')
            else:
                raise SyntaxError("type " + v)
            return r
        if k == 'loc':
            return self.m.named(unq(v))
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', n, e)
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                el = self.tylist('}')
                self.expect('>')
                return Ty('pst', el)
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect('>')
            return Ty('vec', n, e)
        if v == '{':
            return Ty('st', self.tylist('}'))
        raise SyntaxError("type token %s %s" % (k, v))

    def tylist(self, end):
        el = []
        if self.accept(end):
            return el
        while True:
            el.append(self.type())
            if self.accept(end):
                return el
            self.expect(',')

    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('l', unq(v))
        if k == 'num':
            r = self.m.real(ty) if ty.k == 'named' else ty
            if r.k == 'f':
                return ('f', v, r)
            return ('c', int(v) & ((1 << r.a) - 1))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'cstr':
            return ('bytes', cstr(v))
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('undef', ty)
            if v == 'getelementptr':
                fl = []
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    fl.append(self.next()[1])
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    if self.peek()[1] == 'inrange':
                        self.next()
                        if self.peek()[1] == '(':
                            self.skip_paren()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('ce', 'gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'icmp'):
                while self.peek()[1] != '(':
                    fl = self.next()[1]
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('ce', 'bin', v, t, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return ('g', unq(self.next()[1]))
            if v == 'asm':
                raise SyntaxError('asm')
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', ty, el)
        raise SyntaxError("value %s %s near %s" % (k, v, self.t[max(0, self.i - 8):self.i + 5]))

    def tyval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
             'writeonly', 'returned', 'immarg', 'dead_on_unwind', 'writable', 'swiftself', 'nofree', 'allocptr',
             'nest', 'noext', 'nocreateundeforpoison'}
    ATTRP = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'align', 'elementtype',
             'allocalign', 'nofpclass', 'range', 'memory', 'captures', 'initializes', 'inalloca', 'preallocated'}

    def attrs(self):
        out = None
        while True:
            k, v = self.peek()
            if k == 'id' and v in self.ATTRS:
                self.next()
            elif k == 'id' and v in self.ATTRP:
                self.next()
                if self.peek()[1] == '(':
                    if v in ('sret', 'byval'):
                        self.next()
                        t = self.type()
                        out = (v, t)
                        self.expect(')')
                    else:
                        self.skip_paren()
                elif v == 'align':
                    self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return out


def cstr(v):
    b = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == '\\':
            if b[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(b[i]))
            i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'text', 'mod', '_cfg', 'byval', 'noreturn_')


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'd', 'text')

    def __init__(self, op, res, text):
        self.op = op
        self.res = res
        self.ty = self.a = self.b = self.c = self.d = None
        self.text = text

    def __repr__(self):
        return self.text.strip()


LABEL_RE = re.compile(r'^((?:"(?:[^"\\]|\\.)*")|[-a-zA-Z$._0-9]+):')


def parse_function(mod, name, text):
    f = Function()
    f.name = name
    f.mod = mod
    f.text = text
    f._cfg = None
    lines = text.split('\n')
    hdr = lines[0]
    at = hdr.index('@')
    toks = tokenize(hdr[hdr.index('define') + 6:])
    p = P(mod, toks)
    while True:
        k, v = p.peek()
        if v in LINK or v in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        elif v in P.ATTRS or v in P.ATTRP:
            p.attrs()
        else:
            break
    f.ret = p.type()
    p.attrs()
    p.next()  # name
    p.expect('(')
    f.params = []
    f.byval = {}
    f.vararg = False
    if not p.accept(')'):
        n = 0
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            at = p.attrs()
            if p.peek()[0] == 'loc':
                pn = unq(p.next()[1])
            else:
                pn = str(n)
            if at and at[0] == 'byval':
                f.byval[pn] = at[1]
            f.params.append((t, pn))
            n += 1
            if p.accept(')'):
                break
            p.expect(',')
    f.blocks = {}
    f.order = []
    # the first block may be unlabeled
    cur = None
    curname = None
    i = 1
    n = len(lines)
    while i < n:
        ln = lines[i]
        s = ln.strip()
        if not s or s == '}' or s[0] == ';':
            i += 1
            continue
        if ln[0] != ' ':
            m = LABEL_RE.match(ln)
            if m:
                curname = m.group(1)
                if curname[0] == '"':
                    curname = curname[1:-1]
                cur = []
                f.blocks[curname] = cur
                f.order.append(curname)
                i += 1
                continue
        if cur is None:
            curname = str(len(f.params))
            cur = []
            f.blocks[curname] = cur
            f.order.append(curname)
        # join continuation lines: switch, invoke, landingpad
        if (' switch ' in ln or s.startswith('switch')) and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                i += 1
                s += ' ' + lines[i].strip()
        elif 'invoke ' in s and ' unwind label ' not in s:
            i += 1
            s += ' ' + lines[i].strip()
        elif 'landingpad ' in s:
            while i + 1 < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i + 1]):
                i += 1
                s += ' ' + lines[i].strip()
        elif s.startswith('indirectbr'):
            pass
        cur.append(s)
        i += 1
    for b in f.order:
        f.blocks[b] = BlockLazy(mod, f.blocks[b])
    return f


class BlockLazy:
    __slots__ = ('mod', 'src', 'ins')

    def __init__(self, mod, src):
        self.mod = mod
        self.src = src
        self.ins = None

    def get(self):
        if self.ins is None:
            self.ins = [parse_instr(self.mod, s) for s in self.src]
        return self.ins


def _strip_meta(toks):
    # drop trailing ", !tbaa !5 ..." and "#12"
    for i, (k, v) in enumerate(toks):
        if k == 'meta' and i > 0 and toks[i - 1][1] == ',':
            return toks[:i - 1]
    return toks


CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBINS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def parse_instr(mod, s):
    toks = tokenize(s)
    toks = _strip_meta(toks)
    p = P(mod, toks)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    op = p.next()[1]
    I = Instr(op, res, s)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
        I.op = op
    if op in BINS:
        fl = set()
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.add(p.next()[1])
        I.ty = p.type()
        I.a = p.value(I.ty)
        p.expect(',')
        I.b = p.value(I.ty)
        I.c = frozenset(fl)
        I.d = op
        I.op = 'bin'
    elif op in FBINS or op == 'fneg':
        while p.peek()[0] == 'id' and p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        I.ty = p.type()
        I.a = p.value(I.ty)
        if op != 'fneg':
            p.expect(',')
            I.b = p.value(I.ty)
        I.d = op
        I.op = 'fbin'
    elif op == 'fcmp' or op == 'icmp':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.next()
        I.d = p.next()[1]
        I.ty = p.type()
        I.a = p.value(I.ty)
        p.expect(',')
        I.b = p.value(I.ty)
    elif op in CASTS:
        if p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
        I.ty = p.type()
        I.a = p.value(I.ty)
        p.expect('to')
        I.b = p.type()
        I.d = op
        I.op = 'cast'
    elif op == 'load':
        if p.peek()[1] in ('atomic',):
            p.next()
        if p.peek()[1] == 'volatile':
            p.next()
        I.ty = p.type()
        p.expect(',')
        p.type()
        I.a = p.value(PTR)
    elif op == 'store':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        I.ty = p.type()
        I.a = p.value(I.ty)
        p.expect(',')
        p.type()
        I.b = p.value(PTR)
    elif op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        I.ty = p.type()
        p.expect(',')
        t = p.type()
        I.a = p.value(t)
        ix = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            ix.append((t, p.value(t)))
        I.b = ix
        I.op = 'gep'
    elif op == 'alloca':
        I.ty = p.type()
        I.a = ('c', 1)
        while p.accept(','):
            if p.peek()[1] == 'align':
                p.next()
                p.next()
            elif p.peek()[1] == 'addrspace':
                p.next()
                p.skip_paren()
            else:
                t = p.type()
                I.a = p.value(t)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            I.b = unq(p.next()[1])
            I.op = 'jmp'
        else:
            p.type()
            I.a = p.value(IntTy(1))
            p.expect(',')
            p.expect('label')
            I.b = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            I.c = unq(p.next()[1])
    elif op == 'switch':
        I.ty = p.type()
        I.a = p.value(I.ty)
        p.expect(',')
        p.expect('label')
        I.b = unq(p.next()[1])
        p.expect('[')
        cs = []
        while not p.accept(']'):
            p.type()
            v = p.value(I.ty)
            p.expect(',')
            p.expect('label')
            cs.append((v[1], unq(p.next()[1])))
        I.c = cs
    elif op == 'ret':
        I.ty = p.type()
        if I.ty.k != 'void':
            I.a = p.value(I.ty)
    elif op == 'phi':
        I.ty = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(I.ty)
            p.expect(',')
            b = unq(p.next()[1])
            p.expect(']')
            inc[b] = v
            if not p.accept(','):
                break
        I.a = inc
    elif op == 'select':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        p.type()
        I.a = p.value(IntTy(1))
        p.expect(',')
        I.ty = p.type()
        I.b = p.value(I.ty)
        p.expect(',')
        p.type()
        I.c = p.value(I.ty)
    elif op in ('call', 'invoke'):
        while True:
            k, v = p.peek()
            if v in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            elif v in P.ATTRS or v in P.ATTRP or k == 'attr':
                p.attrs()
            else:
                break
        I.ty = p.type()
        p.attrs()
        if p.peek()[1] == '(':      # function type of varargs
            p.skip_paren()
        if p.peek()[1] == 'asm':
            I.a = ('asm',)
            return I
        I.a = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                at = p.attrs()
                if t is META:
                    # metadata operand: skip
                    depth = 0
                    while not (depth == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v in '({[':
                            depth += 1
                        elif v in ')}]':
                            depth -= 1
                    args.append((META, ('undef', META), None))
                else:
                    args.append((t, p.value(t), at))
                if p.accept(')'):
                    break
                p.expect(',')
        I.b = args
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            I.c = unq(p.next()[1])
            p.expect('unwind')
            p.expect('label')
            I.d = unq(p.next()[1])
    elif op == 'landingpad':
        I.ty = p.type()
        I.c = False
        cl = []
        while not p.eof():
            w = p.next()[1]
            if w == 'cleanup':
                I.c = True
            elif w in ('catch', 'filter'):
                t = p.type()
                cl.append((w, p.value(t)))
        I.a = cl
    elif op == 'resume':
        I.ty = p.type()
        I.a = p.value(I.ty)
    elif op == 'extractvalue':
        I.ty = p.type()
        I.a = p.value(I.ty)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()[1]))
        I.b = ix
    elif op == 'insertvalue':
        I.ty = p.type()
        I.a = p.value(I.ty)
        p.expect(',')
        I.d = p.type()
        I.b = p.value(I.d)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()[1]))
        I.c = ix
    elif op == 'unreachable':
        pass
    elif op == 'freeze':
        I.ty = p.type()
        I.a = p.value(I.ty)
    elif op in ('atomicrmw', 'cmpxchg', 'fence'):
        if op == 'atomicrmw':
            if p.peek()[1] == 'volatile':
                p.next()
            I.d = p.next()[1]
            p.type()
            I.a = p.value(PTR)
            p.expect(',')
            I.ty = p.type()
            I.b = p.value(I.ty)
        elif op == 'cmpxchg':
            while p.peek()[1] in ('weak', 'volatile'):
                p.next()
            p.type()
            I.a = p.value(PTR)
            p.expect(',')
            I.ty = p.type()
            I.b = p.value(I.ty)
            p.expect(',')
            p.type()
            I.c = p.value(I.ty)
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        I.op = 'unsupported'
    else:
        raise SyntaxError("instr " + s)
    return I


# ---------------------------------------------------------------- CFG helpers
def succs(ins):
    t = ins[-1]
    if t.op == 'jmp':
        return [t.b]
    if t.op == 'br':
        return [t.b, t.c]
    if t.op == 'switch':
        return [t.b] + [x[1] for x in t.c]
    if t.op == 'invoke':
        return [t.c, t.d]
    return []


class CFG:
    """postdominators (ignoring exceptional edges) and loop headers"""

    def __init__(self, f):
        self.f = f
        order = f.order
        S = {}
        for b in order:
            ins = f.blocks[b].get()
            t = ins[-1]
            if t.op == 'invoke':
                S[b] = [t.c]
                S[b + '\0u'] = []
            else:
                S[b] = succs(ins)
        full = {b: succs(f.blocks[b].get()) for b in order}
        self.S = S
        self.full = full
        # dominators for back edges over full graph
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in full[b]:
                preds[s].append(b)
        self.preds = preds
        # rpo
        seen = set()
        post = []
        stack = [(order[0], iter(full[order[0]]))]
        seen.add(order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(full[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in preds[b] if q in idom]
                if not ps:
                    continue
                n = ps[0]
                for q in ps[1:]:
                    x, y = n, q
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        self.rpo = rpo

        def dom(a, b):
            while True:
                if a == b:
                    return True
                nb = idom.get(b)
                if nb is None or nb == b:
                    return False
                b = nb
        self.headers = {}
        for b in rpo:
            for s in full[b]:
                if s in num and dom(s, b):
                    self.headers.setdefault(s, set()).add(b)
        # natural loop bodies
        self.loops = {}
        for h, tails in self.headers.items():
            body = {h}
            st = list(tails)
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
            self.loops[h] = body
        # loop order in the text: ordinal
        self.horder = [b for b in order if b in self.headers]
        # postdominators over normal edges; blocks that end in unreachable/resume are ignored as exits
        EX = '\0exit'
        R = {}
        rs = {b: [] for b in order}
        rs[EX] = []
        for b in order:
            t = f.blocks[b].get()[-1]
            if t.op == 'ret':
                rs[EX].append(b)
            for s in S[b]:
                rs[s].append(b)
        seen = {EX}
        post = []
        stack = [(EX, iter(rs[EX]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(rs[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo2 = post[::-1]
        num2 = {b: i for i, b in enumerate(rpo2)}
        ip = {EX: EX}
        ch = True
        while ch:
            ch = False
            for b in rpo2[1:]:
                nx = list(S[b])
                if f.blocks[b].get()[-1].op == 'ret':
                    nx = [EX]
                ps = [q for q in nx if q in ip]
                if not ps:
                    continue
                n = ps[0]
                for q in ps[1:]:
                    x, y = n, q
                    while x != y:
                        while num2[x] > num2[y]:
                            x = ip[x]
                        while num2[y] > num2[x]:
                            y = ip[y]
                    n = x
                if ip.get(b) != n:
                    ip[b] = n
                    ch = True
        self.ipdom = ip


def cfg(f):
    if f._cfg is None:
        f._cfg = CFG(f)
    return f._cfg

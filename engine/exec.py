"""Symbolic execution / verification-condition generation over the LLVM IR of the real code."""
import sys, time, itertools, subprocess
import z3
from dom import *
from mem import Content, same_sym
import ir

sys.setrecursionlimit(100000)

LIM = 1 << 40


class Failure:
    def __init__(self, kind, name, site, model, st, status, detail=''):
        self.kind = kind          # 'post', 'bounds', 'overflow', ...
        self.name = name
        self.site = site
        self.model = model
        self.st = st
        self.status = status      # 'sat' | 'unknown'
        self.detail = detail
        self.inputs = None

    def __repr__(self):
        return f"Failure({self.kind} {self.name} @ {self.site}: {self.status} {self.detail})"


class PathEnd(Exception):
    """the current path cannot continue (assumed false, or failed obligation that ends it)"""


class TrialAbort(Exception):
    pass


class Frame:
    __slots__ = ('f', 'blk', 'idx', 'regs', 'prev', 'allocas', 'ret_hook', 'loops', 'uid')

    def __init__(self, f):
        self.f = f
        self.blk = None
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.allocas = ()
        self.ret_hook = None
        self.loops = {}
        self.uid = 0

    def copy(self):
        g = Frame.__new__(Frame)
        g.f = self.f
        g.blk = self.blk
        g.idx = self.idx
        g.regs = dict(self.regs)
        g.prev = self.prev
        g.allocas = self.allocas
        g.ret_hook = self.ret_hook
        g.loops = dict(self.loops)
        g.uid = self.uid
        return g


class State:
    __slots__ = ('pc', 'frames', 'mem', 'meta', 'tok', 'exc', 'caught', 'ghost', 'model', 'done', 'nsteps', 'trace')

    def __init__(self):
        self.pc = []
        self.frames = []
        self.mem = {}
        self.meta = {}         # id -> (size, kind, name, alive)
        self.tok = object()
        self.exc = None
        self.caught = []
        self.ghost = {}
        self.model = None
        self.done = None       # ('ret', v) | ('throw', ti, P)
        self.nsteps = 0
        self.trace = ()

    def fork(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.meta = dict(self.meta)
        s.tok = object()
        self.tok = object()
        s.exc = self.exc
        s.caught = list(self.caught)
        s.ghost = dict(self.ghost)
        s.model = self.model
        s.done = self.done
        s.nsteps = self.nsteps
        s.trace = self.trace
        return s


class Opts:
    def __init__(self, **kw):
        self.overflow = True       # signed overflow is an obligation
        self.merge = not __import__("os").environ.get("NOMERGE")
        self.max_unroll = 40
        self.trial_unroll = 16
        self.trial_secs = 10
        self.max_steps = 4000000
        self.max_paths = 20000
        self.feas_ms = 1000
        self.ob_ms = 20000
        self.deadline = None
        self.branch_check = True
        self.keep_unsupported = True
        self.fp_abstract = False   # floating point additions and subtractions as unknown functions of their operands
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)


class Engine:
    def __init__(self, mod, dom, hooks=None, opts=None):
        self.mod = mod
        self.dom = dom
        self.opts = opts or Opts()
        self.hooks = hooks           # hooks.find(name) -> callable or None
        self.oid = itertools.count(1)
        self.fid = itertools.count(1)
        self.uid = itertools.count(1)
        self.gids = {}               # global name -> object id
        self.gcontent = {}           # id -> (Content, meta)
        self.names = {}              # id -> name
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts.feas_ms)
        self.sstack = []
        self.failures = []
        self.obligations = []        # (kind, name, how, secs)
        self.undecided = []          # reasons
        self.unsupported = []
        self.nchecks = 0
        self.solver_time = 0.0
        self.functions = {}          # name -> 'body' | 'contract' | 'trusted'
        self.covers = set()
        self.suppress = 0
        self.loop_specs = []
        self.trials = set()
        self.ruled = set()
        self.trial_deadline = None
        self.npaths = 0
        self.rescache = {}
        self.inputs = []             # declared symbolic inputs (name, val, w)
        self.typeids = {}
        self.bounded_notes = set()
        self.fork_limit_hit = False

    # ============================================================ solver
    def _sync(self, pc):
        st = self.sstack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if n < len(st):
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def sat(self, st, extra, want_model=False):
        """'sat'/'unsat'/'unknown' of pc & extra"""
        if self.opts.deadline and time.time() > self.opts.deadline:
            raise Unsupported('deadline')
        if self.trial_deadline and time.time() > self.trial_deadline:
            raise TrialAbort()
        t0 = time.time()
        self._sync(st.pc)
        self.nchecks += 1
        if extra is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
        m = None
        if r == z3.sat and want_model:
            m = self.solver.model()
        if extra is not None:
            self.solver.pop()
        self.solver_time += time.time() - t0
        return str(r), m

    def assume(self, st, cond):
        cond = b_norm(cond)
        if isinstance(cond, int):
            if not cond:
                raise PathEnd()
            return
        st.pc.append(cond)
        if st.model is not None:
            if not z3.is_true(st.model.eval(cond, model_completion=True)):
                st.model = None

    def feasible(self, st, cond):
        cond = b_norm(cond)
        if isinstance(cond, int):
            return bool(cond)
        if st.model is not None and z3.is_true(st.model.eval(cond, model_completion=True)):
            return True
        r, m = self.sat(st, cond, True)
        if r == 'sat' and st.model is None:
            st.model = m
        return r != 'unsat'

    def decide(self, st, cond):
        """1/0 when pc settles cond, None otherwise"""
        cond = b_norm(cond)
        if isinstance(cond, int):
            return cond
        known_t = known_f = False
        if st.model is not None:
            if z3.is_true(st.model.eval(cond, model_completion=True)):
                known_t = True
            else:
                known_f = True
        if not known_t:
            r, m = self.sat(st, cond)
            if r == 'unsat':
                return 0
            if r == 'unknown':
                return None
        if not known_f:
            r, m = self.sat(st, b_not(cond))
            if r == 'unsat':
                return 1
        return None

    def fork_on(self, st, cond):
        """split on cond: (state where it holds | None, state where it does not | None)"""
        cond = b_norm(cond)
        if isinstance(cond, int):
            return (st, None) if cond else (None, st)
        t = self.feasible(st, cond)
        f = self.feasible(st, b_not(cond)) if t else True
        if t and not f:
            return st, None
        if not t:
            return None, st
        s2 = st.fork()
        m = st.model
        st.pc.append(cond)
        s2.pc.append(b_not(cond))
        if m is not None:
            if z3.is_true(m.eval(cond, model_completion=True)):
                s2.model = None
            else:
                st.model = None
        return st, s2

    def prove(self, st, goal, ms=None):
        """('unsat'|'sat'|'unknown', model, how): is pc & not goal satisfiable"""
        goal = b_norm(goal)
        if isinstance(goal, int):
            if goal:
                return 'unsat', None, 'syntactic'
        ng = b_not(goal)
        if isinstance(ng, int):
            r, m = self.sat(st, None, True)
            return r, m, 'z3'
        if st.model is not None and z3.is_true(st.model.eval(ng, model_completion=True)):
            # still re-derive with the solver to have a complete model
            pass
        r, m = self.sat(st, ng, True)
        if r != 'unknown':
            return r, m, 'z3'
        ms = ms or self.opts.ob_ms
        s = z3.Solver()
        for c in st.pc:
            s.add(c)
        s.add(ng)
        t0 = time.time()
        try:
            for slv, frac in (('cvc5', 0.25), ('z3', 0.5), ('cvc5', 1.0), ('z3', 1.0)):
                if self.opts.deadline and time.time() > self.opts.deadline:
                    raise Unsupported('deadline')
                if slv == 'z3':
                    s.set('timeout', int(ms * frac))
                    r = str(s.check())
                    if r != 'unknown':
                        return r, (s.model() if r == 'sat' else None), 'z3'
                elif cvc5_check(s, int(ms * frac)) == 'unsat':
                    return 'unsat', None, 'cvc5'
        finally:
            self.solver_time += time.time() - t0
        return 'unknown', None, 'z3'

    def check(self, st, goal, kind, name, detail=''):
        """proof obligation; afterwards the goal is assumed"""
        if self.suppress:
            if isinstance(b_norm(goal), int):
                if not b_norm(goal):
                    raise PathEnd()
                return True
            st.pc.append(goal)
            if st.model is not None and not z3.is_true(st.model.eval(goal, model_completion=True)):
                st.model = None
            return True
        t0 = time.time()
        r, m, how = self.prove(st, goal)
        dt = time.time() - t0
        site = self.site(st)
        if r == 'unsat':
            self.obligations.append((kind, name, how, dt))
            return True
        f = Failure(kind, name, site, m, st.fork(), r, detail)
        f.goal = goal
        self.failures.append(f)
        self.obligations.append((kind, name, 'FAILED' if r == 'sat' else 'UNKNOWN', dt))
        g = b_norm(goal)
        if isinstance(g, int):
            raise PathEnd()
        st.pc.append(g)
        st.model = None
        if self.sat(st, None)[0] == 'unsat':
            raise PathEnd()
        return False

    def site(self, st):
        out = []
        for fr in reversed(st.frames[-4:]):
            if fr.f is not None:
                out.append(f"{demangle(fr.f.name)}:{fr.blk}")
        return ' < '.join(out)

    # ============================================================ objects
    def new_obj(self, st, size, kind='heap', base=('uninit',), name=''):
        i = next(self.oid)
        c = Content(base)
        c.own = st.tok
        st.mem[i] = c
        st.meta[i] = (size, kind, name, True)
        self.names[i] = name
        return i

    def alloc(self, st, size, kind='heap', base=('uninit',), name=''):
        return P(self.new_obj(st, size, kind, base, name))

    def global_ptr(self, name):
        i = self.gids.get(name)
        if i is None:
            i = next(self.oid)
            self.gids[name] = i
            self.names[i] = '@' + name
            self._mk_global(name, i)
        return P(i)

    def _mk_global(self, name, i):
        real = self.mod.resolve_alias(name)
        if real in self.mod.funcs or real in self.mod.decls:
            self.gcontent[i] = (Content(('zero',)), (0, 'func', real, True))
            return
        g = self.mod.glob(name)
        if g is None:
            self.gcontent[i] = (Content(('uninit',)), (0, 'func', real, True))
            return
        if g.init is None:
            sz = self.mod.size(g.ty) if g.ty.k != 'opaque' else 8
            # __libc_single_threaded: the harness runs one thread, so reference counts are not atomic (same result)
            self.gcontent[i] = (Content(('zero',) if name == '__libc_single_threaded' else ('uninit',)), (max(sz, 64), 'extern', name, True))
            return
        c = Content(('zero',))
        meta = (self.mod.size(g.ty), 'const' if g.const else 'global', name, True)
        self.gcontent[i] = (c, meta)
        if g.init[0] == 'bytes':
            c.base = ('bytes', g.init[1])
        else:
            self._init_store(c, 0, g.ty, g.init)

    def _init_store(self, c, off, ty, v):
        r = self.mod.real(ty)
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'agg':
            if r.k in ('arr', 'vec'):
                es = self.mod.size(r.b)
                for j, (t, x) in enumerate(v[2]):
                    self._init_store(c, off + j * es, t, x)
            else:
                offs = self.mod.offsets(r)
                for j, (t, x) in enumerate(v[2]):
                    self._init_store(c, off + offs[j], t, x)
            return
        if k == 'bytes':
            for j, b in enumerate(v[1]):
                c.cells[off + j] = (1, 'i', b)
            return
        val = self.const(v, r)
        n = self.mod.size(r)
        kind = 'p' if r.k == 'ptr' else 'f' if r.k == 'f' else 'i'
        if kind == 'p' and val is NULL:
            return
        if kind == 'i' and isinstance(val, P):
            kind = 'p'
        c.cells[off] = (n, kind, val)

    def content(self, st, i, write=False):
        c = st.mem.get(i)
        if c is None:
            g = self.gcontent.get(i)
            if g is None:
                raise Unsupported('dangling object id %s' % i)
            st.mem[i] = g[0]
            st.meta[i] = g[1]
            c = g[0]
        if write and c.own is not st.tok:
            c = c.clone(st.tok)
            st.mem[i] = c
        return c

    def meta(self, st, i):
        m = st.meta.get(i)
        if m is None:
            self.content(st, i)
            m = st.meta[i]
        return m

    # ---------------------------------------------------------- offsets
    def off_expr(self, off):
        s, c = off
        if s is None:
            return c if self.dom is INT else c & mask(64)
        if self.dom is INT:
            return SI(s + c if c else s, -LIM, LIM)
        return s + c if c else s

    def off_norm(self, e):
        """dom value of i64 -> (sym, c)"""
        if isinstance(e, int):
            return None, sgn(e & mask(64), 64)
        if self.dom is INT:
            x = e.e if isinstance(e, SI) else e
            x = z3.simplify(x)
        else:
            x = z3.simplify(e)
        return self._split(x)

    def _split(self, x):
        if self.dom is INT:
            if z3.is_int_value(x):
                return None, x.as_long()
            if x.decl().kind() == z3.Z3_OP_ADD:
                c = 0
                rest = []
                for a in x.children():
                    if z3.is_int_value(a):
                        c += a.as_long()
                    else:
                        rest.append(a)
                if c:
                    return (z3.Sum(rest) if len(rest) > 1 else rest[0]), c
            return x, 0
        if z3.is_bv_value(x):
            return None, sgn(x.as_long(), 64)
        if x.decl().kind() == z3.Z3_OP_BADD:
            c = 0
            rest = []
            for a in x.children():
                if z3.is_bv_value(a):
                    c += a.as_long()
                else:
                    rest.append(a)
            if c:
                c = sgn(c & mask(64), 64)
                if len(rest) == 1:
                    return rest[0], c
                r = rest[0]
                for a in rest[1:]:
                    r = r + a
                return z3.simplify(r), c
        return x, 0

    def off_add(self, a, b):
        if a[0] is None:
            return b[0], a[1] + b[1]
        if b[0] is None:
            return a[0], a[1] + b[1]
        s, c = self._split(z3.simplify(a[0] + b[0]))
        return s, c + a[1] + b[1]

    def off_sub(self, a, b):
        if b[0] is None:
            return a[0], a[1] - b[1]
        if a[0] is not None and a[0].eq(b[0]):
            return None, a[1] - b[1]
        z = z3.IntVal(0) if self.dom is INT else z3.BitVecVal(0, 64)
        s, c = self._split(z3.simplify((a[0] if a[0] is not None else z) - b[0]))
        return s, c + a[1] - b[1]

    def off_eq(self, st, a, b):
        s, c = self.off_sub(a, b)
        if s is None:
            return int(c == 0)
        cond = self.dom.foldb(s == -c)
        d = self.decide(st, cond)
        return cond if d is None else d

    def cells_disjoint(self, st, L, s, c, n):
        """no cell of layer L can overlap [off,off+n)"""
        if not L[2]:
            return True
        lo = min(L[2])
        hi = max(d + y[0] for d, y in L[2].items())
        ds, dc = self.off_sub((s, c), (L[1], 0))
        if ds is None:
            return dc + n <= lo or dc >= hi
        key = ('cd', ds.get_id(), dc, n, lo, hi)
        # off' = ds+dc relative to the layer: disjoint iff off'+n<=lo or off'>=hi  (signed)
        cond = z3.Or(ds + (dc + n) <= lo, ds + dc >= hi)
        if self.decide(st, cond) == 1:
            return True
        if n == 1:
            # exact disjointness with each cell
            cs = []
            for d, y in L[2].items():
                for j in range(y[0]):
                    cs.append(ds != (d + j - dc))
            if len(cs) <= 64 and self.decide(st, z3.And(*cs)) == 1:
                return True
        return False

    def range_rel(self, st, s, c, n, ls, lc, ln):
        """relation of [off,off+n) to [l, l+ln): 'in' / 'out' / condition (n==1) / 'mix'"""
        ds, dc = self.off_sub((s, c), (ls, lc))
        if ds is None and isinstance(ln, int):
            if dc >= 0 and dc + n <= ln:
                return 'in'
            if dc + n <= 0 or dc >= ln:
                return 'out'
            return 'mix'
        d = self.off_expr((ds, dc))
        if self.dom is INT:
            dz = d.e if isinstance(d, SI) else z3.IntVal(d)
            lz = ln.e if isinstance(ln, SI) else z3.IntVal(sgn(ln, 64)) if isinstance(ln, int) else ln
        else:
            dz = d if not isinstance(d, int) else z3.BitVecVal(d, 64)
            lz = ln if not isinstance(ln, int) else z3.BitVecVal(ln, 64)
        cin = z3.simplify(z3.And(dz >= 0, dz + n <= lz))
        r = self.decide(st, cin)
        if r == 1:
            return 'in'
        if n == 1:
            return 'out' if r == 0 else cin
        cout = z3.simplify(z3.Or(dz + n <= 0, dz >= lz))
        if self.decide(st, cout) == 1:
            return 'out'
        return 'mix'

    def int_range(self, st, e, lo, hi):
        return lo, hi

    def arr_byte(self, st, v):
        if isinstance(v, SI):
            c = z3.And(v.e >= 0, v.e <= 255)
            if not any(x.eq(c) for x in st.pc[-20:]):
                st.pc.append(c)
        return v

    # ---------------------------------------------------------- access
    def access(self, st, p, n, write, what):
        if not isinstance(p, P):
            if p is UNDEF:
                self.check(st, 0, 'uninit', 'use of an uninitialised pointer')
                raise PathEnd()
            p = self.int_ptr(st, p)
        if p.o == 0:
            self.check(st, 0, 'null', 'null pointer dereference (%s)' % what)
            raise PathEnd()
        size, kind, name, alive = self.meta(st, p.o)
        if not alive:
            self.check(st, 0, 'uaf', 'access to a freed object %s' % name)
            raise PathEnd()
        if kind == 'func':
            raise Unsupported('data access to function/unknown external ' + str(name))
        if kind == 'const' and write:
            self.check(st, 0, 'bounds', 'write to constant object ' + str(name))
        if p.s is None and isinstance(size, int):
            if not (p.c >= 0 and p.c + n <= size):
                self.check(st, 0, 'bounds', 'out of bounds %s of %d bytes at offset %d of object %s (size %d)' % (
                    what, n, p.c, name, size))
                raise PathEnd()
            return p
        self.check_range(st, p, n, what)
        return p

    def zoff(self, x):
        """i64 dom value / python int -> z3 arithmetic expression"""
        if self.dom is INT:
            if isinstance(x, int):
                return z3.IntVal(sgn(x & mask(64), 64))
            return self.dom.sv(x, 64)[0] if isinstance(x, SI) else x
        if isinstance(x, int):
            return z3.BitVecVal(x, 64)
        return x

    def check_range(self, st, p, n, what):
        """[p, p+n) inside the object; n may be symbolic"""
        size, kind, name, alive = self.meta(st, p.o)
        if p.s is None and isinstance(size, int) and isinstance(n, int):
            ok = int(p.c >= 0 and p.c + n <= size)
        else:
            o = self.zoff(self.off_expr((p.s, p.c)))
            N = self.zoff(n)
            S = self.zoff(size)
            ok = z3.And(o >= 0, N >= 0, o <= S, N <= S - o)
        self.check(st, ok, 'bounds', '%s within object %s' % (what, name or 'heap'))

    def load(self, st, p, ty):
        ty = self.mod.real(ty)
        if ty.k in ('st', 'pst'):
            offs = self.mod.offsets(ty)
            return tuple(self.load(st, p.add(o), t) for o, t in zip(offs, ty.a))
        if ty.k == 'arr':
            es = self.mod.size(ty.b)
            return tuple(self.load(st, p.add(i * es), ty.b) for i in range(ty.a))
        n = self.mod.size(ty)
        p = self.access(st, p, n, False, 'read')
        kind, v = self.content(st, p.o).read(p.s, p.c, n, self, st)
        return self.conv(st, kind, v, ty, n)

    def conv(self, st, kind, v, ty, n):
        if v is UNDEF:
            return UNDEF
        if ty.k == 'ptr':
            if kind == 'p':
                return v
            if kind == 'i':
                return self.int_ptr(st, v)
            raise Unsupported('float as pointer')
        if ty.k == 'f':
            if kind == 'f':
                return v
            if kind == 'i':
                return F(8 * n, bits=v)
            raise Unsupported('pointer as float')
        if ty.k == 'i':
            if kind == 'p':
                v = self.ptr_int(v)
            elif kind == 'f':
                v = self.fbits(v)
            if ty.a < 8 * n:
                v = self.dom.trunc(v, 8 * n, ty.a)
            return v
        raise Unsupported('load type ' + ty.k)

    def store(self, st, p, ty, v):
        ty = self.mod.real(ty)
        if ty.k in ('st', 'pst', 'arr'):
            if v is UNDEF:
                return
            if ty.k == 'arr':
                es = self.mod.size(ty.b)
                for i in range(ty.a):
                    self.store(st, p.add(i * es), ty.b, v[i])
                return
            offs = self.mod.offsets(ty)
            for i, t in enumerate(ty.a):
                self.store(st, p.add(offs[i]), t, v[i])
            return
        n = self.mod.size(ty)
        p = self.access(st, p, n, True, 'write')
        if ty.k == 'ptr':
            kind = 'p'
            if v is not UNDEF and not isinstance(v, P):
                kind = 'i'
        elif ty.k == 'f':
            kind = 'f'
        else:
            kind = 'i'
            if ty.a < 8 * n and v is not UNDEF:
                v = self.dom.zext(v, ty.a, 8 * n)
        self.content(st, p.o, True).write(p.s, p.c, n, kind, v, self, st)

    # typed helpers for specs and hooks (no obligations when unchecked)
    def ld(self, st, p, w):
        return self.load(st, p, ir.IntTy(w))

    def ldp(self, st, p):
        return self.load(st, p, ir.PTR)

    def sto(self, st, p, w, v):
        self.store(st, p, ir.IntTy(w), v)

    def stp(self, st, p, v):
        self.store(st, p, ir.PTR, v)

    def raw_store(self, st, p, w, v):
        self.content(st, p.o, True).write(p.s, p.c, w // 8, 'i', v, self, st)

    def ptr_int(self, v):
        if v.o == 0:
            base = 0
        else:
            base = v.o << 36
        if v.s is None:
            return (base + v.c) & mask(64)
        if self.dom is INT:
            return SI(v.s + (base + v.c), 0, mask(64))
        return v.s + z3.BitVecVal((base + v.c) & mask(64), 64)

    def int_ptr(self, st, v):
        if isinstance(v, int):
            if v < 4096:
                return P(0, v)
            return P((v + (1 << 35)) >> 36, v - (((v + (1 << 35)) >> 36) << 36))
        s, c = self.off_norm(v)
        o = (c + (1 << 35)) >> 36
        if o > 0:
            return P(o, c - (o << 36), s)
        raise Unsupported('symbolic integer used as a pointer')

    def fbits(self, v):
        if v.bits is not None:
            return v.bits
        if self.dom is INT:
            raise Unsupported('float in integer domain')
        # bits of a computed float: fresh bit vector tied to the value
        return z3.fpToIEEEBV(v.fp)

    def ffp(self, v):
        if v.fp is not None:
            return v.fp
        sort = z3.Float32() if v.w == 32 else z3.Float64()
        if self.dom is INT:
            if isinstance(v.bits, int):
                return z3.fpBVToFP(z3.BitVecVal(v.bits, v.w), sort)
            raise Unsupported('float in integer domain')
        b = v.bits
        return z3.fpBVToFP(z3.BitVecVal(b, v.w) if isinstance(b, int) else b, sort)

    def fresh_val(self, name, w):
        v = self.dom.fresh('%s!%d' % (name, next(self.uid)), w)
        return v

    def fresh(self, st, name, w, signed=None):
        """fresh symbolic integer with its range asserted"""
        n = '%s!%d' % (name, next(self.uid))
        if self.dom is INT and w > 1:
            v = self.dom.fresh_u(n, w) if signed is False else self.dom.fresh_s(n, w)
            st.pc.append(self.dom.constraint(v, w))
            st.model = None
            return v
        return self.dom.fresh(n, w)

    # block operations on memory
    def memcpy(self, st, d, s, n, what='memcpy', check=True):
        if isinstance(n, int) and n == 0:
            return
        if check:
            if not (isinstance(d, P) and isinstance(s, P)):
                raise Unsupported('memcpy of integers')
            for q, w in ((d, True), (s, False)):
                if q.o == 0:
                    # zero length copies from null are tolerated
                    self.check(st, self.dom.icmp('eq', 64, n, 0), 'null', what + ' with a null pointer')
                    return
                self.check_alive(st, q, what)
                self.check_range(st, q, n, what)
        src = self.content(st, s.o)
        dst = self.content(st, d.o, True)
        if isinstance(n, int) and n <= 4096 and s.s is None and src is not dst:
            # cell-wise when every byte of the range comes from whole cells of the top layer
            if same_sym(src.sym, None) and src.cells:
                items = [(c, y) for c, y in src.cells.items() if c < s.c + n and c + y[0] > s.c] \
                    if len(src.cells) <= 4 * n + 16 else \
                    [(c, src.cells[c]) for c in range(s.c - 15, s.c + n) if c in src.cells and c + src.cells[c][0] > s.c]
                items.sort()
                tot = sum(y[0] for c, y in items)
                if tot == n and items and items[0][0] == s.c:
                    for c, y in items:
                        dst.write(d.s, d.c + c - s.c, y[0], y[1], y[2], self, st)
                    return
                if n <= 128 and items and items[0][0] >= s.c and items[-1][0] + items[-1][1][0] <= s.c + n \
                        and not src.layers and src.base[0] in ('uninit', 'zero'):
                    if src.base[0] == 'zero':
                        dst.fill(d.s, d.c, n, 0, self)
                    else:
                        dst.fill(d.s, d.c, n, UNDEF, self)
                    for c, y in items:
                        dst.write(d.s, d.c + c - s.c, y[0], y[1], y[2], self, st)
                    return
            if n <= 64 and src.base[0] == 'bytes' and not src.layers and not src.cells:
                b = src.base[1][s.c:s.c + n]
                b = b + b'\0' * (n - len(b))
                for j in range(n):
                    dst.write(d.s, d.c + j, 1, 'i', b[j], self, st)
                return
        if isinstance(n, int) and n <= 16 and n in (1, 2, 4, 8):
            kind, v = src.read(s.s, s.c, n, self, st)
            dst.write(d.s, d.c, n, kind, v, self, st)
            return
        snap = src
        if src is dst:
            snap = src.clone(None)
        else:
            snap.own = None
        dst.copy(d.s, d.c, n, snap, s.s, s.c, self)

    def memset(self, st, d, byte, n, check=True):
        if isinstance(n, int) and n == 0:
            return
        if check:
            if d.o == 0:
                self.check(st, self.dom.icmp('eq', 64, n, 0), 'null', 'memset of null')
                return
            self.check_alive(st, d, 'memset')
            self.check_range(st, d, n, 'memset')
        c = self.content(st, d.o, True)
        c.fill(d.s, d.c, n, byte, self)

    def check_alive(self, st, p, what):
        m = self.meta(st, p.o)
        if not m[3]:
            self.check(st, 0, 'uaf', what + ' on a freed object')
            raise PathEnd()

    def free(self, st, p):
        if p.o == 0:
            return
        size, kind, name, alive = self.meta(st, p.o)
        if not alive:
            self.check(st, 0, 'doublefree', 'double free of %s' % name)
            raise PathEnd()
        if kind not in ('heap', 'strbuf') or p.s is not None or p.c != 0:
            self.check(st, 0, 'badfree', 'free of a non-heap pointer (%s %s)' % (kind, name))
            raise PathEnd()
        st.meta[p.o] = (size, kind, name, False)

    # ============================================================ operands
    def const(self, op, ty):
        k = op[0]
        if k == 'c':
            return op[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(op[1])
        if k == 'undef':
            r = self.mod.real(ty)
            if r.k in ('st', 'pst'):
                return tuple(UNDEF for _ in r.a)
            return UNDEF
        if k == 'zero':
            r = self.mod.real(ty)
            if r.k == 'i':
                return 0
            if r.k == 'ptr':
                return NULL
            if r.k in ('st', 'pst'):
                return tuple(self.const(('zero', t), t) for t in r.a)
            if r.k == 'arr':
                return tuple(self.const(('zero', r.b), r.b) for _ in range(r.a))
            if r.k == 'f':
                return F(8 * self.mod.size(r), bits=0)
        if k == 'f':
            import struct
            r = op[2]
            s = op[1]
            w = 8 * self.mod.size(r)
            if s.startswith('0x') and s[2] in 'KLMH':
                return F(w, bits=int(s[3:], 16))
            if s.startswith('0x'):
                d = struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0]
            else:
                d = float(s)
            if w == 32:
                return F(32, bits=struct.unpack('>I', struct.pack('>f', d))[0])
            return F(64, bits=struct.unpack('>Q', struct.pack('>d', d))[0])
        if k == 'agg':
            return tuple(self.const(x, t) for t, x in op[2])
        if k == 'ce':
            if op[1] == 'gep':
                ops = op[3]
                base = self.const(ops[0][1], ops[0][0])
                return self.gep(None, base, op[2], [(t, self.const(x, t)) for t, x in ops[1:]])
            if op[1] == 'bin':
                a = self.const(op[4], op[3])
                b = self.const(op[5], op[3])
                w = self.mod.real(op[3]).a
                return self.dom.bin(op[2], w, self.as_int(a), self.as_int(b))
            a = self.const(op[3], op[2])
            if op[1] == 'ptrtoint':
                v = self.ptr_int(a)
                w = self.mod.real(op[4]).a
                return v & mask(w)
            if op[1] == 'inttoptr':
                return self.int_ptr(None, a)
            if op[1] == 'bitcast':
                return a
            if op[1] == 'trunc':
                return a & mask(self.mod.real(op[4]).a)
        if k == 'bytes':
            return tuple(op[1])
        raise Unsupported('constant ' + str(op)[:80])

    def as_int(self, v):
        if isinstance(v, P):
            return self.ptr_int(v)
        return v

    def val(self, fr, op, ty):
        if op[0] == 'l':
            return fr.regs[op[1]]
        if op[0] == 'c':
            return op[1]
        return self.const(op, ty)

    def gep(self, st, base, ty, idx):
        if base is UNDEF:
            raise Unsupported('gep of undef')
        if not isinstance(base, P):
            base = self.int_ptr(st, base)
        c = base.c
        s = base.s
        first = True
        cur = ty
        for t, v in idx:
            if first:
                sz = self.mod.size(cur)
                first = False
            else:
                r = self.mod.real(cur)
                if r.k in ('st', 'pst'):
                    c += self.mod.offsets(r)[v]
                    cur = r.a[v]
                    continue
                sz = self.mod.size(r.b)
                cur = r.b
            w = t.a
            if v is UNDEF:
                raise Unsupported('gep with undef index')
            if isinstance(v, int):
                c += sgn(v, w) * sz
            elif sz:
                e = self.dom.sext(v, w, 64) if w < 64 else v
                if sz != 1:
                    e = self.dom.bin('mul', 64, e, sz)
                s2, c2 = self.off_norm(e if not (self.dom is INT) else SI(self.dom.sv(e, 64)[0], -LIM, LIM))
                s, cc = self.off_add((s, 0), (s2, c2))
                c += cc
        return P(base.o, c, s)

    # ============================================================ running
    def start(self, st, name, args):
        f = self.mod.func(name)
        if f is None:
            raise Unsupported('no body for ' + demangle(name))
        self.push_frame(st, f, args)

    def push_frame(self, st, f, args):
        fr = Frame(f)
        fr.uid = next(self.fid)
        if len(args) < len(f.params):
            raise Unsupported('arity of ' + f.name)
        if len(st.frames) > 200:
            raise Unsupported('recursion depth')
        for (t, n), v in zip(f.params, args):
            if n in f.byval:
                sz = self.mod.size(f.byval[n])
                q = self.alloc(st, sz, 'stack', name='byval')
                self.memcpy(st, q, v, sz)
                v = q
            fr.regs[n] = v
        fr.blk = f.order[0]
        st.frames.append(fr)

    def run(self, st, name, args):
        """run to completion: list of finished states (st.done set), all paths"""
        base = len(st.frames)
        out = []
        try:
            r = self.invoke_sync(st, name, args)
        except PathEnd:
            return []
        for s, kind, v in r:
            s.done = (kind, v)
            out.append(s)
        return out

    def invoke_sync(self, st, name, args):
        """call a function from specification code: [(state, 'ret'|'throw', value)]"""
        real = self.mod.resolve_alias(name)
        base = len(st.frames)
        marker = Frame(None)
        marker.blk = 'sync'
        st.frames.append(marker)
        h = self.hooks.find(real, self, st) if self.hooks else None
        if h is not None:
            outs = self._norm_hook(h(self, st, args, None), st)
            res = []
            for s, k, v in outs:
                s.frames.pop()
                res.append((s, k, v))
            return res
        try:
            self.start(st, real, args)
        except Unsupported as e:
            self.note_unsupported(st, e)
            return []
        res = []
        for s in self.run_to(st, base + 2, None):
            fr = s.frames.pop()
            assert fr.f is None
            if s.exc is not None and s.exc[2]:
                res.append((s, 'throw', (s.exc[0], s.exc[1])))
                s.exc = None
            else:
                res.append((s, 'ret', fr.regs.get('ret')))
        return res

    def note_unsupported(self, st, e):
        if self.suppress:
            return
        m = str(e)
        self.unsupported.append((m, self.site(st) if st.frames and st.frames[-1].f else ''))

    # run until the frame stack is shorter than depth, or (len==depth and at block stop)
    def run_to(self, st, depth, stop, loop=None):
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                r = self._run1(s, depth, stop, loop)
            except PathEnd:
                self.npaths += 1
                continue
            except Unsupported as e:
                self.note_unsupported(s, e)
                continue
            except (KeyError, z3.Z3Exception, AttributeError, TypeError, NotImplementedError) as e:
                if DEBUG:
                    raise
                self.note_unsupported(s, Unsupported('engine: %r' % (e,)))
                continue
            out.extend(r)
            if len(out) > self.opts.max_paths:
                self.unsupported.append(('path limit', ''))
                return out
        if self.opts.merge and len(out) > 1:
            out = self.merge_all(out)
        return out

    def _at_stop(self, st, depth, stop, loop):
        n = len(st.frames)
        if n < depth:
            return True
        if n == depth:
            fr = st.frames[-1]
            if stop is not None and fr.blk == stop and fr.idx == 0:
                return True
            if loop is not None and fr.idx == 0 and (fr.blk == loop[0] or fr.blk not in loop[1]):
                return True
        return False

    def _run1(self, st, depth, stop, loop):
        """execute one state until it stops; may recurse on forks; returns stopped states"""
        mod = self.mod
        dom = self.dom
        first = True
        while True:
            if not first and self._at_stop(st, depth, stop, loop):
                return [st]
            fr = st.frames[-1]
            if len(st.frames) < depth:
                return [st]
            if fr.f is None:
                return [st]
            blk = fr.f.blocks[fr.blk].get()
            if fr.idx == 0 and not (first and loop is not None and fr.blk == loop[0] and len(st.frames) == depth):
                # loop header?
                C = ir.cfg(fr.f)
                if fr.blk in C.headers:
                    r = self.at_header(st, fr, C)
                    if r is not None:
                        res = []
                        for s in r:
                            if self._at_stop(s, depth, stop, loop):
                                res.append(s)
                            else:
                                res.extend(self.run_to(s, depth, stop, loop))
                        return res
                self.do_phis(st, fr, blk)
            elif fr.idx == 0:
                self.do_phis(st, fr, blk)
            first = False
            nblk = len(blk)
            while True:
                I = blk[fr.idx]
                st.nsteps += 1
                op = I.op
                if op == 'load':
                    fr.regs[I.res] = self.load(st, self.val(fr, I.a, ir.PTR), I.ty)
                elif op == 'gep':
                    fr.regs[I.res] = self.gep(st, self.val(fr, I.a, ir.PTR), I.ty,
                                              [(t, self.val(fr, x, t)) for t, x in I.b])
                elif op == 'store':
                    self.store(st, self.val(fr, I.b, ir.PTR), I.ty, self.val(fr, I.a, I.ty))
                elif op == 'bin':
                    fr.regs[I.res] = self.do_bin(st, I, self.val(fr, I.a, I.ty), self.val(fr, I.b, I.ty))
                elif op == 'icmp':
                    fr.regs[I.res] = self.do_icmp(st, I, self.val(fr, I.a, I.ty), self.val(fr, I.b, I.ty))
                elif op == 'cast':
                    fr.regs[I.res] = self.do_cast(st, I, self.val(fr, I.a, I.ty))
                elif op == 'jmp':
                    fr.prev = fr.blk
                    fr.blk = I.b
                    fr.idx = 0
                    break
                elif op == 'br':
                    c = self.val(fr, I.a, ir.IntTy(1))
                    if c is UNDEF:
                        self.check(st, 0, 'uninit', 'branch on an uninitialised value')
                        raise PathEnd()
                    if isinstance(c, int):
                        fr.prev = fr.blk
                        fr.blk = I.b if c else I.c
                        fr.idx = 0
                        break
                    t, f = self.fork_on(st, c)
                    alts = []
                    for s, b in ((t, I.b), (f, I.c)):
                        if s is not None:
                            g = s.frames[-1]
                            g.prev = g.blk
                            g.blk = b
                            g.idx = 0
                            alts.append(s)
                    if len(alts) == 1:
                        st = alts[0]
                        break
                    return self.join(alts, fr.f, fr.prev if False else alts[0].frames[-1].prev, depth, stop, loop)
                elif op == 'switch':
                    v = self.val(fr, I.a, I.ty)
                    if v is UNDEF:
                        self.check(st, 0, 'uninit', 'switch on an uninitialised value')
                        raise PathEnd()
                    w = I.ty.a
                    if isinstance(v, int):
                        tgt = I.b
                        for k, b in I.c:
                            if k == v:
                                tgt = b
                                break
                        fr.prev = fr.blk
                        fr.blk = tgt
                        fr.idx = 0
                        break
                    # group by target
                    groups = {}
                    for k, b in I.c:
                        groups.setdefault(b, []).append(k)
                    alts = []
                    rest = st
                    for b, ks in groups.items():
                        if rest is None:
                            break
                        c = b_or(*[dom.icmp('eq', w, v, k) for k in ks])
                        t, rest = self.fork_on(rest, c)
                        if t is not None:
                            g = t.frames[-1]
                            g.prev = g.blk
                            g.blk = b
                            g.idx = 0
                            alts.append(t)
                    if rest is not None:
                        g = rest.frames[-1]
                        g.prev = g.blk
                        g.blk = I.b
                        g.idx = 0
                        alts.append(rest)
                    if len(alts) == 1:
                        st = alts[0]
                        break
                    return self.join(alts, fr.f, alts[0].frames[-1].prev, depth, stop, loop)
                elif op == 'call' or op == 'invoke':
                    r = self.do_call(st, fr, I)
                    if r is not None:
                        # list of states positioned after the call (or unwound)
                        if len(r) == 1:
                            st = r[0]
                            if self._at_stop(st, depth, stop, loop):
                                return [st]
                            break
                        res = []
                        for s in r:
                            if self._at_stop(s, depth, stop, loop):
                                res.append(s)
                            else:
                                res.extend(self.run_to(s, depth, stop, loop))
                        return res
                    if st.frames[-1] is not fr or fr.idx == 0:
                        break     # entered a callee / jumped
                    continue
                elif op == 'ret':
                    v = self.val(fr, I.a, I.ty) if I.a is not None else None
                    self.do_return(st, fr, v)
                    break
                elif op == 'phi':
                    raise Unsupported('stray phi')
                elif op == 'select':
                    c = self.val(fr, I.a, ir.IntTy(1))
                    a = self.val(fr, I.b, I.ty)
                    b = self.val(fr, I.c, I.ty)
                    if isinstance(c, int):
                        fr.regs[I.res] = a if c else b
                    elif c is UNDEF:
                        fr.regs[I.res] = UNDEF
                    else:
                        r = self.ite_val(c, a, b, I.ty)
                        if r is not None:
                            fr.regs[I.res] = r
                        else:
                            t, f = self.fork_on(st, c)
                            alts = []
                            for s, v in ((t, a), (f, b)):
                                if s is not None:
                                    g = s.frames[-1]
                                    g.regs[I.res] = v
                                    g.idx += 1
                                    alts.append(s)
                            if len(alts) == 1:
                                st = alts[0]
                                fr = st.frames[-1]
                                continue
                            res = []
                            for s in alts:
                                res.extend(self.run_to(s, depth, stop, loop))
                            return res
                elif op == 'alloca':
                    n = self.val(fr, I.a, ir.IntTy(64))
                    if not isinstance(n, int):
                        raise Unsupported('symbolic alloca')
                    q = self.alloc(st, self.mod.size(I.ty) * n, 'stack', name=I.res)
                    fr.allocas = fr.allocas + (q.o,)
                    fr.regs[I.res] = q
                elif op == 'extractvalue':
                    v = self.val(fr, I.a, I.ty)
                    for i in I.b:
                        v = v[i] if v is not UNDEF else UNDEF
                    fr.regs[I.res] = v
                elif op == 'insertvalue':
                    v = self.val(fr, I.a, I.ty)
                    x = self.val(fr, I.b, I.d)
                    fr.regs[I.res] = insv(v, I.c, x, self.mod.real(I.ty), self.mod)
                elif op == 'landingpad':
                    fr.regs[I.res] = self.landingpad(st, fr, I)
                elif op == 'resume':
                    v = self.val(fr, I.a, I.ty)
                    self.unwind(st, v[0])
                    break
                elif op == 'unreachable':
                    self.check(st, 0, 'unreachable', 'control reaches an unreachable point')
                    raise PathEnd()
                elif op == 'fbin':
                    fr.regs[I.res] = self.do_fbin(st, I, self.val(fr, I.a, I.ty),
                                                  self.val(fr, I.b, I.ty) if I.b is not None else None)
                elif op == 'fcmp':
                    fr.regs[I.res] = self.do_fcmp(st, I, self.val(fr, I.a, I.ty), self.val(fr, I.b, I.ty))
                elif op == 'freeze':
                    v = self.val(fr, I.a, I.ty)
                    fr.regs[I.res] = v
                elif op == 'atomicrmw':
                    q = self.val(fr, I.a, ir.PTR)
                    x = self.val(fr, I.b, I.ty)
                    old = self.load(st, q, I.ty)
                    w = I.ty.a
                    if I.d == 'xchg':
                        new = x
                    else:
                        new = dom.bin(I.d, w, old, x)
                    self.store(st, q, I.ty, new)
                    fr.regs[I.res] = old
                elif op == 'cmpxchg':
                    q = self.val(fr, I.a, ir.PTR)
                    old = self.load(st, q, I.ty)
                    exp = self.val(fr, I.b, I.ty)
                    new = self.val(fr, I.c, I.ty)
                    if isinstance(old, int) and isinstance(exp, int):
                        ok = int(old == exp)
                        if ok:
                            self.store(st, q, I.ty, new)
                        fr.regs[I.res] = (old, ok)
                    else:
                        raise Unsupported('cmpxchg')
                elif op == 'fence':
                    pass
                else:
                    raise Unsupported('instruction ' + op)
                fr.idx += 1
                if st.nsteps & 0xfff == 0:
                    if st.nsteps > self.opts.max_steps:
                        raise Unsupported('step limit')
                    if self.opts.deadline and time.time() > self.opts.deadline:
                        raise Unsupported('deadline')

    def ite_val(self, c, a, b, ty):
        """merged value or None"""
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        r = self.mod.real(ty) if ty is not None else None
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P) and a.same(b):
                return a
            return None
        if isinstance(a, tuple):
            return None if a != b else a
        if isinstance(a, F) or isinstance(b, F):
            return None
        if r is None or r.k != 'i':
            return None
        return self.dom.ite(c, a, b, r.a)

    # ------------------------------------------------------------ joins
    def join(self, alts, f, blk, depth, stop, loop):
        """explore the alternatives of a branch in block blk up to its immediate post-dominator and merge there"""
        d = len(alts[0].frames)
        if not self.opts.merge:
            res = []
            for s in alts:
                if self._at_stop(s, depth, stop, loop):
                    res.append(s)
                else:
                    res.extend(self.run_to(s, depth, stop, loop))
            return res
        C = ir.cfg(f)
        j = C.ipdom.get(blk)
        if j == '\0exit':
            j = None
        # do not run past the loop we are asked to stay in
        if loop is not None and d == depth and j is not None and j not in loop[1]:
            j = None
            inner_stop = None
        got = []
        for s in alts:
            fr = s.frames[-1]
            if len(s.frames) == d and fr.blk == j and fr.idx == 0:
                got.append(s)
            elif self._at_stop(s, depth, stop, loop):
                got.append(s)
            elif j is None and loop is not None and d == depth:
                got.extend(self.run_to(s, depth, stop, loop))
            elif j is None and d == depth and stop is not None:
                got.extend(self.run_to(s, depth, stop, loop))
            else:
                got.extend(self.run_to(s, d, j, loop if d == depth else None))
        # evaluate phis at the join so that merged states agree on the registers
        at = []
        res = []
        for s in got:
            if self._at_stop(s, depth, stop, loop):
                res.append(s)
            else:
                at.append(s)
        if len(at) > 1:
            at = self.merge_all(at)
        if len(res) > 1:
            res = self.merge_all(res)
        for s in at:
            res.extend(self.run_to(s, depth, stop, loop))
        return res

    def loc_key(self, s):
        return tuple((fr.uid, fr.blk, fr.idx) for fr in s.frames) + (s.exc is None,)

    def merge_all(self, states):
        groups = {}
        for s in states:
            if s.exc is not None or s.caught:
                groups.setdefault(('x', id(s)), []).append(s)
            else:
                groups.setdefault(self.loc_key(s), []).append(s)
        out = []
        for g in groups.values():
            while len(g) > 1:
                # try to merge the first with any other
                base = g[0]
                rest = []
                for x in g[1:]:
                    m = self.merge(base, x)
                    if m is None:
                        rest.append(x)
                    else:
                        base = m
                out.append(base)
                g = rest
            out.extend(g)
        return out

    def phi_vals(self, fr):
        """evaluate the phis of the block the frame is about to enter: dict, without changing the state"""
        blk = fr.f.blocks[fr.blk].get()
        vals = {}
        for I in blk:
            if I.op != 'phi':
                break
            if isinstance(fr.prev, tuple):
                vals[I.res] = (fr.prev[1][I.res], I.ty)
            else:
                vals[I.res] = (self.val(fr, I.a[fr.prev], I.ty), I.ty)
        return vals

    def merge(self, a, b):
        if len(a.frames) != len(b.frames) or a.ghost != b.ghost:
            return None
        n = 0
        m = min(len(a.pc), len(b.pc))
        while n < m and a.pc[n] is b.pc[n]:
            n += 1
        ra = [x for x in a.pc[n:]]
        rb = [x for x in b.pc[n:]]
        if not ra or not rb:
            return None
        ca = ra[0]
        if b_not(rb[0]).eq(ca) or b_not(ca).eq(rb[0]):
            newpc = a.pc[:n]
            na = b_not(ca)
            for x in ra[1:]:
                newpc.append(z3.Implies(ca, x))
            for x in rb[1:]:
                newpc.append(z3.Implies(na, x))
        else:
            ca = b_and(*ra)
            cb = b_and(*rb)
            newpc = a.pc[:n] + [z3.Or(ca, cb)]
        # memory
        newmem = {}
        for i, x in a.mem.items():
            y = b.mem.get(i)
            if y is None or x is y:
                continue
            if not base_same(x.base, y.base):
                return None
            if not same_sym(x.sym, y.sym):
                if x.cells and y.cells:
                    return None
                if not (x.cells or y.cells):
                    continue
                return None
            if not layers_same(x.layers, y.layers):
                return None
            if x.cells is y.cells:
                continue
            diff = []
            ks = set(x.cells) | set(y.cells)
            for k in ks:
                u = x.cells.get(k)
                v = y.cells.get(k)
                if u is v:
                    continue
                if u is None or v is None:
                    # dead stack slots and uninitialised bytes
                    if self.meta(a, i)[1] == 'stack' and not x.layers:
                        # one path never wrote it: value is irrelevant unless read as uninitialised there
                        diff.append((k, u, v))
                        continue
                    return None
                if u[0] != v[0]:
                    return None
                if u[2] is v[2]:
                    continue
                if u[1] != v[1]:
                    return None
                if u[1] == 'p':
                    if not (u[2] is not UNDEF and v[2] is not UNDEF and u[2].same(v[2])):
                        return None
                    continue
                if u[1] == 'f':
                    return None
                diff.append((k, u, v))
            if diff:
                newmem[i] = diff
        for i, mm in a.meta.items():
            nn = b.meta.get(i)
            if nn is not None and nn is not mm and nn != mm:
                if mm[3] != nn[3] and mm[1] == 'stack':
                    continue
                try:
                    if mm[0] is not nn[0] and not (isinstance(mm[0], int) and mm[0] == nn[0]):
                        return None
                except z3.Z3Exception:
                    return None
                if mm[3] != nn[3]:
                    return None
        # registers
        newregs = []
        for fa, fb in zip(a.frames, b.frames):
            if fa.f is not fb.f:
                return None
            nr = {}
            for k, u in fa.regs.items():
                if k not in fb.regs:
                    continue
                v = fb.regs[k]
                if u is v:
                    nr[k] = u
                    continue
                w = self.merge_val(ca, u, v, fa, k)
                if w is None:
                    return None
                nr[k] = w[0]
            newregs.append(nr)
        # pending phis at the top frame: evaluate them into registers with a common predecessor
        ta, tb = a.frames[-1], b.frames[-1]
        if ta.f is not None and ta.idx == 0 and (isinstance(ta.prev, tuple) or isinstance(tb.prev, tuple)
                                                 or ta.prev != tb.prev):
            va = self.phi_vals(ta)
            vb = self.phi_vals(tb)
            mv = {}
            for k, (u, ty) in va.items():
                v = vb[k][0]
                r = self.ite_val(ca, u, v, ty)
                if r is None:
                    return None
                mv[k] = r
            if va:
                ph = ('\0merged', mv)
            else:
                ph = ta.prev
        else:
            ph = ta.prev
        for fr, nr in zip(a.frames, newregs):
            fr.regs = nr
        a.frames[-1].prev = ph
        # commit
        for i, diff in newmem.items():
            c = self.content(a, i, True)
            for k, u, v in diff:
                if u is None or v is None:
                    c.cells.pop(k, None)
                    if u is None:
                        c.cells[k] = v
                    else:
                        c.cells[k] = u
                    continue
                if u[2] is UNDEF or v[2] is UNDEF:
                    c.cells[k] = (u[0], u[1], u[2] if v[2] is UNDEF else v[2])
                else:
                    c.cells[k] = (u[0], u[1], self.dom.ite(ca, u[2], v[2], 8 * u[0]))
        for i, y in b.mem.items():
            if i not in a.mem:
                y.own = None
                a.mem[i] = y
        for i, mm in b.meta.items():
            if i not in a.meta:
                a.meta[i] = mm
        a.pc = newpc
        a.tok = object()
        a.model = a.model if a.model is not None else b.model
        a.nsteps = max(a.nsteps, b.nsteps)
        return a

    def merge_val(self, c, u, v, fr, k):
        if u is UNDEF:
            return (v,)
        if v is UNDEF:
            return (u,)
        if isinstance(u, P) or isinstance(v, P):
            if isinstance(u, P) and isinstance(v, P) and u.same(v):
                return (u,)
            return None
        if isinstance(u, (tuple, F)) or isinstance(v, (tuple, F)):
            return None
        if u is None or v is None:
            return (u,) if u is v else None
        if isinstance(u, int) and isinstance(v, int) and u == v:
            return (u,)
        # width from the instruction that defined it
        w = self.reg_width(fr, k, u, v)
        if w is None:
            return None
        return (self.dom.ite(c, u, v, w),)

    def reg_width(self, fr, k, u, v):
        for x in (u, v):
            if z3.is_bool(x) if not isinstance(x, (int, SI)) else False:
                return 1
            if not isinstance(x, (int, SI)) and z3.is_bv(x):
                return x.size()
        if fr.f is None:
            return fr.ret_hook
        ws = getattr(fr.f, '_cfg', None)
        C = ir.cfg(fr.f)
        if not hasattr(C, 'widths'):
            W = {}
            for t, n in fr.f.params:
                W[n] = t
            for b in fr.f.order:
                for I in fr.f.blocks[b].get():
                    if I.res is None:
                        continue
                    t = I.ty
                    if I.op in ('icmp', 'fcmp'):
                        t = ir.IntTy(1)
                    elif I.op == 'cast':
                        t = I.b
                    elif I.op == 'extractvalue':
                        t = self.mod.real(I.ty)
                        for i in I.b:
                            t = self.mod.real(t.a[i] if t.k in ('st', 'pst') else t.b)
                    W[I.res] = t
            C.widths = W
        t = C.widths.get(k)
        if t is None:
            return None
        t = self.mod.real(t)
        return t.a if t.k == 'i' else None

    def do_phis(self, st, fr, blk):
        i = 0
        if blk[0].op == 'phi':
            if isinstance(fr.prev, tuple):
                vals = fr.prev[1]
                for I in blk:
                    if I.op != 'phi':
                        break
                    fr.regs[I.res] = vals[I.res]
                    i += 1
            else:
                vals = []
                for I in blk:
                    if I.op != 'phi':
                        break
                    vals.append((I.res, self.val(fr, I.a[fr.prev], I.ty)))
                    i += 1
                for k, v in vals:
                    fr.regs[k] = v
        fr.idx = i

    # ------------------------------------------------------------ loops
    def at_header(self, st, fr, C):
        """called on entering a loop header; None = just go on (unrolling)"""
        h = fr.blk
        from_inside = fr.prev in C.loops[h] if not isinstance(fr.prev, tuple) else fr.loops.get(h, 0) > 0
        if not from_inside:
            fr.loops[h] = 0
            if (fr.uid, h) not in self.trials:
                for spec in self.loop_specs:
                    if spec.match(self, st, fr, h):
                        return self.loop_entry(st, fr, h, C, spec)
            return None
        n = fr.loops.get(h, 0) + 1
        fr.loops[h] = n
        if n > self.opts.max_unroll:
            # concrete loops go on for longer; a symbolic one is cut here
            if n > 100000:
                raise Unsupported('loop bound')
            if self.trials and any(k[0] == fr.uid and k[1] == h for k in self.trials) and len(st.pc) and self.loop_symbolic(st, fr, h, n):
                raise TrialAbort()
            if len(st.pc) and self.loop_symbolic(st, fr, h, n):
                raise Unsupported('unwinding limit (%d) of a loop in %s' % (self.opts.max_unroll, demangle(fr.f.name)))
        return None

    def loop_entry(self, st, fr, h, C, spec):
        """complete unrolling when it terminates within the trial bound, the invariant rule otherwise"""
        key = (fr.f.name, h)
        depth = len(st.frames)
        if key not in self.ruled and self.opts.trial_unroll:
            trial = st.fork()
            marks = (len(self.failures), len(self.obligations), len(self.unsupported))
            old = self.opts.max_unroll
            self.opts.max_unroll = self.opts.trial_unroll
            td, self.trial_deadline = self.trial_deadline, time.time() + self.opts.trial_secs
            self.trials.add((fr.uid, h))
            try:
                out = self.run_to(trial, depth, None, (None, C.loops[h]))
            except TrialAbort:
                out = None
            finally:
                self.trial_deadline = td
                self.opts.max_unroll = old
                self.trials.discard((fr.uid, h))
            if out is not None:
                return out
            del self.failures[marks[0]:]
            del self.obligations[marks[1]:]
            del self.unsupported[marks[2]:]
            self.ruled.add(key)
        return spec.apply(self, st, fr, h, C)

    def loop_symbolic(self, st, fr, h, n):
        # a loop iterating under a growing path condition is symbolic
        k = ('pc', h)
        if n == self.opts.max_unroll + 1:
            fr.loops[k] = len(st.pc)
            return False
        return len(st.pc) > fr.loops.get(k, 0) and n > self.opts.max_unroll + 1

    # ------------------------------------------------------------ instructions
    def do_bin(self, st, I, a, b):
        op = I.d
        w = I.ty.a if I.ty.k == 'i' else None
        if w is None:
            raise Unsupported('vector op')
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, P):
            a = self.ptr_int(a)
        if isinstance(b, P):
            b = self.ptr_int(b)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if not (isinstance(b, int) and b != 0):
                self.check(st, self.dom.icmp('ne', w, b, 0), 'div0', 'division by zero')
            if op[0] == 's' and not (isinstance(b, int) and b != mask(w)):
                self.check(st, b_or(self.dom.icmp('ne', w, a, 1 << (w - 1)), self.dom.icmp('ne', w, b, mask(w))),
                           'overflow', 'signed division overflow')
        elif op in ('shl', 'lshr', 'ashr'):
            if not (isinstance(b, int) and b < w):
                self.check(st, self.dom.icmp('ult', w, b, w), 'shift', 'shift amount within the operand width')
        fl = I.c
        if fl and self.opts.overflow and op in ('add', 'sub', 'mul', 'shl'):
            if 'nsw' in fl and op != 'shl':
                ok = self.dom.no_ovf(op, w, a, b, True)
                if not (isinstance(ok, int) and ok):
                    self.check(st, ok, 'overflow', 'no signed overflow in ' + op)
                    r = self.dom.bin(op, w, a, b)
                    return self.dom.clamp(r, w, True) if self.dom is INT else r
        return self.dom.bin(op, w, a, b)

    def do_icmp(self, st, I, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, P) or isinstance(b, P):
            return self.ptr_cmp(st, I.d, a, b)
        w = I.ty.a
        return self.dom.icmp(I.d, w, a, b)

    def ptr_cmp(self, st, pred, a, b):
        if not isinstance(a, P):
            a = self.int_ptr(st, a)
        if not isinstance(b, P):
            b = self.int_ptr(st, b)
        if a.o != b.o:
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            r = {'ult': a.o < b.o, 'ule': a.o <= b.o, 'ugt': a.o > b.o, 'uge': a.o >= b.o}.get(pred)
            if r is None:
                raise Unsupported('pointer compare ' + pred)
            return int(r)
        ds, dc = self.off_sub((a.s, a.c), (b.s, b.c))
        if ds is None:
            x = dc
            return int({'eq': x == 0, 'ne': x != 0, 'ult': x < 0, 'ule': x <= 0, 'ugt': x > 0, 'uge': x >= 0,
                        'slt': x < 0, 'sle': x <= 0, 'sgt': x > 0, 'sge': x >= 0}[pred])
        e = ds + dc
        r = {'eq': lambda: e == 0, 'ne': lambda: e != 0, 'lt': lambda: e < 0, 'le': lambda: e <= 0,
             'gt': lambda: e > 0, 'ge': lambda: e >= 0}[pred if pred in ('eq', 'ne') else pred[1:]]()
        return self.dom.foldb(r)

    def do_cast(self, st, I, v):
        op = I.d
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            if isinstance(v, P):
                v = self.ptr_int(v)
            return self.dom.trunc(v, I.ty.a, I.b.a)
        if op == 'zext':
            return self.dom.zext(v, I.ty.a, I.b.a)
        if op == 'sext':
            return self.dom.sext(v, I.ty.a, I.b.a)
        if op == 'ptrtoint':
            r = self.ptr_int(v) if isinstance(v, P) else v
            return self.dom.trunc(r, 64, I.b.a) if I.b.a < 64 else r
        if op == 'inttoptr':
            return self.int_ptr(st, v)
        if op == 'bitcast':
            if I.ty.k == 'i' and I.b.k == 'f':
                return F(I.ty.a, bits=v)
            if I.ty.k == 'f' and I.b.k == 'i':
                return self.fbits(v)
            return v
        if op in ('sitofp', 'uitofp'):
            w2 = 8 * self.mod.size(I.b)
            sort = {32: z3.Float32(), 64: z3.Float64()}.get(w2)
            if sort is None:
                raise Unsupported('x86_fp80')
            if isinstance(v, int):
                x = sgn(v, I.ty.a) if op == 'sitofp' else v
                if w2 == 64:
                    import struct
                    return F(64, bits=struct.unpack('<Q', struct.pack('<d', float(x)))[0])
                return F(w2, fp=z3.FPVal(x, sort))
            if self.dom is INT:
                raise Unsupported('float in integer domain')
            bv = self.dom.z(v, I.ty.a)
            if I.ty.a == 1:
                bv = self.dom.zext(v, 1, 32)
                return F(w2, fp=z3.fpToFP(z3.RNE(), bv, sort))
            return F(w2, fp=z3.fpToFP(z3.RNE(), bv, sort) if op == 'sitofp' else z3.fpToFPUnsigned(z3.RNE(), bv, sort))
        if op in ('fptosi', 'fptoui'):
            x = self.ffp(v)
            w = I.b.a
            r = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w))
            return self.dom.fold(r) if self.dom is BV else SI(z3.BV2Int(r, op == 'fptosi'), -(1 << (w - 1)), mask(w))
        if op in ('fpext', 'fptrunc'):
            w2 = 8 * self.mod.size(I.b)
            sort = {32: z3.Float32(), 64: z3.Float64()}.get(w2)
            if sort is None:
                raise Unsupported('x86_fp80')
            return F(w2, fp=z3.simplify(z3.fpToFP(z3.RNE(), self.ffp(v), sort)))
        raise Unsupported('cast ' + op)

    def do_fbin(self, st, I, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if self.opts.fp_abstract and I.d in ('fadd', 'fsub') and a.bits is not None and b.bits is not None and not (isinstance(a.bits, int) and isinstance(b.bits, int)):
            S = z3.BitVecSort(a.w)
            p, q = [z3.BitVecVal(v.bits, a.w) if isinstance(v.bits, int) else v.bits for v in (a, b)]
            return F(a.w, bits=z3.Function('%s%d' % (I.d, a.w), S, S, S)(p, q))
        x = self.ffp(a)
        if I.d == 'fneg':
            return F(a.w, fp=z3.simplify(z3.fpNeg(x)))
        y = self.ffp(b)
        r = {'fadd': lambda: z3.fpAdd(z3.RNE(), x, y), 'fsub': lambda: z3.fpSub(z3.RNE(), x, y),
             'fmul': lambda: z3.fpMul(z3.RNE(), x, y), 'fdiv': lambda: z3.fpDiv(z3.RNE(), x, y)}.get(I.d)
        if r is None:
            raise Unsupported(I.d)
        return F(a.w, fp=z3.simplify(r()))

    @staticmethod
    def fp_bits_cmp(w, x, y):
        m = {32: 23, 64: 52}[w]
        inf = ((1 << (w - 1 - m)) - 1) << m
        x, y = [z3.BitVecVal(v, w) if isinstance(v, int) else v for v in (x, y)]
        def nan(v):
            return z3.UGT(v & ((1 << (w - 1)) - 1), inf)
        un = z3.Or(nan(x), nan(y))
        # the order of the numbers as the order of signed integers, both zeros being the same
        def key(v):
            a = v & ((1 << (w - 1)) - 1)
            return z3.If(v < 0, -a, a)
        k, l = key(x), key(y)
        return un, {'eq': z3.And(z3.Not(un), k == l), 'ne': z3.Or(un, k != l), 'lt': z3.And(z3.Not(un), k < l), 'le': z3.And(z3.Not(un), k <= l),
                    'gt': z3.And(z3.Not(un), k > l), 'ge': z3.And(z3.Not(un), k >= l)}

    def do_fcmp(self, st, I, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        p = I.d
        if a.bits is not None and b.bits is not None and self.dom is not INT:
            # comparison on the representations
            un, base = self.fp_bits_cmp(a.w, a.bits, b.bits)
        else:
            x, y = self.ffp(a), self.ffp(b)
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y),
                    'ge': z3.fpGEQ(x, y), 'ne': z3.Not(z3.fpEQ(x, y))}
        if p == 'ord':
            r = z3.Not(un)
        elif p == 'uno':
            r = un
        elif p[0] == 'o':
            r = z3.And(z3.Not(un), base[p[1:]])
        elif p[0] == 'u':
            r = z3.Or(un, base[p[1:]])
        else:
            raise Unsupported('fcmp ' + p)
        return self.dom.foldb(r)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, I):
        """None: handled in place (callee frame pushed, or value set and idx advanced);
        list: states after the call"""
        a = I.a
        if a[0] == 'asm':
            raise Unsupported('inline asm')
        if a[0] == 'g':
            name = a[1]
        else:
            p = self.val(fr, a, ir.PTR)
            if not isinstance(p, P):
                raise Unsupported('indirect call through %r' % (p,))
            if p.o == 0:
                self.check(st, 0, 'null', 'call through a null function pointer')
                raise PathEnd()
            m = self.meta(st, p.o)
            if m[1] != 'func':
                raise Unsupported('indirect call to data object ' + str(m[2]))
            name = m[2]
        name = self.mod.resolve_alias(name)
        if name.startswith('llvm.'):
            r = self.intrinsic(st, fr, I, name)
            if r is not NOTHANDLED:
                if I.res is not None:
                    fr.regs[I.res] = r
                fr.idx += 1
                return None
        args = [self.val(fr, x, t) if t is not ir.META else None for t, x, at in I.b]
        h = self.hooks.find(name, self, st) if self.hooks else None
        if h is not None:
            self.functions.setdefault(name, getattr(h, 'how', 'trusted'))
            outs = self._norm_hook(h(self, st, args, I), st)
            res = []
            for s, k, v in outs:
                if k == 'ret':
                    self.after_call(s, I, v)
                    res.append(s)
                else:
                    try:
                        self.throw(s, v[0], v[1])
                        res.append(s)
                    except PathEnd:
                        self.npaths += 1
                    except Unsupported as e:
                        self.note_unsupported(s, e)
            if len(res) == 1 and res[0] is st and st.frames[-1] is fr and fr.idx != 0:
                return None
            return res
        f = self.mod.func(name)
        if f is None:
            # a libc function with a C model in tu/models.cc (trusted)
            f = self.mod.func('verif_model_' + name.replace('__isoc23_', ''))
            if f is None:
                raise Unsupported('external function ' + demangle(name))
            self.functions[name] = 'trusted'
        else:
            self.functions[name] = 'body'
        self.push_frame(st, f, args)
        return None

    def _norm_hook(self, r, st):
        """hooks return: a value, or list of (state, 'ret'|'throw', value)"""
        if isinstance(r, list):
            return r
        return [(st, 'ret', r)]

    def after_call(self, st, I, v):
        fr = st.frames[-1]
        if fr.f is None:
            fr.regs['ret'] = v
            return
        I = fr.f.blocks[fr.blk].get()[fr.idx] if I is None else I
        if I.res is not None and I.ty.k != 'void':
            fr.regs[I.res] = v
        if I.op == 'invoke':
            fr.prev = fr.blk
            fr.blk = I.c
            fr.idx = 0
        else:
            fr.idx += 1

    def do_return(self, st, fr, v):
        st.frames.pop()
        for o in fr.allocas:
            m = st.meta[o]
            st.meta[o] = (m[0], m[1], m[2], False)
        caller = st.frames[-1]
        if caller.f is None:
            caller.regs['ret'] = v
            rt = self.mod.real(fr.f.ret)
            caller.ret_hook = rt.a if rt.k == 'i' else None
            return
        I = caller.f.blocks[caller.blk].get()[caller.idx]
        self.after_call(st, I, v)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, ti, obj):
        """start unwinding; ti = typeinfo symbol name"""
        st.exc = (ti, obj, False)
        self.unwind(st, obj)

    def unwind(self, st, obj):
        if st.exc is None:
            # resume after a cleanup of an exception we know
            raise Unsupported('resume without exception')
        ti = st.exc[0]
        st.exc = (ti, st.exc[1], False)
        first = True
        while True:
            fr = st.frames[-1]
            if fr.f is None:
                st.exc = (ti, st.exc[1], True)
                return
            ins = fr.f.blocks[fr.blk].get()
            I = ins[fr.idx] if fr.idx < len(ins) else ins[-1]
            if I.op == 'invoke':
                # does the landing pad take it?
                lp = None
                for J in fr.f.blocks[I.d].get():
                    if J.op == 'landingpad':
                        lp = J
                        break
                    if J.op != 'phi':
                        break
                if lp.c or any(self.clause_matches(cl, ti) for cl in lp.a):
                    fr.prev = fr.blk
                    fr.blk = I.d
                    fr.idx = 0
                    return
            # nounwind functions would terminate: clang emits a catch-all for them (terminate handlers)
            st.frames.pop()
            for o in fr.allocas:
                m = st.meta[o]
                st.meta[o] = (m[0], m[1], m[2], False)

    def clause_matches(self, cl, ti):
        kind, v = cl
        if kind == 'filter':
            return True
        if v[0] == 'null':
            return True
        if v[0] == 'g':
            return self.ti_derives(ti, v[1])
        raise Unsupported('landingpad clause')

    def landingpad(self, st, fr, I):
        ti, obj, _ = st.exc
        sel = 0
        for cl in I.a:
            if self.clause_matches(cl, ti):
                if cl[0] == 'filter':
                    sel = mask(32)
                    break
                sel = 1 if cl[1][0] == 'null' else self.typeid(cl[1][1])
                break
        return (obj, sel)

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 2
        return self.typeids[name]

    def ti_derives(self, ti, base):
        if ti == base:
            return True
        for b in self.ti_bases(ti):
            if self.ti_derives(b, base):
                return True
        return False

    STD_TI = {
        '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
        '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
        '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
        '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
        '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
        '_ZTINSt10filesystem7__cxx1116filesystem_errorE': ['_ZTISt12system_error'],
    }

    def ti_bases(self, ti):
        if ti in self.STD_TI:
            return self.STD_TI[ti]
        g = self.mod.glob(ti)
        if g is None or g.init is None:
            return []
        out = []
        items = g.init[2] if g.init[0] == 'agg' else []
        for i, (t, v) in enumerate(items):
            if i < 2:
                continue
            if v[0] == 'g' and v[1].startswith('_ZTI'):
                out.append(v[1])
        return out

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, I, name):
        A = I.b
        n = name.split('.')
        k = n[1]
        if k in ('lifetime', 'dbg', 'donothing', 'experimental', 'prefetch', 'invariant', 'var'):
            return None
        if k == 'assume':
            return None
        if k == 'expect':
            return self.val(fr, A[0][1], A[0][0])
        if k in ('memcpy', 'memmove'):
            d = self.val(fr, A[0][1], ir.PTR)
            s = self.val(fr, A[1][1], ir.PTR)
            ln = self.val(fr, A[2][1], A[2][0])
            self.memcpy(st, d, s, ln, k)
            return None
        if k == 'memset':
            d = self.val(fr, A[0][1], ir.PTR)
            b = self.val(fr, A[1][1], ir.IntTy(8))
            ln = self.val(fr, A[2][1], A[2][0])
            self.memset(st, d, b, ln)
            return None
        if k == 'eh':      # llvm.eh.typeid.for
            v = A[0][1]
            return self.typeid(v[1]) if v[0] == 'g' else 1
        if k == 'trap':
            self.check(st, 0, 'trap', 'trap reached')
            raise PathEnd()
        if k in ('umin', 'umax', 'smin', 'smax'):
            w = A[0][0].a
            a, b = self.val(fr, A[0][1], A[0][0]), self.val(fr, A[1][1], A[1][0])
            c = self.dom.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], w, a, b)
            return self.dom.ite(c, a, b, w)
        if k == 'abs':
            w = A[0][0].a
            a = self.val(fr, A[0][1], A[0][0])
            return self.dom.ite(self.dom.icmp('slt', w, a, 0), self.dom.bin('sub', w, 0, a), a, w)
        if k == 'objectsize':
            return mask(64)
        if k == 'is' and n[2] == 'constant':
            return 0
        if k == 'is' and n[2] == 'fpclass':
            v = self.val(fr, A[0][1], A[0][0])
            m = self.val(fr, A[1][1], A[1][0])
            if v is UNDEF:
                return UNDEF
            if m != 3:
                raise Unsupported('floating point class %r' % (m,))
            if v.bits is not None and self.dom is not INT:
                return self.dom.foldb(self.fp_bits_cmp(v.w, v.bits, 0)[0])
            return self.dom.foldb(z3.fpIsNaN(self.ffp(v)))
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and n[2] == 'with':
            w = A[0][0].a
            a, b = self.val(fr, A[0][1], A[0][0]), self.val(fr, A[1][1], A[1][0])
            op = k[1:]
            return (self.dom.bin(op, w, a, b), b_not(self.dom.no_ovf(op, w, a, b, k[0] == 's')))
        if k in ('stacksave',):
            return NULL
        if k in ('stackrestore',):
            return None
        if k in ('fshl', 'fshr'):
            w = A[0][0].a
            a, b = self.val(fr, A[0][1], A[0][0]), self.val(fr, A[1][1], A[1][0])
            c = self.val(fr, A[2][1], A[2][0])
            if isinstance(c, int):
                c %= w
                if c == 0:
                    return a if k == 'fshl' else b
                if k == 'fshr':
                    c = w - c
                return self.dom.bin('or', w, self.dom.bin('shl', w, a, c), self.dom.bin('lshr', w, b, w - c))
        if k == 'va_start' or k == 'va_end' or k == 'va_copy':
            return None
        if k == 'bswap':
            w = A[0][0].a
            a = self.val(fr, A[0][1], A[0][0])
            bs = [self.dom.byte(a, w, i) for i in range(w // 8)]
            return self.dom.concat(bs[::-1])
        return NOTHANDLED


def base_same(a, b):
    return a is b or (a[0] == b[0] and len(a) == len(b) and all(
        x is y or (isinstance(x, (int, bytes)) and x == y) for x, y in zip(a[1:], b[1:])))


def layers_same(a, b):
    return a is b or (len(a) == len(b) and all(x is y for x, y in zip(a, b)))


NOTHANDLED = object()
DEBUG = False


def insv(v, path, x, ty, mod):
    if v is UNDEF:
        n = len(ty.a) if ty.k in ('st', 'pst') else ty.a
        v = tuple(UNDEF for _ in range(n))
    l = list(v)
    if len(path) == 1:
        l[path[0]] = x
    else:
        t = ty.a[path[0]] if ty.k in ('st', 'pst') else ty.b
        l[path[0]] = insv(l[path[0]], path[1:], x, mod.real(t), mod)
    return tuple(l)


_dm = {}


def demangle(n):
    r = _dm.get(n)
    if r is None:
        try:
            r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt', n], stdout=subprocess.PIPE).stdout.decode().strip()
        except OSError:
            r = n
        _dm[n] = r
    return r


def demangle_many(names):
    names = [n for n in names if n not in _dm]
    if not names:
        return
    r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names).encode(),
                       stdout=subprocess.PIPE).stdout.decode().split('\n')
    for n, d in zip(names, r):
        _dm[n] = d


def cvc5_check(s, ms):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    try:
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit', str(ms))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res
    except Exception as e:
        return 'unknown'

#!/opt/veriftools/pyvenv/bin/python
"""sym.py MODULE.ll OUT.json [--time S] [--steps N]: symbolic execution of LLVM IR with z3.

The functions of the module are executed path by path from harness(); nd_*() return fresh bit-vector variables.  At a branch
whose condition depends on them z3 decides which sides are feasible under the path condition and every feasible side is
followed; each vrt_sym_assert() and each memory access is decided by a query `path condition and not condition`.  The
exploration is complete within the stated bounds unless time runs out ("complete": false in the output).
"""
import sys, re, json, time
import z3

z3.set_param('model.completion', True)
T0 = time.time()
MASK = {n: (1 << n) - 1 for n in range(1, 129)}


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


class Bug(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elt', 'fields', 'size', 'align', 'offs')

    def __init__(self, k, n=0, elt=None, fields=None, packed=False):
        self.k, self.n, self.elt, self.fields, self.offs = k, n, elt, fields, None
        if k == 'i':
            self.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            self.align = self.size
        elif k == 'p':
            self.size = self.align = 8
        elif k == 'a':
            self.size, self.align = n * elt.size, elt.align
        elif k == 's':
            off, al, self.offs = 0, 1, []
            for f in fields:
                a = 1 if packed else f.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += f.size
                al = max(al, a)
            self.size, self.align = (off + al - 1) // al * al, al
        elif k == 'f':
            self.size = self.align = n // 8
        else:
            self.size, self.align = 0, 1


VOID, PTR, I1, I8, I16, I32, I64 = Ty('v'), Ty('p'), Ty('i', 1), Ty('i', 8), Ty('i', 16), Ty('i', 32), Ty('i', 64)
OPAQUE = Ty('o')


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off          # obj: object id; off: int or 64-bit expression

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Frag:
    __slots__ = ('val', 'i', 'n')

    def __init__(self, val, i, n):
        self.val, self.i, self.n = val, i, n


class Obj:
    __slots__ = ('size', 'data', 'alive', 'owner', 'name', 'kind', 'base')

    def __init__(self, size, data, name, kind, base, owner):
        self.size, self.data, self.name, self.kind, self.base, self.owner, self.alive = size, data, name, kind, base, owner, True


# ---------------------------------------------------------------- parser
TOK = re.compile(r'\s*(c"[^"]*"|[%@]"[^"]*"|[%@][-\w.$]+|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|"[^"]*"|\.\.\.|[\w.]+|[!#]\d+|.)')
SKIP = set('noundef nonnull zeroext signext immarg noalias nocapture readonly writeonly returned nounwind inreg local_unnamed_addr unnamed_addr '
           'dso_local internal private constant global tail notail musttail inbounds nuw nsw exact volatile fastcc ccc hidden external weak linkonce_odr common '
           'disjoint nneg nest nofree'.split())


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.fncache = {}, {}, {}, {}
        self.fn_lines = {}
        cur, lines = None, None
        tdefs = []
        for ln in text.split('\n'):
            if cur is None:
                if ln.startswith('%') and ' = type ' in ln:
                    tdefs.append(ln)
                elif ln.startswith('@'):
                    self.globals[ln] = None
                elif ln.startswith('define '):
                    cur, lines = ln, []
            elif ln.startswith('}'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', cur)
                self.fn_lines[m.group(1).strip('"')] = (cur, lines)
                cur = None
            else:
                lines.append(ln)
        self.tdefs = {}
        for ln in tdefs:
            n, d = ln.split(' = type ', 1)
            self.tdefs[n.strip()] = d
        gl, self.globals = list(self.globals), {}
        self.gdefs = []
        for ln in gl:
            t = self.toks(ln)
            name = t[0][1:].strip('"')
            i = 2
            ext = 'external' in t[:8]
            while t[i] in SKIP or t[i].startswith('thread_local') or t[i] in ('(', ')', 'localdynamic', 'initialexec', 'addrspace'):
                i += 1
            ty, i = self.ty(t, i)
            self.gdefs.append((name, ty, None if ext else (t, i)))

    def toks(self, ln):
        ln = re.sub(r',? ![\w.]+ !\d+.*$', '', ln)
        return [x for x in TOK.findall(ln) if x.strip()] + [';', ';']

    def named(self, n):
        if n not in self.types:
            if self.tdefs.get(n, 'opaque').strip() == 'opaque':
                self.types[n] = OPAQUE
            else:
                self.types[n], _ = self.ty(self.toks(self.tdefs[n]), 0)
        return self.types[n]

    def ty(self, t, i):
        x = t[i]
        if x[0] == 'i' and x[1:].isdigit():
            return Ty('i', int(x[1:])), i + 1
        if x == 'ptr':
            return PTR, i + 1
        if x == 'void':
            return VOID, i + 1
        if x == '[':
            n = int(t[i + 1])
            e, i = self.ty(t, i + 3)
            return Ty('a', n, e), i + 1
        if x == '{' or (x == '<' and t[i + 1] == '{'):
            pk = x == '<'
            i += 2 if pk else 1
            fs = []
            while t[i] != '}':
                f, i = self.ty(t, i)
                fs.append(f)
                if t[i] == ',':
                    i += 1
            return Ty('s', fields=fs, packed=pk), i + (2 if pk else 1)
        if x == 'double':
            return Ty('f', 64), i + 1
        if x == 'float':
            return Ty('f', 32), i + 1
        if x in ('label', 'metadata'):
            return OPAQUE, i + 1
        if x[0] == '%':
            return self.named(x), i + 1
        raise Unsupported('type ' + ' '.join(t[i:i + 6]))

    def skip_attrs(self, t, i):
        while True:
            x = t[i]
            if x in SKIP:
                i += 1
            elif x == 'align':
                i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'elementtype', 'range'):
                d, i = 0, i + 1
                while True:
                    if t[i] == '(':
                        d += 1
                    if t[i] == ')':
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            else:
                return i


class Func:
    __slots__ = ('name', 'params', 'blocks', 'nregs', 'ret', 'byval')


class Compiler:
    """turns the text of a function into tuples the interpreter dispatches on; operands are (True, register) or (False, constant)"""

    def __init__(self, eng):
        self.e, self.m = eng, eng.m

    def func(self, name):
        head, lines = self.m.fn_lines[name]
        t = self.m.toks(head)
        f = Func()
        f.name = name
        regs = {}

        def reg(n):
            if n not in regs:
                regs[n] = len(regs)
            return regs[n]
        self.reg = reg
        i = next(k for k, x in enumerate(t) if x[0] == '@')
        i += 2
        f.params, f.byval = [], []
        while t[i] != ')':
            if t[i] == '...':
                i += 1
                continue
            ty, i = self.m.ty(t, i)
            bv = None
            if t[i] == 'byval':
                bv, _ = self.m.ty(t, i + 2)
            i = self.m.skip_attrs(t, i)
            f.params.append(reg(t[i]))
            f.byval.append(bv)
            i += 1
            if t[i] == ',':
                i += 1
        nparam = len(f.params)
        f.blocks = {}
        label = '%' + str(nparam)
        cur = []
        first = True
        joined = []
        for ln in lines:                       # switch statements span lines
            if joined and joined[-1].rstrip().endswith('[') and not joined[-1].strip().startswith(';'):
                joined[-1] = joined[-1].rstrip() + ' ' + ln.strip()
                if ln.strip() != ']':
                    joined[-1] += ' ['
                continue
            joined.append(ln)
        for ln in joined:
            s = ln.split(';')[0].rstrip() if 'c"' not in ln else ln.rstrip()
            if not s.strip():
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
            if m and not s.startswith(' '):
                if not first or cur:
                    f.blocks[label] = cur
                label, cur, first = '%' + m.group(1), [], False
                continue
            first = False
            cur.append(self.instr(self.m.toks(s.replace('[ [', '[')), name))
        f.blocks[label] = cur
        f.nregs = len(regs)
        f.blocks['entry!'] = f.blocks.get('%' + str(nparam)) or next(iter(f.blocks.values()))
        return f

    def val(self, t, i, ty):
        x = t[i]
        if x[0] == '%':
            return (True, self.reg(x)), i + 1
        v, i = self.const(t, i, ty)
        return (False, v), i

    def const(self, t, i, ty):
        x = t[i]
        if x == 'true':
            return 1, i + 1
        if x == 'false':
            return 0, i + 1
        if x == 'null':
            return 0, i + 1
        if x in ('undef', 'poison'):
            return None, i + 1
        if x == 'zeroinitializer':
            return 'zero', i + 1
        if re.match(r'-?\d+$', x):
            return int(x) & MASK[ty.n], i + 1
        if x[0] == '@':
            return self.e.global_ref(x[1:].strip('"')), i + 1
        if x == 'getelementptr':
            i += 1
            while t[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            bt, i = self.m.ty(t, i + 1)
            _, i = self.m.ty(t, i + 1)
            p, i = self.const(t, i, PTR)
            idx = []
            while t[i] == ',':
                it, i = self.m.ty(t, i + 1)
                v, i = self.const(t, i, it)
                idx.append((it, (False, v)))
            off, dyn = self.gep(bt, idx)
            return Ptr(p.obj, p.off + off), i + 1
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            st, i = self.m.ty(t, i + 2)
            v, i = self.const(t, i, st)
            _, i = self.m.ty(t, i + 1)
            return v, i + 1
        if x[0] == 'c' and x[1] == '"':
            return [int(h, 16) if h else ord(c) for h, c in re.findall(r'\\([0-9A-Fa-f]{2})|\\?(.)', x[2:-1], re.S)], i + 1
        if x in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '}'}[x]
            i += 2 if x == '<' else 1
            vs = []
            while t[i] != end:
                et, i = self.m.ty(t, i)
                v, i = self.const(t, i, et)
                vs.append((et, v))
                if t[i] == ',':
                    i += 1
            return ('agg', vs), i + (2 if x == '<' else 1)
        if ty.k == 'f':
            return ('float', x), i + 1
        raise Unsupported('constant ' + ' '.join(t[i:i + 8]))

    def gep(self, ty, idx):
        """constant offset and list of (operand, scale, width)"""
        off, dyn = 0, []
        for k, (it, v) in enumerate(idx):
            if k == 0:
                sc = ty.size
            elif ty.k == 's':
                off += ty.offs[v[1]]
                ty = ty.fields[v[1]]
                continue
            else:
                ty = ty.elt
                sc = ty.size
            if v[0]:
                dyn.append((v, sc, it.n))
            else:
                c = v[1] or 0
                if c >> (it.n - 1):
                    c -= 1 << it.n
                off += c * sc
        return off, dyn

    def tyval(self, t, i):
        ty, i = self.m.ty(t, i)
        i = self.m.skip_attrs(t, i)
        v, i = self.val(t, i, ty)
        return ty, v, i

    def instr(self, t, fname):
        dst = None
        i = 0
        if t[0][0] == '%' and t[1] == '=':
            dst = self.reg(t[0])
            i = 2
        while t[i] in ('tail', 'notail', 'musttail'):
            i += 1
        op = t[i]
        i += 1
        if op == 'load':
            if t[i] == 'volatile':
                i += 1
            ty, i = self.m.ty(t, i)
            _, p, i = self.tyval(t, i + 1)
            return ('load', dst, ty, p)
        if op == 'store':
            if t[i] == 'volatile':
                i += 1
            ty, v, i = self.tyval(t, i)
            _, p, i = self.tyval(t, i + 1)
            return ('store', ty, v, p)
        if op == 'alloca':
            ty, i = self.m.ty(t, i)
            cnt = (False, 1)
            if t[i] == ',' and t[i + 1] != 'align':
                _, cnt, i = self.tyval(t, i + 1)
            return ('alloca', dst, ty, cnt)
        if op == 'getelementptr':
            while t[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            bt, i = self.m.ty(t, i)
            _, p, i = self.tyval(t, i + 1)
            idx = []
            while t[i] == ',':
                it, v, i = self.tyval(t, i + 1)
                idx.append((it, v))
            off, dyn = self.gep(bt, idx)
            return ('gep', dst, p, off, dyn)
        if op == 'icmp':
            pred = t[i]
            ty, a, i = self.tyval(t, i + 1)
            b, i = self.val(t, i + 1, ty)
            return ('icmp', dst, pred, ty, a, b)
        if op == 'br':
            if t[i] == 'label':
                return ('jmp', t[i + 1])
            _, c, i = self.tyval(t, i)
            return ('br', c, t[i + 2], t[i + 5])
        if op == 'switch':
            ty, v, i = self.tyval(t, i)
            dflt = t[i + 2]
            i += 4
            cases = []
            while t[i] != ']':
                if t[i] == '[':
                    i += 1
                    continue
                ct, i = self.m.ty(t, i)
                c, i = self.const(t, i, ct)
                cases.append((c, t[i + 2]))
                i += 3
            return ('switch', ty, v, dflt, cases)
        if op == 'ret':
            if t[i] == 'void':
                return ('ret', None)
            ty, v, i = self.tyval(t, i)
            return ('ret', v)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'phi':
            ty, i = self.m.ty(t, i)
            inc = {}
            while t[i] == '[':
                v, i = self.val(t, i + 1, ty)
                inc[t[i + 1]] = v
                i += 3
                if t[i] == ',':
                    i += 1
            return ('phi', dst, inc)
        if op == 'select':
            _, c, i = self.tyval(t, i)
            ty, a, i = self.tyval(t, i + 1)
            _, b, i = self.tyval(t, i + 1)
            return ('select', dst, ty, c, a, b)
        if op == 'freeze':
            ty, a, i = self.tyval(t, i)
            return ('cast', dst, 'bitcast', ty, ty, a)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while t[i] in SKIP:
                i += 1
            ty, a, i = self.tyval(t, i)
            to, i = self.m.ty(t, i + 1)
            return ('cast', dst, op, ty, to, a)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            nsw = False
            while t[i] in SKIP:
                nsw = nsw or t[i] == 'nsw'
                i += 1
            ty, a, i = self.tyval(t, i)
            b, i = self.val(t, i + 1, ty)
            return ('bin', dst, op, ty, a, b, nsw)
        if op == 'extractvalue':
            ty, a, i = self.tyval(t, i)
            return ('extractvalue', dst, a, int(t[i + 1]))
        if op == 'insertvalue':
            ty, a, i = self.tyval(t, i)
            ety, b, i = self.tyval(t, i + 1)
            if i + 2 < len(t) and t[i + 2] == ',':
                raise Unsupported('nested insertvalue')
            return ('insertvalue', dst, a, b, int(t[i + 1]), len(ty.fields) if ty.k == 's' else ty.n)
        if op == 'call':
            i = self.m.skip_attrs(t, i)
            while t[i] in SKIP:
                i += 1
            rty, i = self.m.ty(t, i)
            if t[i] == '(':
                d = 0
                while True:
                    if t[i] == '(':
                        d += 1
                    if t[i] == ')':
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            if t[i] == 'asm':
                return ('unsupported', 'inline assembly')
            if t[i][0] == '@':
                fn = t[i][1:].strip('"')
            else:
                fn = (True, self.reg(t[i]))
            i += 2
            args = []
            if isinstance(fn, str) and fn.startswith('llvm.') and not fn.startswith(('llvm.mem', 'llvm.s', 'llvm.u', 'llvm.abs', 'llvm.expect', 'llvm.bswap', 'llvm.is.', 'llvm.fsh')):
                return ('nop',)
            while t[i] != ')':
                ty, v, i = self.tyval(t, i)
                args.append((ty, v))
                if t[i] == ',':
                    i += 1
            return ('call', dst, rty, fn, args)
        return ('unsupported', ' '.join(t[:12]))


# ---------------------------------------------------------------- solver
class Sol:
    def __init__(self):
        self.s = z3.SolverFor('QF_FD')
        self.cache, self.vars_c, self.keep = {}, {}, []
        self.queries = self.hits = 0
        self.time = 0.0

    def vars(self, e):
        k = e.get_id()
        r = self.vars_c.get(k)
        if r is None:
            seen, st, out = set(), [e], set()
            while st:
                x = st.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    st.extend(x.children())
            r = self.vars_c[k] = frozenset(out)
            self.keep.append(e)
        return r

    def solve(self, pc, cond):
        """values of the variables of the relevant part of pc and cond, or None if unsatisfiable"""
        need = set(self.vars(cond))
        rest = list(pc)
        sl = [cond]
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                if self.vars(c) & need:
                    need |= self.vars(c)
                    sl.append(c)
                    ch = True
                else:
                    nr.append(c)
            rest = nr
        key = frozenset(c.get_id() for c in sl)
        if key in self.cache:
            self.hits += 1
            return self.cache[key]
        self.keep.append(sl)
        t = time.time()
        self.s.reset()
        self.s.add(*sl)
        r = self.s.check()
        self.queries += 1
        if r == z3.unknown:
            self.s = z3.SolverFor('QF_BV')
            self.s.add(*sl)
            r = self.s.check()
        if r == z3.unknown:
            raise Unsupported('solver gave up')
        if r == z3.sat:
            m = self.s.model()
            res = {d.name(): m[d].as_long() for d in m.decls()}
        else:
            res = None
        self.time += time.time() - t
        self.cache[key] = res
        return res


# ---------------------------------------------------------------- engine
class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'code', 'ip', 'prev', 'stack', 'dst')


class State:
    __slots__ = ('frames', 'mem', 'pc', 'model', 'inputs', 'steps', 'id', 'wit', 'trace')


class Engine:
    def __init__(self, text, limit, max_steps):
        self.m = Module(text)
        self.sol = Sol()
        self.limit, self.max_steps = limit, max_steps
        self.comp = Compiler(self)
        self.nobj = 0
        self.nstate = 0
        self.nvar = 0
        self.gptr, self.base_mem = {}, {}
        self.next_addr = 0x10000
        self.vars = {}
        self.bugs, self.witness = [], {}
        self.paths = self.instrs = self.asserts = self.assert_queries = 0
        self.complete = True
        self.reasons = set()
        self.touched = set()
        self.errno = None
        for name, ty, init in self.m.gdefs:
            self.gptr[name] = Ptr(self.new_obj(self.base_mem, max(ty.size, 1) if ty is not OPAQUE else 8, name, 'g', 0, fill=0), 0)
        for name, ty, init in self.m.gdefs:
            if init is None:
                continue
            v, _ = self.comp.const(init[0], init[1], ty)
            self.init_data(self.base_mem[self.gptr[name].obj].data, 0, ty, v)

    def new_obj(self, mem, size, name, kind, owner, fill=None):
        self.nobj += 1
        mem[self.nobj] = Obj(size, [fill] * size, name, kind, self.next_addr, owner)
        self.next_addr += (size + 31) // 16 * 16
        return self.nobj

    def init_data(self, d, off, ty, v):
        if v is None or isinstance(v, str):
            return
        if isinstance(v, list):
            for k, b in enumerate(v):
                d[off + k] = b
        elif isinstance(v, tuple) and v[0] == 'agg':
            for k, (et, x) in enumerate(v[1]):
                o = ty.offs[k] if ty.k == 's' else k * ty.elt.size
                self.init_data(d, off + o, et, x)
        elif isinstance(v, int):
            for k in range(ty.size):
                d[off + k] = (v >> (8 * k)) & 255
        elif isinstance(v, (Ptr, Fn)):
            for k in range(8):
                d[off + k] = Frag(v, k, 8)

    def global_ref(self, name):
        if name in self.gptr:
            return self.gptr[name]
        return Fn(name)

    def fresh(self, st, width, inp=True):
        self.nvar += 1
        v = z3.BitVec('v%d' % self.nvar, width)
        if inp:
            st.inputs.append(v)
        return v

    # ---- conditions
    def ev(self, st, e):
        vs = self.sol.vars(e)
        sub = []
        for n in vs:
            w = self.varw(n)
            sub.append((z3.BitVec(n, w), z3.BitVecVal(st.model.get(n, 0), w)))
        return z3.simplify(z3.substitute(e, *sub))

    def varw(self, n):
        return self.vars[n]

    def branch(self, st, c):
        """decided value of the condition on this path; raises Fork when both values are possible"""
        if isinstance(c, int):
            return bool(c)
        if z3.is_bv(c):
            c = c != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = z3.is_true(self.ev(st, c))
        other = z3.Not(c) if k else c
        r = self.sol.solve(st.pc, other)
        if r is None:
            return k
        raise Fork((c, k, r))

    def assume(self, st, c):
        if isinstance(c, int):
            if not c:
                raise PathEnd()
            return
        if z3.is_bv(c):
            c = c != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        if not z3.is_true(self.ev(st, c)):
            r = self.sol.solve(st.pc, c)
            if r is None:
                raise PathEnd()
            st.model = dict(st.model)
            st.model.update(r)
        st.pc.append(c)

    def concrete(self, st, v):
        """a concrete value for v on this path (forks over the feasible ones)"""
        if isinstance(v, int):
            return v
        if z3.is_bool(v):
            return 1 if self.branch(st, v) else 0
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        k = self.ev(st, v).as_long()
        if self.branch(st, v == k):
            return k
        raise Unsupported('concretisation')

    # ---- memory
    def locate(self, st, p, size, what, table=False):
        if isinstance(p, int):
            for oid, o in (st.mem.items() if p >= 0x10000 else ()):
                if o.base <= p <= o.base + o.size:
                    p = Ptr(oid, p - o.base)
                    break
            else:
                raise Bug('%s through the invalid pointer %#x' % (what, p))
        if p is None:
            raise Bug('%s through an uninitialised pointer' % what)
        if isinstance(p, Fn):
            raise Bug('%s of a function' % what)
        if not isinstance(p, Ptr):
            raise Unsupported('%s through a symbolic address' % what)
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            raise Bug('%s of an object that no longer exists' % what)
        off = p.off
        if not isinstance(off, int):
            bad = z3.Not(z3.ULE(off, o.size - size)) if o.size >= size else z3.BoolVal(True)
            self.assert_queries += 1
            r = self.sol.solve(st.pc, z3.simplify(bad)) if not z3.is_false(z3.simplify(bad)) else None
            if r is not None:
                st.model = dict(st.model)
                st.model.update(r)
                raise Bug('%s outside %s (%d bytes)' % (what, o.name, o.size))
            if table and o.size <= 64 and all(isinstance(x, int) for x in o.data):
                return o, off, p.obj
            off = self.concrete(st, off)
        if off < 0 or off + size > o.size:
            if off >= 1 << 63:
                off -= 1 << 64
            raise Bug('%s of %d bytes at offset %d of %s (%d bytes)' % (what, size, off, o.name, o.size))
        return o, off, p.obj

    def wobj(self, st, o, oid):
        if o.owner != st.id:
            n = Obj(o.size, list(o.data), o.name, o.kind, o.base, st.id)
            n.alive = o.alive
            st.mem[oid] = n
            return n
        return o

    def add(self, off, n):
        return off + n if isinstance(off, int) else z3.simplify(off + z3.BitVecVal(n, off.size()))

    def byte(self, x):
        if isinstance(x, Frag):
            if isinstance(x.val, Ptr) or isinstance(x.val, Fn):
                raise Unsupported('bytes of a pointer')
            return z3.Extract(8 * x.i + 7, 8 * x.i, x.val)
        return x

    def load(self, st, p, ty, what='read'):
        n = ty.size
        if ty.k == 's':
            return [self.load(st, Ptr(p.obj, self.add(p.off, o)), f, what) for f, o in zip(ty.fields, ty.offs)] if isinstance(p, Ptr) else self.locate(st, p, n, what)
        if ty.k not in 'ip':
            raise Unsupported('aggregate load')
        o, off, oid = self.locate(st, p, n, what, n == 1 and ty.n == 8)
        if not isinstance(off, int):            # a table of constants read at a symbolic index
            v = z3.BitVecVal(o.data[0], 8)
            for k in range(1, o.size):
                v = z3.If(off == k, z3.BitVecVal(o.data[k], 8), v)
            return z3.simplify(v)
        d = o.data[off:off + n]
        try:
            v = int.from_bytes(bytes(d), 'little')
            return v & 1 if ty.n == 1 else v
        except (TypeError, ValueError):
            pass
        f = d[0]
        if isinstance(f, Frag) and f.n == n and f.i == 0 and all(isinstance(x, Frag) and x.val is f.val and x.i == k for k, x in enumerate(d)):
            return f.val
        bs = []
        for k, x in enumerate(d):
            if x is None:
                # uninitialised memory: any value
                x = self.fresh_var(st, 8)
                o = self.wobj(st, o, oid)
                o.data[off + k] = x
            x = self.byte(x)
            bs.append(x if not isinstance(x, int) else z3.BitVecVal(x, 8))
        if n == 1:
            v = bs[0]
        else:
            v = z3.simplify(z3.Concat(*reversed(bs)))
        if ty.k == 'i' and ty.n < 8 * n:
            v = z3.simplify(z3.Extract(ty.n - 1, 0, v))
        if ty.n == 1 and ty.k == 'i':
            v = v == 1
        return v

    def fresh_var(self, st, w):
        v = self.fresh(st, w, inp=False)
        self.vars[v.decl().name()] = w
        return v

    def store(self, st, p, ty, v, what='write'):
        n = ty.size
        if isinstance(v, tuple) and v[:1] == ('agg',):
            v = [x for _, x in v[1]]
        if ty.k == 's' and isinstance(v, list) and isinstance(p, Ptr):
            for f, o, x in zip(ty.fields, ty.offs, v):
                self.store(st, Ptr(p.obj, self.add(p.off, o)), f, x, what)
            return
        o, off, oid = self.locate(st, p, n, what)
        o = self.wobj(st, o, oid)
        if isinstance(v, int):
            o.data[off:off + n] = (v & MASK[8 * n]).to_bytes(n, 'little')
        elif v is None:
            o.data[off:off + n] = [None] * n
        elif isinstance(v, (Ptr, Fn)):
            o.data[off:off + n] = [Frag(v, k, n) for k in range(n)]
        elif isinstance(v, str):
            o.data[off:off + n] = [0] * n
        else:
            if z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            elif v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            if n == 1:
                o.data[off] = v
            else:
                o.data[off:off + n] = [Frag(v, k, n) for k in range(n)]

    # ---- execution
    def start(self, fname):
        st = State()
        st.frames, st.mem, st.pc, st.model, st.inputs, st.steps, st.id, st.wit, st.trace = [], dict(self.base_mem), [], {}, [], 0, 0, [], []
        self.push(st, fname, [], None)
        return st

    def getfn(self, name):
        f = self.m.fncache.get(name)
        if f is None:
            f = self.m.fncache[name] = self.comp.func(name)
        return f

    def push(self, st, fname, args, dst):
        f = self.getfn(fname)
        self.touched.add(fname)
        if len(st.frames) > 200:
            raise Bug('recursion too deep')
        fr = Frame()
        fr.fn, fr.regs, fr.blk, fr.ip, fr.prev, fr.stack, fr.dst = f, [None] * f.nregs, 'entry!', 0, None, [], dst
        fr.code = f.blocks['entry!']
        fr.blk = next(k for k, v in f.blocks.items() if v is fr.code)
        for k, r in enumerate(f.params):
            a = args[k]
            if f.byval[k] is not None:
                oid = self.new_obj(st.mem, f.byval[k].size, 'argument', 's', st.id)
                o, off, _ = self.locate(st, a, f.byval[k].size, 'read')
                st.mem[oid].data = o.data[off:off + f.byval[k].size]
                fr.stack.append(oid)
                a = Ptr(oid, 0)
            fr.regs[r] = a
        st.frames.append(fr)

    def clone(self, st):
        n = State()
        self.nstate += 1
        n.id = self.nstate
        n.frames = []
        for f in st.frames:
            g = Frame()
            g.fn, g.regs, g.blk, g.code, g.ip, g.prev, g.stack, g.dst = f.fn, list(f.regs), f.blk, f.code, f.ip, f.prev, list(f.stack), f.dst
            n.frames.append(g)
        n.mem, n.pc, n.model, n.inputs, n.steps, n.wit, n.trace = dict(st.mem), list(st.pc), dict(st.model), list(st.inputs), st.steps, list(st.wit), list(st.trace)
        # the objects of st are shared now: neither may write them in place
        self.nstate += 1
        st.id = self.nstate
        return n

    def values(self, st):
        return [st.model.get(v.decl().name(), 0) for v in st.inputs]

    def report(self, st, msg):
        fn = next((f.fn.name for f in reversed(st.frames)), '?')
        self.bugs.append({'what': msg, 'function': fn, 'stack': [f.fn.name for f in st.frames], 'values': self.values(st)})

    def run(self, fname):
        work = [self.start(fname)]
        while work:
            if time.time() - T0 > self.limit:
                self.complete = False
                self.reasons.add('time budget exhausted with %d states pending' % len(work))
                break
            if len(self.bugs) >= 4:
                self.complete = False
                self.reasons.add('stopped after %d counterexamples' % len(self.bugs))
                break
            st = work.pop()
            try:
                self.path(st)
                self.paths += 1
                for w in st.wit:
                    self.witness.setdefault(w, self.values(st))
            except Fork as f:
                c, k, r = f.cond
                o = self.clone(st)
                st.pc.append(c if k else z3.simplify(z3.Not(c)))
                o.pc.append(z3.simplify(z3.Not(c)) if k else c)
                o.model.update(r)
                work.append(o)
                work.append(st)
            except PathEnd:
                pass
            except Bug as b:
                self.paths += 1
                self.report(st, str(b))
            except Unsupported as u:
                self.complete = False
                self.reasons.add('unsupported: %s in %s' % (u, st.frames[-1].fn.name if st.frames else '?'))

    def path(self, st):
        self.cur = st
        handlers = self.H
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.ip]
            st.steps += 1
            self.instrs += 1
            if st.steps > self.max_steps:
                raise Bug('does not terminate (more than %d steps)' % self.max_steps)
            if st.steps & 4095 == 0 and time.time() - T0 > self.limit:
                raise Unsupported('time budget exhausted')
            if handlers[ins[0]](self, st, fr, fr.regs, ins):
                continue
            fr.ip += 1

    def goto(self, fr, label):
        fr.prev, fr.blk = fr.blk, label
        fr.code = fr.fn.blocks[label]
        fr.ip = 0
        # the phi nodes of a block are evaluated together
        regs = fr.regs
        new = []
        for ins in fr.code:
            if ins[0] != 'phi':
                break
            k, v = ins[2][fr.prev]
            new.append((ins[1], regs[v] if k else v))
        for d, v in new:
            regs[d] = v
        fr.ip = len(new)

    def i_load(self, st, fr, regs, ins):
        k, v = ins[3]
        regs[ins[1]] = self.load(st, regs[v] if k else v, ins[2])

    def i_store(self, st, fr, regs, ins):
        k, v = ins[2]
        v = regs[v] if k else v
        k, p = ins[3]
        self.store(st, regs[p] if k else p, ins[1], v)

    def i_alloca(self, st, fr, regs, ins):
        k, n = ins[3]
        n = regs[n] if k else n
        oid = self.new_obj(st.mem, ins[2].size * self.concrete(st, n), 'local of ' + fr.fn.name, 's', st.id)
        fr.stack.append(oid)
        regs[ins[1]] = Ptr(oid, 0)

    def i_gep(self, st, fr, regs, ins):
        k, p = ins[2]
        p = regs[p] if k else p
        off = ins[3]
        for (kk, v), sc, w in ins[4]:
            v = regs[v] if kk else v
            if isinstance(v, int):
                if v >> (w - 1):
                    v -= 1 << w
                off = off + v * sc
            elif isinstance(v, Ptr):
                raise Unsupported('pointer as an index')
            elif v is None:
                raise Bug('uninitialised index')
            else:
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                off = v * sc + off if sc != 1 else v + off
        regs[ins[1]] = self.padd(p, off)

    def padd(self, p, off):
        if isinstance(p, Ptr):
            if isinstance(off, int) and off == 0:
                return p
            o = p.off + off
            if isinstance(o, int):
                o &= MASK[64]
                if o >> 63:
                    o -= 1 << 64
            else:
                o = z3.simplify(o)
                if z3.is_bv_value(o):
                    o = o.as_signed_long()
            return Ptr(p.obj, o)
        if isinstance(p, int):
            if isinstance(off, int):
                return (p + off) & MASK[64]
            raise Unsupported('symbolic offset of an integer address')
        if p is None:
            return None
        raise Unsupported('address arithmetic')

    def i_icmp(self, st, fr, regs, ins):
        _, dst, pred, ty, (ka, a), (kb, b) = ins
        if ka:
            a = regs[a]
        if kb:
            b = regs[b]
        regs[dst] = self.cmp(st, pred, ty, a, b)

    def cmp(self, st, pred, ty, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                w = ty.n
                h = 1 << (w - 1)
                a, b = (a ^ h) - h, (b ^ h) - h
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if a is None or b is None:
            w = 64 if ty.k == 'p' else ty.n
            a = self.fresh_var(st, w) if a is None else a
            b = self.fresh_var(st, w) if b is None else b
            if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
                raise Unsupported('comparison with an uninitialised pointer')
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return int(eq == (pred == 'eq'))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                x, y = a.off, b.off
                if isinstance(x, int) and isinstance(y, int):
                    p = pred if pred in ('eq', 'ne') else pred[1:]
                    return int(x == y if p == 'eq' else x != y if p == 'ne' else x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)
                a, b = x, y
                pred = pred if pred in ('eq', 'ne') else 's' + pred[1:]
                ty = I64
            else:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                return self.cmp(st, pred, I64, self.addr(st, a), self.addr(st, b))
        w = 64 if ty.k == 'p' else ty.n
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            return z3.simplify(a == b if pred == 'eq' else a != b)
        a, b = self.bv(a, w), self.bv(b, w)
        if pred == 'eq':
            c = a == b
        elif pred == 'ne':
            c = a != b
        elif pred[0] == 's':
            c = {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
        else:
            c = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pred](a, b)
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        return c

    def addr(self, st, v):
        if isinstance(v, Ptr):
            return (st.mem[v.obj].base if v.obj in st.mem else 0xdead0000) + v.off
        return v

    def tobool(self, v):
        if isinstance(v, int):
            return z3.BoolVal(bool(v & 1))
        if z3.is_bool(v):
            return v
        return v == 1

    def bv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def i_jmp(self, st, fr, regs, ins):
        self.goto(fr, ins[1])
        return True

    def i_br(self, st, fr, regs, ins):
        k, c = ins[1]
        c = regs[c] if k else c
        if c is None:
            c = self.fresh_var(st, 8) == 0
            regs[ins[1][1]] = c
        self.goto(fr, ins[2] if self.branch(st, c) else ins[3])
        return True

    def i_switch(self, st, fr, regs, ins):
        k, v = ins[2]
        v = regs[v] if k else v
        if isinstance(v, int):
            for c, l in ins[4]:
                if c == v:
                    self.goto(fr, l)
                    return True
            self.goto(fr, ins[3])
            return True
        for c, l in ins[4]:
            if self.branch(st, v == c):
                self.goto(fr, l)
                return True
        self.goto(fr, ins[3])
        return True

    def i_ret(self, st, fr, regs, ins):
        v = None
        if ins[1] is not None:
            k, v = ins[1]
            v = regs[v] if k else v
        st.frames.pop()
        for oid in fr.stack:
            del st.mem[oid]
        if st.frames:
            c = st.frames[-1]
            if fr.dst is not None:
                c.regs[fr.dst] = v
            c.ip += 1
        return True

    def i_unreachable(self, st, fr, regs, ins):
        raise Bug('unreachable code executed')

    def i_nop(self, st, fr, regs, ins):
        pass

    def i_phi(self, st, fr, regs, ins):
        raise Unsupported('phi in the entry block')

    def i_unsupported(self, st, fr, regs, ins):
        raise Unsupported(ins[1])

    def i_select(self, st, fr, regs, ins):
        _, dst, ty, (kc, c), (ka, a), (kb, b) = ins
        if kc:
            c = regs[c]
        if ka:
            a = regs[a]
        if kb:
            b = regs[b]
        if isinstance(c, int):
            regs[dst] = a if c else b
        elif ty.k == 'p' or a is None or b is None or isinstance(a, Ptr) or isinstance(b, Ptr):
            regs[dst] = a if self.branch(st, c) else b
        elif ty.n == 1:
            regs[dst] = z3.simplify(z3.If(self.tobool(c), self.tobool(a), self.tobool(b)))
        else:
            regs[dst] = z3.simplify(z3.If(self.tobool(c), self.bv(a, ty.n), self.bv(b, ty.n)))

    def i_cast(self, st, fr, regs, ins):
        _, dst, op, ty, to, (k, v) = ins
        if k:
            v = regs[v]
        if v is None:
            if op in ('bitcast', 'ptrtoint', 'inttoptr') or ty.k != 'i':
                regs[dst] = None
                return
            v = self.fresh_var(st, ty.n)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            pass
        elif isinstance(v, int):
            if op == 'trunc':
                v &= MASK[to.n]
            elif op == 'sext' and v >> (ty.n - 1):
                v |= MASK[to.n] ^ MASK[ty.n]
        elif isinstance(v, Ptr):
            if op == 'trunc':
                v = self.addr(st, v) & MASK[to.n]
        elif z3.is_bool(v):
            if op == 'zext':
                v = z3.If(v, z3.BitVecVal(1, to.n), z3.BitVecVal(0, to.n))
            elif op == 'sext':
                v = z3.If(v, z3.BitVecVal(-1, to.n), z3.BitVecVal(0, to.n))
        else:
            if op == 'zext':
                v = z3.ZeroExt(to.n - ty.n, v)
            elif op == 'sext':
                v = z3.SignExt(to.n - ty.n, v)
            else:
                v = z3.simplify(z3.Extract(to.n - 1, 0, v))
                if to.n == 1:
                    v = z3.simplify(v == 1)
                if z3.is_bv_value(v):
                    v = v.as_long()
        regs[dst] = v

    def i_bin(self, st, fr, regs, ins):
        _, dst, op, ty, (ka, a), (kb, b), nsw = ins
        if ka:
            a = regs[a]
        if kb:
            b = regs[b]
        w = ty.n
        if isinstance(a, int) and isinstance(b, int):
            if nsw:
                h = 1 << (w - 1)
                x, y = (a ^ h) - h, (b ^ h) - h
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else 0
                if not -h <= r < h:
                    raise Bug('signed overflow')
            regs[dst] = self.ibin(op, a, b, w)
            return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    r = a.off - b.off
                    r = r & MASK[64] if isinstance(r, int) else z3.simplify(r)
                    if not isinstance(r, int) and z3.is_bv_value(r):
                        r = r.as_long()
                    regs[dst] = r
                    return
                regs[dst] = (self.addr(st, a) - self.addr(st, b)) & MASK[64]
                return
            if op in ('add', 'sub') and isinstance(a, Ptr):
                regs[dst] = self.padd(a, b if op == 'add' else -b)
                return
            if op == 'add':
                regs[dst] = self.padd(b, a)
                return
            a, b = self.addr(st, a), self.addr(st, b)
            if isinstance(a, int) and isinstance(b, int):
                regs[dst] = self.ibin(op, a, b, w)
                return
        if a is None:
            a = self.fresh_var(st, w) if w > 1 else self.fresh_var(st, 8) == 0
        if b is None:
            b = self.fresh_var(st, w) if w > 1 else self.fresh_var(st, 8) == 0
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            r = z3.simplify(z3.And(a, b) if op in ('and', 'mul') else z3.Or(a, b) if op == 'or' else z3.Xor(a, b))
            regs[dst] = 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
            return
        a, b = self.bv(a, w), self.bv(b, w)
        if nsw and op in ('add', 'sub', 'mul'):
            x, y = z3.SignExt(w, a), z3.SignExt(w, b)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            bad = z3.simplify(r != z3.SignExt(w, z3.Extract(w - 1, 0, r)))
            self.check(st, bad, 'signed overflow')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.check(st, z3.simplify(b == 0), 'division by zero')
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b), 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()
        r = z3.simplify(r)
        regs[dst] = r.as_long() if z3.is_bv_value(r) else r

    def check(self, st, bad, msg):
        """report msg if bad is possible on this path; the path goes on with not bad"""
        if z3.is_false(bad):
            return
        self.assert_queries += 1
        r = self.sol.solve(st.pc, bad)
        if r is None:
            return
        m = st.model
        st.model = dict(m)
        st.model.update(r)
        raise Bug(msg)

    def ibin(self, op, a, b, w):
        M = MASK[w]
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                raise Bug('shift by %d' % b)
            if op == 'shl':
                return (a << b) & M
            if op == 'lshr':
                return a >> b
            h = 1 << (w - 1)
            return (((a ^ h) - h) >> b) & M
        if b == 0:
            raise Bug('division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        h = 1 << (w - 1)
        x, y = (a ^ h) - h, (b ^ h) - h
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q & M) if op == 'sdiv' else ((x - q * y) & M)

    def i_extractvalue(self, st, fr, regs, ins):
        k, a = ins[2]
        a = regs[a] if k else a
        if isinstance(a, tuple) and a[:1] == ('agg',):
            a = [x for _, x in a[1]]
        regs[ins[1]] = a[ins[3]]

    def i_insertvalue(self, st, fr, regs, ins):
        (k, a), (kb, b) = ins[2], ins[3]
        a = regs[a] if k else a
        if isinstance(a, tuple) and a[:1] == ('agg',):
            a = [x for _, x in a[1]]
        a = list(a) if isinstance(a, list) else [a if isinstance(a, int) else None] * ins[5]
        a[ins[4]] = regs[b] if kb else b
        regs[ins[1]] = a

    def i_call(self, st, fr, regs, ins):
        _, dst, rty, fn, args = ins
        if not isinstance(fn, str):
            v = regs[fn[1]]
            if not isinstance(v, Fn):
                raise Bug('call through an invalid function pointer')
            fn = v.name
        a = [regs[v] if k else v for _, (k, v) in args]
        b = BUILTIN.get(fn)
        if b is None and fn.startswith('llvm.'):
            b = BUILTIN.get(re.sub(r'(\.p0|\.i\d+)+$', '', fn))
            if b is None:
                raise Unsupported(fn)
        if b is not None:
            r = b(self, st, a, args)
            if dst is not None:
                regs[dst] = r
            return False
        if fn in self.m.fn_lines:
            self.push(st, fn, a, dst)
            return True
        if fn.startswith(('coap_log_', 'printf', 'puts', 'putchar', 'fflush', 'perror')):
            if dst is not None:
                regs[dst] = 0
            return False
        raise Unsupported('call of %s' % fn)

    # ---- helpers for the built-in functions
    def getb(self, st, p, k):
        return self.load(st, self.padd(p, k), I8)

    def putb(self, st, p, k, v):
        self.store(st, self.padd(p, k), I8, v)

    def cstr(self, st, p):
        """the bytes of a C string (forks on bytes that may or may not be the terminator)"""
        r = []
        while True:
            b = self.getb(st, p, len(r))
            if isinstance(b, int):
                if b == 0:
                    return r
            elif self.branch(st, b == 0):
                return r
            r.append(b)

    def text(self, st, p):
        return ''.join(chr(b) for b in self.cstr(st, p))


Engine.H = {k[2:]: v for k, v in Engine.__dict__.items() if k.startswith('i_')}


# ---------------------------------------------------------------- built-in functions
def nd(w):
    def f(e, st, a, args):
        v = e.fresh(st, w)
        e.vars[v.decl().name()] = w
        return v
    return f


def b_assert(e, st, a, args):
    c = a[0]
    e.asserts += 1
    if not isinstance(c, int):
        c = z3.simplify(c == 0 if z3.is_bv(c) else z3.Not(c))
        e.check(st, c, 'VP: ' + e.text(st, a[1]))
    elif not c:
        raise Bug('VP: ' + e.text(st, a[1]))


def b_assume(e, st, a, args):
    e.assume(st, a[0])


def b_witness(e, st, a, args):
    t = e.text(st, a[0])
    if t not in st.wit:
        st.wit.append(t)


def b_malloc(e, st, a, args):
    n = e.concrete(st, a[0])
    if n > 1 << 24:
        return 0
    return Ptr(e.new_obj(st.mem, n, 'heap block of %d bytes' % n, 'h', st.id), 0)


def b_free(e, st, a, args):
    p = a[0]
    if p == 0:
        return
    if not isinstance(p, Ptr) or p.obj not in st.mem or not st.mem[p.obj].alive or st.mem[p.obj].kind != 'h' or p.off != 0:
        raise Bug('invalid free')
    o = e.wobj(st, st.mem[p.obj], p.obj)
    o.alive = False
    o.data = []
    o.size = 0


def b_objsize(e, st, a, args):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj not in st.mem or not st.mem[p.obj].alive or st.mem[p.obj].kind != 'h' or p.off != 0:
        raise Bug('invalid realloc')
    return st.mem[p.obj].size


def copyrange(e, st, d, s, n):
    if n == 0:
        return
    so, soff, _ = e.locate(st, s, n, 'read')
    do, doff, did = e.locate(st, d, n, 'write')
    do = e.wobj(st, do, did)
    do.data[doff:doff + n] = so.data[soff:soff + n]


def b_memcpy(e, st, a, args):
    n = e.concrete(st, a[2])
    copyrange(e, st, a[0], a[1], n)
    return a[0]


def b_memcpy_apart(e, st, a, args):
    n = e.concrete(st, a[2])
    if n > 0:
        so, soff, sid = e.locate(st, a[1], n, 'read')
        do, doff, did = e.locate(st, a[0], n, 'write')
        if sid == did and isinstance(soff, int) and isinstance(doff, int) and soff != doff and abs(soff - doff) < n:
            raise Bug('memcpy between overlapping regions')
    return b_memcpy(e, st, a, args)


def b_memset(e, st, a, args):
    n = e.concrete(st, a[2])
    if n == 0:
        return a[0]
    v = a[1]
    if not isinstance(v, int) and v is not None and v.size() > 8:
        v = z3.simplify(z3.Extract(7, 0, v))
    o, off, oid = e.locate(st, a[0], n, 'write')
    o = e.wobj(st, o, oid)
    o.data[off:off + n] = [v & 255 if isinstance(v, int) else v] * n
    return a[0]


def b_strlen(e, st, a, args):
    return len(e.cstr(st, a[0]))


def b_strchr(e, st, a, args):
    p, c = a[0], a[1]
    if not isinstance(c, int):
        c = z3.simplify(z3.Extract(7, 0, c))
    else:
        c &= 255
    k, hit, off = 0, [], None
    while True:
        b = e.getb(st, p, k)
        if isinstance(b, int) and isinstance(c, int):
            if b == c:
                break
        elif isinstance(b, int) and k == len(hit) and k < 32:
            hit.append(b)                       # text that is constant so far, looked up together below
        elif e.branch(st, b == c):
            break
        if b == 0 if isinstance(b, int) else e.branch(st, b == 0):
            if len(hit) != k + 1:
                return 0
            if not e.branch(st, z3.Or([c == h for h in hit])):
                return 0
            off = z3.BitVecVal(k, 64)
            for i in range(k - 1, -1, -1):
                off = z3.If(c == hit[i], z3.BitVecVal(i, 64), off)
            return e.padd(p, z3.simplify(off))
        k += 1
    return e.padd(p, k)


def b_snprintf(e, st, a, args):
    buf, size, fmt = a[0], e.concrete(st, a[1]), e.text(st, a[2])
    out, k, i = [], 3, 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c != '%':
            out.append(ord(c))
            continue
        m = re.match(r'(0?)(\d*)(?:\.(\*|\d+))?(l|z|ll|h|hh)?([a-zA-Z%])', fmt[i:])
        i += m.end()
        cv = m.group(5)
        if cv == '%':
            out.append(37)
            continue
        if m.group(3) is not None:
            raise Unsupported('precision in a format')
        v = a[k]
        k += 1
        if cv == 's':
            s = e.cstr(st, v)
        else:
            w = 64 if m.group(4) in ('l', 'z', 'll') else 32
            v = e.concrete(st, v) & MASK[w]
            if cv == 'd' and v >> (w - 1):
                v -= 1 << w
            if cv == 'c':
                s = [v & 255]
            elif cv in 'dux':
                s = [ord(x) for x in ('%x' if cv == 'x' else '%d') % v]
            else:
                raise Unsupported('conversion ' + cv)
        if m.group(2):
            s = [48 if m.group(1) else 32] * (int(m.group(2)) - len(s)) + s
        out += s
    for j, b in enumerate(out[:max(size - 1, 0)]):
        e.putb(st, buf, j, b)
    if size > 0:
        e.putb(st, buf, min(len(out), size - 1), 0)
    return len(out)


def digits(e, st, b, base):
    """value of a digit or None; forks on the value of a symbolic byte"""
    if not isinstance(b, int):
        if e.branch(st, z3.And(b >= 48, b <= 57)):
            b = e.concrete(st, b)
        elif base == 16 and e.branch(st, z3.Or(z3.And(b >= 65, b <= 70), z3.And(b >= 97, b <= 102))):
            b = e.concrete(st, b)
        else:
            return None
    c = chr(b)
    if c.isascii() and c.isdigit() and int(c) < base:
        return int(c)
    if base == 16 and c in 'abcdefABCDEF':
        return int(c, 16)
    return None


def isv(e, st, b, ch):
    return b == ord(ch) if isinstance(b, int) else e.branch(st, b == ord(ch))


def sps(e, st, b):
    if isinstance(b, int):
        return b == 32 or 9 <= b <= 13
    return e.branch(st, z3.Or(b == 32, z3.And(b >= 9, b <= 13)))


def number(e, st, p, k, base):
    """(value, index behind it) or None"""
    while sps(e, st, e.getb(st, p, k)):
        k += 1
    neg = False
    if isv(e, st, e.getb(st, p, k), '-'):
        neg = True
        k += 1
    elif isv(e, st, e.getb(st, p, k), '+'):
        k += 1
    if base in (0, 16) and isv(e, st, e.getb(st, p, k), '0'):
        x = e.getb(st, p, k + 1)
        if (isv(e, st, x, 'x') or isv(e, st, x, 'X')) and digits(e, st, e.getb(st, p, k + 2), 16) is not None:
            k += 2
            base = 16
    if base == 0:
        base = 8 if isv(e, st, e.getb(st, p, k), '0') else 10
    v, n = 0, 0
    while True:
        d = digits(e, st, e.getb(st, p, k), base)
        if d is None:
            break
        v = v * base + d
        k += 1
        n += 1
    return (-v if neg else v, k) if n else None


def strto(signed):
    def f(e, st, a, args):
        base = a[2]
        r = number(e, st, a[0], 0, base)
        v, k = r if r else (0, 0)
        if a[1] != 0:
            e.store(st, a[1], PTR, e.padd(a[0], k))
        if signed:
            v = max(-(1 << 63), min((1 << 63) - 1, v))
        elif abs(v) > MASK[64]:
            v = MASK[64]
        return v & MASK[64]
    return f


def b_atoi(e, st, a, args):
    r = number(e, st, a[0], 0, 10)
    v = r[0] if r else 0
    v = max(-(1 << 63), min((1 << 63) - 1, v))
    return v & MASK[32]


def b_sscanf(e, st, a, args):
    fmt = e.text(st, a[1])
    j, r, k, i = 0, 0, 2, 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c.isspace():
            while sps(e, st, e.getb(st, a[0], j)):
                j += 1
            continue
        if c != '%':
            if not isv(e, st, e.getb(st, a[0], j), c):
                return MASK[32] if r == 0 and isv(e, st, e.getb(st, a[0], j), '\0') else r
            j += 1
            continue
        cv = fmt[i]
        i += 1
        if cv not in 'dux':
            raise Unsupported('scanf conversion ' + cv)
        n = number(e, st, a[0], j, 16 if cv == 'x' else 10)
        if n is None:
            q = j
            while sps(e, st, e.getb(st, a[0], q)):
                q += 1
            return MASK[32] if r == 0 and isv(e, st, e.getb(st, a[0], q), '\0') else r
        v, j = n
        v = max(-(1 << 63), min(MASK[64], v))
        e.store(st, a[k], I32, v & MASK[32])
        k += 1
        r += 1
    return r


def b_errno(e, st, a, args):
    if 'errno!' not in e.gptr:
        raise Unsupported('errno')
    return e.gptr['errno!']


def b_minmax(f, signed):
    def g(e, st, a, args):
        w = args[0][0].n
        if all(isinstance(x, int) for x in a[:2]):
            h = 1 << (w - 1)
            s = (lambda x: (x ^ h) - h) if signed else (lambda x: x)
            return f(s(a[0]), s(a[1])) & MASK[w]
        x, y = e.bv(a[0], w), e.bv(a[1], w)
        lt = (x < y) if signed else z3.ULT(x, y)
        return z3.If(lt, x, y) if f is min else z3.If(lt, y, x)
    return g


def b_bswap(e, st, a, args):
    w = args[0][0].n
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    return z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(w // 8)]))


def b_fsh(left):
    def g(e, st, a, args):
        w = args[0][0].n
        x, y, n = e.bv(a[0], w), e.bv(a[1], w), e.bv(a[2], w)
        c, n = z3.Concat(x, y), z3.ZeroExt(w, z3.URem(n, z3.BitVecVal(w, w)))
        v = z3.simplify(z3.Extract(2 * w - 1, w, c << n) if left else z3.Extract(w - 1, 0, z3.LShR(c, n)))
        return v.as_long() if z3.is_bv_value(v) else v
    return g


def b_abs(e, st, a, args):
    w = args[0][0].n
    if isinstance(a[0], int):
        h = 1 << (w - 1)
        return abs((a[0] ^ h) - h) & MASK[w]
    return z3.If(a[0] < 0, -a[0], a[0])


def b_sat(op):
    def g(e, st, a, args):
        w = args[0][0].n
        if all(isinstance(x, int) for x in a[:2]):
            return max(a[0] - a[1], 0) if op == 'sub' else min(a[0] + a[1], MASK[w])
        x, y = e.bv(a[0], w), e.bv(a[1], w)
        return z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y) if op == 'sub' else z3.If(z3.ULT(x + y, x), z3.BitVecVal(MASK[w], w), x + y)
    return g


BUILTIN = {
    'llvm.bswap': b_bswap, 'llvm.fshl': b_fsh(True), 'llvm.fshr': b_fsh(False), 'llvm.abs': b_abs, 'llvm.usub.sat': b_sat('sub'), 'llvm.uadd.sat': b_sat('add'),
    'vrt_sym_u8': nd(8), 'vrt_sym_u16': nd(16), 'vrt_sym_u32': nd(32), 'vrt_sym_u64': nd(64),
    '__sanitizer_get_allocated_size': lambda e, st, a, args: e.locate(st, a[0], 0, 'size')[0].size,
    'vrt_sym_assert': b_assert, 'vrt_sym_assume': b_assume, 'vrt_sym_witness': b_witness,
    'malloc': b_malloc, 'vrt_sym_objsize': b_objsize, 'free': b_free, 'memcpy': b_memcpy_apart, 'memmove': b_memcpy, 'memset': b_memset, 'strlen': b_strlen, 'strchr': b_strchr,
    'llvm.memcpy': b_memcpy_apart, 'llvm.memmove': b_memcpy, 'llvm.memset': b_memset,
    'snprintf': b_snprintf, 'strtoul': strto(False), 'strtol': strto(True), '__isoc23_strtoul': strto(False), '__isoc23_strtol': strto(True),
    'atoi': b_atoi, 'sscanf': b_sscanf, '__isoc99_sscanf': b_sscanf, '__isoc23_sscanf': b_sscanf, '__errno_location': b_errno,
    'llvm.smin': b_minmax(min, True), 'llvm.smax': b_minmax(max, True), 'llvm.umin': b_minmax(min, False), 'llvm.umax': b_minmax(max, False),
    'llvm.expect': lambda e, st, a, args: a[0],
}


def main():
    limit = float(sys.argv[sys.argv.index('--time') + 1]) if '--time' in sys.argv else 600
    steps = int(sys.argv[sys.argv.index('--steps') + 1]) if '--steps' in sys.argv else 400000
    e = Engine(open(sys.argv[1]).read(), limit, steps)
    e.gptr['errno!'] = Ptr(e.new_obj(e.base_mem, 4, 'errno', 'g', -1, fill=0), 0)
    for o in e.base_mem.values():
        o.owner = -1
    e.run('harness')
    json.dump({'complete': e.complete, 'reasons': sorted(e.reasons), 'bugs': e.bugs, 'witness': e.witness, 'paths': e.paths, 'instrs': e.instrs,
               'asserts': e.asserts, 'assert_queries': e.assert_queries, 'queries': e.sol.queries, 'cache_hits': e.sol.hits,
               'solver_s': e.sol.time, 'wall_s': time.time() - T0, 'functions': sorted(e.touched)}, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    main()

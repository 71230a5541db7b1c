"""Parser for the textual LLVM-18 IR that clang emits for the code under analysis.

Only the subset clang produces at -O0 (+ sroa) for this C-like code base is
accepted; anything else raises IRError, so that unknown constructs are never
silently skipped.
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<comment>;[^\n]*)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|^])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token? %r' % s[i:i + 40])
        k = m.lastgroup
        if k not in ('ws', 'comment'):
            out.append((k, m.group()))
        i = m.end()
    return out

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'packed')
    def __init__(self, k, a=None, b=None, packed=False):
        self.k, self.a, self.b, self.packed = k, a, b, packed
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named': return '%' + self.a
        return self.k
    def __eq__(self, o): return repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

I1 = Ty('int', 1); I8 = Ty('int', 8); I32 = Ty('int', 32); I64 = Ty('int', 64)
PTR = Ty('ptr'); DBL = Ty('double'); VOID = Ty('void')
FLOATS = {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

class Const:
    """constant operand: kind in int,float,null,undef,zero,glob,gep,cast,agg,str,bin"""
    __slots__ = ('k', 'ty', 'v', 'x')
    def __init__(self, k, ty, v=None, x=None):
        self.k, self.ty, self.v, self.x = k, ty, v, x
    def __repr__(self): return '<%s %r %r>' % (self.k, self.ty, self.v)

class Loc:
    __slots__ = ('name', 'ty')
    def __init__(self, name, ty): self.name, self.ty = name, ty
    def __repr__(self): return '%' + self.name

class Ins:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'blk', 'idx')
    def __init__(self, op, res, ty, ops, x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.dbg = None; self.blk = None; self.idx = 0
    def __repr__(self): return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.ops, self.x)

class Block:
    __slots__ = ('name', 'ins', 'succ', 'phis', 'body')
    def __init__(self, name): self.name = name; self.ins = []; self.succ = []; self.phis = []; self.body = []

class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.order = []
        self.vararg = False; self.decl = False; self.dbg = None; self.module = None; self.attrs = ''
        self.internal = False

class Global:
    def __init__(self, name): self.name = name; self.ty = None; self.init = None; self.const = False; self.internal = False; self.dbg = None; self.module = None

# ---------------------------------------------------------------- parser
LINKAGE = {'private', 'internal', 'external', 'weak', 'weak_odr', 'linkonce', 'linkonce_odr', 'common',
           'appending', 'available_externally', 'extern_weak', 'dso_local', 'dso_preemptable', 'unnamed_addr',
           'local_unnamed_addr', 'hidden', 'default', 'protected', 'thread_local', 'externally_initialized'}
PATTR = {'noundef', 'signext', 'zeroext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'nonnull', 'noalias',
         'immarg', 'returned', 'inreg', 'nest', 'swiftself', 'allocptr', 'nofree', 'noreturn', 'nounwind', 'inrange'}
PATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'align', 'elementtype', 'range'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'nneg', 'disjoint', 'samesign'}

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')
    def next(self):
        t = self.peek(); self.i += 1; return t
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str': self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))
    def skip_paren(self):
        self.exp('('); d = 1
        while d:
            v = self.next()
            if v[0] == 'eof': raise IRError('eof')
            if v[1] == '(': d += 1
            elif v[1] == ')': d -= 1
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i[0-9]+', v): ty = Ty('int', int(v[1:]))
            elif v in FLOATS: ty = Ty(v)
            elif v == 'ptr':
                ty = PTR
                if self.peek()[1] == 'addrspace': self.next(); self.skip_paren()
            elif v == 'void': ty = VOID
            elif v in ('label', 'metadata', 'token', 'opaque'): ty = Ty(v)
            else: raise IRError('type %r' % v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); ty = Ty('arr', n, e)
        elif v == '<':
            if self.acc('{'):
                ty = self.struct(True); self.exp('>')
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); ty = Ty('vec', n, e)
        elif v == '{': ty = self.struct(False)
        elif k == 'local': ty = Ty('named', unq(v))
        else: raise IRError('type %r' % ((k, v),))
        while self.peek()[1] == '(':      # function type
            self.next(); ps = []; va = False
            while not self.acc(')'):
                if self.acc('...'): va = True
                else: ps.append(self.type())
                self.acc(',')
            ty = Ty('fn', (ty, ps, va))
        return ty
    def struct(self, packed):
        fs = []
        while not self.acc('}'):
            fs.append(self.type()); self.acc(',')
        return Ty('struct', fs, None, packed)
    def pattrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTR: self.next()
            elif k == 'word' and v in PATTR_PAREN:
                self.next()
                if self.peek()[1] == '(': self.skip_paren()
                else: self.next()
            elif k == 'str': self.next()
            else: return
    def typed(self):
        ty = self.type()
        if ty.k == 'metadata':
            # skip metadata operand
            self.skip_meta(); return Const('meta', ty)
        self.pattrs()
        return self.value(ty)
    def skip_meta(self):
        k, v = self.peek()
        if k == 'meta':
            self.next()
            if self.peek()[1] == '(': self.skip_paren()
            elif v == '!' and self.peek()[1] == '{':
                d = 0
                while True:
                    w = self.next()[1]
                    if w == '{': d += 1
                    elif w == '}':
                        d -= 1
                        if not d: return
        else:
            self.typed()
    def value(self, ty):
        k, v = self.next()
        if k == 'local': return Loc(unq(v), ty)
        if k == 'glob': return Const('glob', ty, unq(v))
        if k == 'num':
            if ty.k == 'int': return Const('int', ty, int(v, 0) if not v.startswith('0x') else int(v, 16))
            if ty.k in FLOATS: return Const('float', ty, parse_float(v))
            raise IRError('num of %r' % ty)
        if k == 'cstr': return Const('str', ty, parse_cstr(v))
        if k == 'word':
            if v == 'true': return Const('int', ty, 1)
            if v == 'false': return Const('int', ty, 0)
            if v == 'null': return Const('null', ty)
            if v in ('undef', 'poison'): return Const('undef', ty)
            if v == 'zeroinitializer': return Const('zero', ty)
            if v == 'getelementptr':
                while self.peek()[1] in FLAGS: self.next()
                self.exp('('); bt = self.type(); self.exp(',')
                ops = []
                while not self.acc(')'):
                    self.acc('inrange'); ops.append(self.typed()); self.acc(',')
                return Const('gep', ty, ops, bt)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); a = self.typed(); self.exp('to'); t2 = self.type(); self.exp(')')
                return Const('cast', t2, a, v)
            if v in ('sub', 'add', 'mul', 'and', 'xor', 'shl'):
                while self.peek()[1] in FLAGS: self.next()
                self.exp('('); a = self.typed(); self.exp(','); b = self.typed(); self.exp(')')
                return Const('bin', ty, (v, a, b))
        if v == '{' or v == '[' or v == '<':
            end = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.acc('{'):
                es = []
                while not self.acc('}'): es.append(self.typed()); self.acc(',')
                self.exp('>'); return Const('agg', ty, es)
            es = []
            while not self.acc(end): es.append(self.typed()); self.acc(',')
            return Const('agg', ty, es)
        raise IRError('value %r %r of %r' % (k, v, ty))

def unq(v):
    v = v[1:]
    return v[1:-1] if v.startswith('"') else v

def parse_cstr(v):
    s = v[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)) if s[i + 1] != '\\' else out.append(92)
            i += 3 if s[i + 1] != '\\' else 2
        else:
            out.append(ord(s[i]) & 255) if ord(s[i]) < 256 else out.extend(s[i].encode()); i += 1
    return bytes(out)

def parse_float(v):
    import struct
    from fractions import Fraction
    if v.startswith('0xK'):
        h = int(v[3:], 16); se = h >> 64; man = h & ((1 << 64) - 1)
        s = -1 if se & 0x8000 else 1; e = se & 0x7fff
        if e == 0 and man == 0: return Fraction(0)
        if e == 0x7fff: return float('inf') * s
        return Fraction(s * man) * (Fraction(2) ** (e - 16383 - 63))
    if v.startswith('0x'):
        d = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
    else: d = float(v)
    if d != d or d in (float('inf'), float('-inf')): return d
    return Fraction(d)

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

class Module:
    def __init__(self, path, src=None):
        self.path = path; self.src = src
        self.types = {}; self.globals = {}; self.funcs = {}; self.meta = {}
        self.parse(open(path, errors='surrogateescape').read())

    def parse(self, txt):
        lines = txt.split('\n')
        i = 0
        for ln in lines:
            m = re.match(r'^(![0-9]+) = (?:distinct )?(.*)$', ln)
            if m: self.meta[m.group(1)] = m.group(2)
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                self.func(ln, lines[i + 1:j]); i = j + 1; continue
            if ln.startswith('declare'): self.func(ln, None)
            elif ln.startswith('@'): self.glob(ln)
            elif ln.startswith('%'):
                m = re.match(r'^%("[^"]*"|\S+) = type (.*)$', ln)
                if m:
                    p = P(tokenize(m.group(2)), self)
                    nm = m.group(1).strip('"')
                    self.types[nm] = Ty('opaque') if m.group(2).strip() == 'opaque' else p.type()
            i += 1

    def glob(self, ln):
        p = P(tokenize(ln), self)
        g = Global(unq(p.next()[1])); p.exp('=')
        while True:
            k, v = p.peek()
            if v in LINKAGE:
                if v in ('private', 'internal'): g.internal = True
                p.next()
                if v == 'thread_local' and p.peek()[1] == '(': p.skip_paren()
            elif v == 'addrspace': p.next(); p.skip_paren()
            else: break
        k, v = p.next()
        if v == 'alias' or v == 'ifunc': return
        if v not in ('global', 'constant'): raise IRError('global %r' % ln[:80])
        g.const = (v == 'constant')
        g.ty = p.type()
        if p.peek()[0] != 'eof' and p.peek()[1] != ',':
            g.init = p.value(g.ty)
        m = re.search(r'!dbg (![0-9]+)', ln)
        g.dbg = m.group(1) if m else None
        g.module = self
        self.globals[g.name] = g

    def func(self, head, body):
        m = re.search(r'!dbg (![0-9]+)', head)
        dbg = m.group(1) if m else None
        p = P(tokenize(re.sub(r'!dbg ![0-9]+', '', head)), self)
        p.next()
        f = Func(None); f.module = self; f.dbg = dbg
        while p.peek()[1] in LINKAGE or p.peek()[1] in ('noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'dereferenceable', 'align', 'ccc', 'fastcc'):
            k, v = p.next()
            if v == 'internal': f.internal = True
            if v == 'dereferenceable': p.skip_paren()
            if v == 'align': p.next()
        f.ret = p.type()
        f.name = unq(p.next()[1])
        p.exp('(')
        n = 0
        while not p.acc(')'):
            if p.acc('...'): f.vararg = True
            else:
                ty = p.type()
                if ty.k == 'metadata': f.params.append((None, ty))
                else:
                    p.pattrs()
                    if p.peek()[0] == 'local': f.params.append((unq(p.next()[1]), ty))
                    else: f.params.append((str(n), ty))
                n += 1
            p.acc(',')
        f.attrs = head
        f.decl = body is None
        if body is None:
            if f.name not in self.funcs: self.funcs[f.name] = f
            return
        self.funcs[f.name] = f
        cur = None
        # first block label: number after params unless named
        npar = len([q for q in f.params])
        first = None
        k = 0
        while k < len(body):
            ln = body[k]
            if not ln.strip(): k += 1; continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); k += 1; continue
            if cur is None:
                cur = Block(str(npar)); f.blocks[cur.name] = cur; f.order.append(cur.name)
            s = ln.strip()
            if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[', 1)[1]:
                while ']' not in body[k].split('[', 1)[-1] or body[k] is ln:
                    k += 1; s += ' ' + body[k].strip()
                    if body[k].strip().startswith(']'): break
            ins = self.ins(s, f)
            if ins is not None:
                ins.blk = cur.name; ins.idx = len(cur.ins); cur.ins.append(ins)
            k += 1
        for b in f.blocks.values():
            b.phis = [x for x in b.ins if x.op == 'phi']
            b.body = [x for x in b.ins if x.op != 'phi']
            t = b.ins[-1] if b.ins else None
            if t is None: raise IRError('empty block')
            if t.op == 'br': b.succ = list(t.x)
            elif t.op == 'switch': b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op in ('ret', 'unreachable', 'resume'): b.succ = []
            elif t.op == 'invoke': b.succ = [t.x[1]]
            else: raise IRError('terminator %r' % t)

    def ins(self, s, f):
        dbg = None
        m = re.search(r', !dbg (![0-9]+)', s)
        if m: dbg = m.group(1)
        if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s: return None
        s = re.sub(r'(, ![a-zA-Z._0-9]+ ![0-9]+)+\s*$', '', s)
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            res = unq(p.next()[1]); p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'): k, op = p.next()
        I = self._ins(op, res, p, s)
        I.dbg = dbg
        return I

    def _ins(self, op, res, p, s):
        if op in BIN:
            while p.peek()[1] in FLAGS: p.next()
            ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return Ins(op, res, ty, [a, b])
        if op == 'fneg':
            while p.peek()[1] in FLAGS: p.next()
            a = p.typed(); return Ins(op, res, a.ty, [a])
        if op in CAST:
            while p.peek()[1] in FLAGS: p.next()
            a = p.typed(); p.exp('to'); t = p.type(); return Ins(op, res, t, [a])
        if op == 'alloca':
            p.acc('inalloca'); ty = p.type(); n = None
            while p.acc(','):
                if p.peek()[1] == 'align': p.next(); p.next()
                elif p.peek()[1] == 'addrspace': p.next(); p.skip_paren()
                else: n = p.typed()
            return Ins(op, res, PTR, [n] if n else [], ty)
        if op == 'load':
            while p.peek()[1] in FLAGS or p.peek()[1] == 'atomic': p.next()
            ty = p.type(); p.exp(','); a = p.typed(); return Ins(op, res, ty, [a])
        if op == 'store':
            while p.peek()[1] in FLAGS or p.peek()[1] == 'atomic': p.next()
            v = p.typed(); p.exp(','); a = p.typed(); return Ins(op, res, VOID, [v, a])
        if op == 'getelementptr':
            while p.peek()[1] in FLAGS: p.next()
            bt = p.type(); ops = []
            while p.acc(','): ops.append(p.typed())
            return Ins(op, res, PTR, ops, bt)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in FLAGS: p.next()
            pred = p.next()[1]; ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return Ins(op, res, I1, [a, b], pred)
        if op == 'phi':
            while p.peek()[1] in FLAGS: p.next()
            ty = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(ty); p.exp(','); b = unq(p.next()[1]); p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            return Ins(op, res, ty, [], inc)
        if op == 'select':
            while p.peek()[1] in FLAGS: p.next()
            c = p.typed(); p.exp(','); a = p.typed(); p.exp(','); b = p.typed()
            return Ins(op, res, a.ty, [c, a, b])
        if op == 'br':
            if p.acc('label'): return Ins(op, None, VOID, [], [unq(p.next()[1])])
            c = p.typed(); p.exp(','); p.exp('label'); a = unq(p.next()[1]); p.exp(','); p.exp('label'); b = unq(p.next()[1])
            return Ins(op, None, VOID, [c], [a, b])
        if op == 'switch':
            v = p.typed(); p.exp(','); p.exp('label'); d = unq(p.next()[1]); p.exp('[')
            cs = []
            while not p.acc(']'):
                c = p.typed(); p.exp(','); p.exp('label'); cs.append((c.v, unq(p.next()[1])))
            return Ins(op, None, VOID, [v], (d, cs))
        if op == 'ret':
            if p.acc('void'): return Ins(op, None, VOID, [])
            return Ins(op, None, VOID, [p.typed()])
        if op == 'unreachable': return Ins(op, None, VOID, [])
        if op == 'resume': return Ins(op, None, VOID, [])
        if op == 'freeze':
            a = p.typed(); return Ins(op, res, a.ty, [a])
        if op == 'extractvalue':
            a = p.typed(); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            return Ins(op, res, None, [a], idx)
        if op == 'insertvalue':
            a = p.typed(); p.exp(','); v = p.typed(); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            return Ins(op, res, a.ty, [a, v], idx)
        if op == 'landingpad':
            return Ins(op, res, None, [])
        if op in ('call', 'invoke'):
            while p.peek()[1] in FLAGS or p.peek()[1] in ('ccc', 'fastcc'): p.next()
            p.pattrs()
            ty = p.type()
            if ty.k == 'fn': rt = ty.a[0]; va = ty.a[2]
            else: rt = ty; va = False
            k, v = p.next()
            if k == 'glob': callee = Const('glob', PTR, unq(v))
            elif k == 'local': callee = Loc(unq(v), PTR)
            elif v == 'asm': return Ins('asm', res, rt, [])
            else: raise IRError('callee %r' % s)
            p.exp('('); args = []
            while not p.acc(')'):
                args.append(p.typed()); p.acc(',')
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.exp('to'); p.exp('label'); n = unq(p.next()[1])
                return Ins('invoke', res, rt, args, (callee, n))
            return Ins('call', res, rt, args, callee)
        if op == 'va_arg':
            a = p.typed(); p.exp(','); t = p.type(); return Ins(op, res, t, [a])
        raise IRError('instruction %r' % s)

    # ------------------------------------------------------ layout
    def res(self, ty):
        while ty.k == 'named': ty = self.types[ty.a]
        return ty
    def sizeof(self, ty):
        ty = self.res(ty)
        if ty.k == 'int': return 1 if ty.a <= 8 else 2 if ty.a <= 16 else 4 if ty.a <= 32 else 8 if ty.a <= 64 else 16
        if ty.k in FLOATS: return FLOATS[ty.k]
        if ty.k == 'ptr': return 8
        if ty.k == 'arr': return ty.a * self.sizeof(ty.b)
        if ty.k == 'vec': return ty.a * self.sizeof(ty.b)
        if ty.k == 'struct': return self.layout(ty)[1]
        if ty.k == 'fn': return 8
        raise IRError('sizeof %r' % ty)
    def alignof(self, ty):
        ty = self.res(ty)
        if ty.k in ('arr',): return self.alignof(ty.b)
        if ty.k == 'struct': return 1 if ty.packed else max([1] + [self.alignof(t) for t in ty.a])
        return self.sizeof(ty)
    def layout(self, ty):
        off = 0; offs = []
        for t in ty.a:
            if not ty.packed:
                a = self.alignof(t); off = (off + a - 1) // a * a
            offs.append(off); off += self.sizeof(t)
        if not ty.packed:
            a = self.alignof(ty); off = (off + a - 1) // a * a
        return offs, off

    # ------------------------------------------------------ debug info
    def line(self, dbg):
        if not dbg: return None
        m = re.search(r'line: ([0-9]+)', self.meta.get(dbg, ''))
        return int(m.group(1)) if m else None
    def func_src(self, f):
        """(display name, file, line) from the DISubprogram"""
        md = self.meta.get(f.dbg or '', '')
        nm = re.search(r'name: "([^"]*)"', md); ln = re.search(r'line: ([0-9]+)', md); fl = re.search(r'file: (![0-9]+)', md)
        fn = None
        if fl:
            mm = re.search(r'filename: "([^"]*)"', self.meta.get(fl.group(1), ''))
            fn = mm.group(1).rsplit('/', 1)[-1] if mm else None
        return (nm.group(1) if nm else f.name, fn, int(ln.group(1)) if ln else None)

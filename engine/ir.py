"""Parser for the textual LLVM IR (opt -S, LLVM 18, opaque pointers) and the
small SSA utilities the checks share: def-use, cones, dominators, CFG."""
import re

class IRError(Exception):
    pass

# ----------------------------------------------------------------- tokenising
_OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}

def split_top(s, sep=','):
    """split s on sep at bracket depth 0, honouring quotes"""
    out, depth, cur, q = [], 0, [], False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur.append(c)
            if c == '"':
                q = False
        elif c == '"':
            q = True
            cur.append(c)
        elif c in '([{<':
            depth += 1
            cur.append(c)
        elif c in ')]}>':
            depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t or out:
        out.append(t)
    return out

_ATTR_WORDS = set('''noundef nonnull zeroext signext inreg nocapture readonly writeonly
readnone noalias immarg returned nofree nest swiftself allocalign allocptr writable
dead_on_unwind'''.split())

def take_type(s):
    """take a leading type from s; returns (type, rest)"""
    s = s.lstrip()
    if not s:
        raise IRError('type expected')
    if s[0] in '{[<':
        depth, i, q = 0, 0, False
        while i < len(s):
            c = s[i]
            if q:
                q = c != '"'
            elif c == '"':
                q = True
            elif c in '([{<':
                depth += 1
            elif c in ')]}>':
                depth -= 1
                if depth == 0:
                    i += 1
                    break
            i += 1
        ty, rest = s[:i], s[i:]
    elif s[0] == '%':
        m = re.match(r'%(?:"[^"]*"|[\w.$-]+)', s)
        ty, rest = m.group(0), s[m.end():]
    else:
        m = re.match(r'[a-z_][\w]*', s)
        if not m:
            raise IRError('bad type: ' + s[:60])
        ty, rest = m.group(0), s[m.end():]
    # function type suffix  "(...)" directly after
    r = rest.lstrip()
    if r.startswith('(') and ty not in ('ptr',):
        pass
    m = re.match(r'\s*addrspace\(\d+\)', rest)
    if m:
        rest = rest[m.end():]
    return ty, rest.lstrip()

def strip_attrs(s):
    """drop parameter attributes in front of a value"""
    s = s.lstrip()
    while True:
        m = re.match(r'([a-z_]+)\b(\([^()]*(?:\([^()]*\))?[^()]*\))?', s)
        if m and (m.group(1) in _ATTR_WORDS or
                  m.group(1) in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval',
                                 'sret', 'nofpclass', 'elementtype', 'byref', 'inalloca', 'range')):
            if m.group(1) == 'align' and not m.group(2):
                m2 = re.match(r'align \d+', s)
                s = s[m2.end():].lstrip()
            else:
                s = s[m.end():].lstrip()
        else:
            return s

def take_typed(s):
    """'type attrs value' -> (type, value)"""
    ty, rest = take_type(s)
    return ty, strip_attrs(rest).strip()

FLAGS = set('nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc disjoint nneg inbounds volatile samesign nusw'.split())

class Inst:
    __slots__ = ('name', 'op', 'type', 'ops', 'optypes', 'extra', 'block', 'text', 'idx', 'dbg', 'flags')
    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))
    def __repr__(self):
        return self.text.strip()
    # operands that are SSA data inputs
    def data_ops(self):
        return self.ops

class Block:
    def __init__(self, label):
        self.label = label
        self.insts = []
        self.preds = []
        self.succs = []

class Function:
    def __init__(self, name, rettype, args, attrs):
        self.name, self.rettype, self.args, self.attrs = name, rettype, args, attrs
        self.blocks = {}
        self.order = []
        self.defs = {}
        self.is_decl = False
        self._users = None
        self._idom = None
    @property
    def entry(self):
        return self.blocks[self.order[0]]
    def insts(self):
        for l in self.order:
            for i in self.blocks[l].insts:
                yield i
    def argnames(self):
        return [a[1] for a in self.args]
    # users
    def users(self, v):
        if self._users is None:
            u = {}
            for i in self.insts():
                for o in set(i.ops):
                    for n in value_names(o):
                        u.setdefault(n, []).append(i)
            self._users = u
        return self._users.get(v, [])
    def cfg(self):
        for b in self.blocks.values():
            b.preds, b.succs = [], []
        for l in self.order:
            b = self.blocks[l]
            t = b.insts[-1]
            b.succs = list(dict.fromkeys(t.extra.get('labels', [])))
            for s in b.succs:
                if s not in self.blocks:
                    raise IRError('%s: missing block %s' % (self.name, s))
                self.blocks[s].preds.append(l)
    def rpo(self):
        seen, out = set(), []
        st = [(self.order[0], iter(self.entry.succs))]
        seen.add(self.order[0])
        while st:
            l, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                out.append(l)
                st.pop()
        return out[::-1]
    def idom(self):
        if self._idom is None:
            rpo = self.rpo()
            num = {l: i for i, l in enumerate(rpo)}
            idom = {rpo[0]: rpo[0]}
            ch = True
            while ch:
                ch = False
                for l in rpo[1:]:
                    ps = [p for p in self.blocks[l].preds if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        a, b = p, n
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        n = a
                    if idom.get(l) != n:
                        idom[l] = n
                        ch = True
            self._idom = idom
        return self._idom
    def dominates(self, a, b):
        """block a dominates block b"""
        id_ = self.idom()
        if b not in id_:
            return True
        while True:
            if a == b:
                return True
            if id_[b] == b:
                return False
            b = id_[b]
    def has_loop(self):
        id_ = self.idom()
        return any(self.dominates(s, l) for l in id_ for s in self.blocks[l].succs)
    def reach(self, start, stop=()):
        seen, st = set(), [start]
        while st:
            l = st.pop()
            if l in seen or l in stop:
                continue
            seen.add(l)
            st.extend(self.blocks[l].succs)
        return seen
    def control_deps(self):
        """block -> set of (branch block, successor) it is (transitively) control dependent on,
        computed from postdominance by brute force (functions here are small)"""
        # postdominators via reverse iteration
        labels = self.rpo()
        allset = set(labels)
        exits = [l for l in labels if not self.blocks[l].succs]
        pd = {l: set(allset) for l in labels}
        for e in exits:
            pd[e] = {e}
        ch = True
        while ch:
            ch = False
            for l in reversed(labels):
                ss = [s for s in self.blocks[l].succs if s in pd]
                if not ss:
                    continue
                n = set.intersection(*[pd[s] for s in ss]) | {l}
                if n != pd[l]:
                    pd[l] = n
                    ch = True
        cd = {l: set() for l in labels}
        for a in labels:
            if len(self.blocks[a].succs) < 2:
                continue
            for s in self.blocks[a].succs:
                for b in pd[s]:
                    if b == a or b not in pd[a]:
                        cd[b].add((a, s))
        self._pd = pd
        return cd

_NAME = re.compile(r'[%@](?:"[^"]*"|[\w.$-]+)')

def value_names(o):
    """names of SSA values / globals mentioned in operand text"""
    return _NAME.findall(o)

class Global:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.tls = 'thread_local' in text
        self.constant = bool(re.search(r'(?:^|\s)constant\s', text.split('{')[0].split('[')[0] + ' ')) or \
            re.search(r'=\s+(?:[\w()]+\s+)*constant\b', text) is not None
        self.external = re.search(r'=\s+(?:\w+\s+)*external\b', text) is not None
        self.internal = re.search(r'=\s+(?:internal|private)\b', text) is not None

class Module:
    def __init__(self, text):
        self.text = text
        self.globals, self.funcs, self.types, self.aliases, self.md = {}, {}, {}, {}, {}
        self.mdraw = {}
        self._parse(text)
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                i = self._func(lines, i)
                continue
            if ln.startswith('declare '):
                f = self._sig(ln)
                f.is_decl = True
                self.funcs.setdefault(f.name, f)
            elif ln.startswith('@'):
                m = _NAME.match(ln)
                nm = m.group(0)
                if re.search(r'=\s.*\balias\b', ln[:200]) and ' global ' not in ln[:120] and ' constant ' not in ln[:120]:
                    self.aliases[nm] = _NAME.findall(ln)[-1]
                else:
                    self.globals[nm] = Global(nm, ln)
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.mdraw[m.group(1)] = m.group(2)
            i += 1
    def string(self, op):
        """the text of the constant string the operand points to (from its offset), or None"""
        op = op.strip()
        off = 0
        m = re.match(r'getelementptr (?:inbounds )?\(i8, ptr (@\S+), i64 (\d+)\)$', op)
        if m:
            op, off = m.group(1), int(m.group(2))
        else:
            m = re.match(r'getelementptr (?:inbounds )?\(\[\d+ x i8\], ptr (@\S+), i64 0, i64 (\d+)\)$', op)
            if m:
                op, off = m.group(1), int(m.group(2))
        g = self.globals.get(op)
        if g is None:
            return None
        t = g.text
        if not re.search(r'\bconstant\b', t[:200]):
            return None
        if re.search(r'constant \[\d+ x i8\] zeroinitializer', t):
            return ''
        m = re.search(r' c"([^"]*)"', t)
        if not m:
            return None
        b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1))
        return b[off:].split('\0')[0]
    # ---------------------------------------------------------------- layout
    def layout(self, ty):
        """(size, align, [field offsets] or None) of a type, x86-64 data layout"""
        ty = ty.strip()
        if ty in self.types:
            return self.layout(self.types[ty])
        if ty[0] == 'i' and ty[1:].isdigit():
            b = (int(ty[1:]) + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return (a, min(a, 16), None)
        prim = {'float': 4, 'double': 8, 'ptr': 8, 'half': 2, 'bfloat': 2, 'fp128': 16, 'x86_fp80': 16}
        if ty in prim:
            return (prim[ty], prim[ty], None)
        m = re.match(r'\[(\d+) x (.*)\]$', ty)
        if m:
            z, a, _ = self.layout(m.group(2))
            return (z * int(m.group(1)), a, None)
        m = re.match(r'<(\d+) x (.*)>$', ty)
        if m and not ty.startswith('<{'):
            z, a, _ = self.layout(m.group(2))
            return (z * int(m.group(1)), z * int(m.group(1)), None)
        packed = ty.startswith('<{')
        body = ty[2:-2] if packed else ty[1:-1]
        offs, o, al = [], 0, 1
        for e in split_top(body):
            z, a, _ = self.layout(e)
            if packed:
                a = 1
            o = (o + a - 1) // a * a
            offs.append(o)
            o += z
            al = max(al, a)
        return ((o + al - 1) // al * al, al, offs)
    def elem(self, ty, k):
        ty = ty.strip()
        if ty in self.types:
            return self.elem(self.types[ty], k)
        m = re.match(r'\[(\d+) x (.*)\]$', ty) or (None if ty.startswith('<{') else re.match(r'<(\d+) x (.*)>$', ty))
        if m:
            return m.group(2)
        body = ty[2:-2] if ty.startswith('<{') else ty[1:-1]
        return split_top(body)[k].strip()
    def addr(self, f, p):
        """pointer operand -> (root value, constant byte offset or None when it varies)"""
        off = 0
        seen = set()
        while True:
            m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', p)
            if m:
                parts = split_top(m.group(1))
                src, base, idx = parts[0], parts[1].split(None, 1)[1], [x.split()[-1] for x in parts[2:]]
            elif p in f.defs and p not in seen:
                seen.add(p)
                d = f.defs[p]
                if d.op in ('bitcast', 'addrspacecast', 'freeze'):
                    p = d.ops[0]
                    continue
                if d.op != 'getelementptr':
                    return p, off
                src, base, idx = d.extra['src'], d.ops[0], d.ops[1:]
            else:
                return p, off
            o = self.idx_off(src, idx)
            off = None if off is None or o is None else off + o
            p = base
    def idx_off(self, src, idx):
        try:
            ix = [int(x) for x in idx]
        except ValueError:
            return None
        o = ix[0] * self.layout(src)[0]
        ty = src
        for k in ix[1:]:
            z, a, offs = self.layout(ty)
            ty2 = self.elem(ty, k)
            o += offs[k] if offs is not None else k * self.layout(ty2)[0]
            ty = ty2
        return o
    def _sig(self, ln):
        m = re.search(r'@(?:"[^"]*"|[\w.$-]+)', ln)
        name = m.group(0)[1:].strip('"')
        pre = ln[:m.start()]
        # rettype: last type token of pre
        words = pre.replace('define', '').replace('declare', '').strip()
        rest = ln[m.end():]
        depth, j = 0, 0
        for j, c in enumerate(rest):
            if c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
                if depth == 0:
                    break
        argtxt = rest[1:j]
        args = []
        k = 0
        for a in split_top(argtxt):
            if not a or a == '...':
                continue
            ty, v = take_typed(a)
            mm = re.search(r'%(?:"[^"]*"|[\w.$-]+)\s*$', v)
            nm = mm.group(0).strip() if mm else '%%%d' % k
            args.append((ty, nm))
            k += 1
        ret = words.split()
        rt = self._ret(words)
        f = Function(name, rt, args, rest[j+1:])
        f.line = ln
        return f
    def _ret(self, words):
        # the return type is the last complete type in the prefix
        w = words.strip()
        if w.endswith(('}', ']', '>')):
            op = {'}': '{', ']': '[', '>': '<'}[w[-1]]
            d = 0
            for k in range(len(w)-1, -1, -1):
                if w[k] in '}]>':
                    d += 1
                elif w[k] in '{[<':
                    d -= 1
                    if d == 0:
                        return w[k:]
        return w.split()[-1] if w else 'void'
    def _func(self, lines, i):
        f = self._sig(lines[i])
        mdbg = re.search(r'!dbg !(\d+)', lines[i])
        f.dbg = mdbg.group(1) if mdbg else None
        i += 1
        cur = None
        nargs = len(f.args)
        while lines[i] != '}':
            ln = lines[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', ln)
            if m:
                cur = Block('%' + m.group(1))
                f.blocks[cur.label] = cur
                f.order.append(cur.label)
                continue
            if cur is None:
                cur = Block('%' + self._entry_label(f))
                f.blocks[cur.label] = cur
                f.order.append(cur.label)
            # multi-line switch / landingpad etc.
            if re.match(r'(%\S+ = )?(switch|indirectbr)\b', s) and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            while i < len(lines) and re.match(r'\s+(to label|catch |cleanup|filter )', lines[i]):
                s += ' ' + lines[i].strip()
                i += 1
            ins = parse_inst(s)
            ins.block = cur.label
            ins.idx = len(cur.insts)
            cur.insts.append(ins)
            if ins.name:
                f.defs[ins.name] = ins
        f.cfg()
        self.funcs[f.name] = f
        return i + 1
    def _entry_label(self, f):
        # implicit entry block number = number of unnamed args
        k = sum(1 for t, n in f.args if re.match(r'%\d+$', n))
        return str(k)
    # --- source positions -------------------------------------------------
    def loc(self, ins):
        """file:line of the instruction (outermost to innermost inlining collapsed to innermost)"""
        if ins is None or not ins.dbg:
            return None
        return self._loc(ins.dbg)
    def _loc(self, mid):
        r = self.mdraw.get(mid, '')
        m = re.search(r'DILocation\(line: (\d+)', r)
        if not m:
            return None
        line = m.group(1)
        s = re.search(r'scope: !(\d+)', r)
        fn, file = self._scope(s.group(1)) if s else (None, None)
        return '%s:%s (%s)' % (file or '?', line, fn or '?')
    def _scope(self, sid):
        fn = None
        for _ in range(30):
            r = self.mdraw.get(sid, '')
            m = re.search(r'DISubprogram\(name: "([^"]*)"', r)
            mf = re.search(r'file: !(\d+)', r)
            if m:
                fn = m.group(1)
                file = None
                if mf:
                    mm = re.search(r'filename: "([^"]*)"', self.mdraw.get(mf.group(1), ''))
                    file = mm.group(1) if mm else None
                return fn, file
            ms = re.search(r'scope: !(\d+)', r)
            if not ms:
                return None, None
            sid = ms.group(1)
        return None, None

BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_inst(s):
    text = s
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        dbg = m.group(1)
    s = re.sub(r'(, ![\w.]+ ![\w()]+)+\s*$', '', s)
    name = None
    m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = ', s)
    if m:
        name = m.group(1)
        s = s[m.end():]
    w = s.split(None, 1)
    op = w[0]
    rest = w[1] if len(w) > 1 else ''
    flags = []
    ex = {}
    ops, opty, ty = [], [], None
    if op in ('tail', 'musttail', 'notail'):
        w = rest.split(None, 1)
        op, rest = w[0], w[1]
    def strip_flags(r):
        while True:
            m = re.match(r'([a-z]+)\s', r)
            if m and m.group(1) in FLAGS:
                flags.append(m.group(1))
                r = r[m.end():]
            else:
                return r
    if op in BINOPS:
        rest = strip_flags(rest)
        ty, r = take_type(rest)
        ops = split_top(r)
        opty = [ty, ty]
    elif op == 'fneg':
        rest = strip_flags(rest)
        ty, r = take_type(rest)
        ops = [r.strip()]
        opty = [ty]
    elif op == 'freeze':
        ty, v = take_typed(rest)
        ops, opty = [v], [ty]
    elif op in CASTS:
        rest = strip_flags(rest)
        k = rest.rindex(' to ')
        t0, v = take_typed(rest[:k])
        ty = rest[k+4:].strip()
        ops, opty = [v], [t0]
    elif op in ('icmp', 'fcmp'):
        rest = strip_flags(rest)
        pred, rest = rest.split(None, 1)
        t0, r = take_type(rest)
        ops = split_top(r)
        opty = [t0, t0]
        ty = 'i1'
        ex['pred'] = pred
    elif op == 'phi':
        rest = strip_flags(rest)
        ty, r = take_type(rest)
        inc = []
        for it in split_top(r):
            a = split_top(it.strip()[1:-1])
            inc.append((a[0], a[1]))
        ops = [v for v, l in inc]
        opty = [ty] * len(ops)
        ex['inc'] = inc
    elif op == 'select':
        rest = strip_flags(rest)
        a = split_top(rest)
        for x in a:
            t, v = take_typed(x)
            ops.append(v)
            opty.append(t)
        ty = opty[1]
    elif op in ('load',):
        atomic = rest.startswith('atomic ')
        if atomic:
            rest = rest[7:]
        rest = strip_flags(rest)
        a = split_top(rest)
        ty = a[0]
        t, v = take_typed(a[1])
        ops, opty = [v], [t]
        ex['atomic'] = atomic
    elif op == 'store':
        atomic = rest.startswith('atomic ')
        if atomic:
            rest = rest[7:]
        rest = strip_flags(rest)
        a = split_top(rest)
        for x in a[:2]:
            t, v = take_typed(x)
            ops.append(v)
            opty.append(t)
        ty = 'void'
        ex['atomic'] = atomic
        # "ptr %p syncscope.. seq_cst" leftovers
        ops[1] = ops[1].split()[0] if not ops[1].startswith('getelementptr') and ops[1] and ops[1][0] in '%@' and '"' not in ops[1] else ops[1]
    elif op == 'atomicrmw':
        rest = strip_flags(rest)
        kind, rest = rest.split(None, 1)
        a = split_top(rest)
        t, v = take_typed(a[0])
        t2, v2 = take_typed(a[1])
        v2 = v2.split()[0]
        ops, opty, ty = [v, v2], [t, t2], t2
        ex['kind'] = kind
    elif op == 'cmpxchg':
        rest = re.sub(r'^weak ', '', rest)
        rest = strip_flags(rest)
        a = split_top(rest)
        for x in a[:3]:
            t, v = take_typed(x)
            ops.append(v.split()[0])
            opty.append(t)
        ty = '{ %s, i1 }' % opty[1]
    elif op == 'fence':
        ty = 'void'
    elif op == 'alloca':
        rest = re.sub(r'^inalloca ', '', rest)
        a = split_top(rest)
        ex['alloc'] = a[0]
        ty = 'ptr'
        if len(a) > 1 and not a[1].startswith('align'):
            t, v = take_typed(a[1])
            ops, opty = [v], [t]
    elif op == 'getelementptr':
        rest = strip_flags(rest)
        a = split_top(rest)
        ex['src'] = a[0]
        for x in a[1:]:
            t, v = take_typed(re.sub(r'^inrange(\([^)]*\))? ', '', x))
            ops.append(v)
            opty.append(t)
        ty = 'ptr'
    elif op == 'br':
        if rest.startswith('label'):
            ex['labels'] = [rest.split(',')[0].replace('label', '').strip()]
        else:
            a = split_top(rest)
            t, v = take_typed(a[0])
            ops, opty = [v], [t]
            ex['labels'] = [a[1].replace('label', '').strip(), a[2].replace('label', '').strip()]
        ty = 'void'
    elif op == 'switch':
        k = rest.index('[')
        a = split_top(rest[:k])
        t, v = take_typed(a[0])
        ops, opty = [v], [t]
        d = a[1].replace('label', '').strip()
        cases = re.findall(r'(?:i\d+) (-?\d+|true|false), label (%(?:"[^"]*"|[\w.$-]+))', rest[k:])
        ex['default'] = d
        ex['cases'] = [(c, l) for c, l in cases]
        ex['labels'] = [d] + [l for c, l in cases]
        ty = 'void'
    elif op == 'ret':
        ty = 'void'
        if rest.strip() != 'void':
            t, v = take_typed(rest)
            ops, opty = [v], [t]
    elif op in ('unreachable',):
        ty = 'void'
    elif op in ('call', 'invoke'):
        _parse_call(op, rest, ops, opty, ex, flags)
        ty = ex['rettype']
    elif op == 'extractvalue':
        a = split_top(rest)
        t, v = take_typed(a[0])
        ops, opty = [v], [t]
        ex['idx'] = [int(x) for x in a[1:]]
        ty = None
    elif op == 'insertvalue':
        a = split_top(rest)
        t, v = take_typed(a[0])
        t2, v2 = take_typed(a[1])
        ops, opty = [v, v2], [t, t2]
        ex['idx'] = [int(x) for x in a[2:]]
        ty = t
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        for x in split_top(rest):
            t, v = take_typed(x)
            ops.append(v)
            opty.append(t)
        ty = opty[0]
        if op == 'extractelement':
            ty = opty[0].strip('<>').split(' x ')[1].strip()
    elif op == 'va_arg':
        a = split_top(rest)
        t, v = take_typed(a[0])
        ops, opty, ty = [v], [t], a[1]
    elif op == 'landingpad':
        ty, r = take_type(rest)
    elif op == 'resume':
        t, v = take_typed(rest)
        ops, opty, ty = [v], [t], 'void'
    else:
        raise IRError('unknown instruction: ' + text[:120])
    return Inst(name=name, op=op, type=ty, ops=ops, optypes=opty, extra=ex, text=text, dbg=dbg, flags=flags)

def _parse_call(op, rest, ops, opty, ex, flags):
    # strip flags, calling conventions, ret attrs
    while True:
        m = re.match(r'([a-z_]+\d*)\s', rest)
        if m and (m.group(1) in FLAGS or m.group(1) in ('fastcc', 'ccc', 'coldcc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'inreg')):
            if m.group(1) in FLAGS:
                flags.append(m.group(1))
            rest = rest[m.end():]
            continue
        m = re.match(r'(align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|nofpclass\([^)]*\)|range\([^)]*\))\s', rest)
        if m:
            rest = rest[m.end():]
            continue
        break
    rt, r = take_type(rest)
    ex['rettype'] = rt
    r = r.lstrip()
    # optional function type "(...)"
    def match_paren(s, st):
        d, q = 0, False
        for j in range(st, len(s)):
            c = s[j]
            if q:
                q = c != '"'
            elif c == '"':
                q = True
            elif c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return j
        raise IRError('paren')
    if r.startswith('('):
        j = match_paren(r, 0)
        ex['fnty'] = r[:j+1]
        r = r[j+1:].lstrip()
    if r.startswith('asm'):
        m = re.match(r'asm\s+(?:sideeffect\s+|alignstack\s+|inteldialect\s+|unwind\s+)*"(?:[^"\\]|\\.)*",\s*"[^"]*"', r)
        callee = 'asm'
        ex['asm'] = m.group(0)
        r = r[m.end():]
    else:
        m = re.match(r'([%@](?:"[^"]*"|[\w.$-]+))', r)
        if m:
            callee = m.group(1)
            r = r[m.end():]
        else:  # constant expression / null callee
            k = r.index('(')
            callee = r[:k].strip()
            r = r[k:]
    j = match_paren(r, r.index('('))
    args = split_top(r[r.index('(')+1:j])
    ex['callee'] = callee
    for a in args:
        if not a:
            continue
        if a.startswith('metadata'):
            ops.append('metadata')
            opty.append('metadata')
            continue
        t, v = take_typed(a)
        ops.append(v)
        opty.append(t)
    ex['nargs'] = len(ops)
    tail = r[j+1:]
    if op == 'invoke':
        ex['labels'] = re.findall(r'label (%(?:"[^"]*"|[\w.$-]+))', tail)

# ------------------------------------------------------------ generic slices
def callee(i):
    """direct callee name without '@', or None for indirect"""
    if i.op not in ('call', 'invoke'):
        return None
    c = i.extra['callee']
    if c.startswith('@'):
        return c[1:].strip('"')
    return None

def is_intrinsic_noise(i):
    c = callee(i)
    return bool(c) and (c.startswith('llvm.lifetime') or c.startswith('llvm.dbg') or c.startswith('llvm.assume')
                        or c.startswith('llvm.experimental.noalias'))

def cone(f, v, stop=lambda i: False, control=False):
    """backward data cone of value v: (set of Inst, set of leaf operand texts)"""
    insts, leaves = set(), set()
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        d = f.defs.get(x)
        if d is None:
            names = [n for n in value_names(x) if n != x]
            if names:
                st.extend(names)
                leaves.add(x)
            else:
                leaves.add(x)
            continue
        insts.add(d)
        if stop(d):
            continue
        st.extend(d.ops)
        if d.op in ('call', 'invoke') and d.extra['callee'].startswith('%'):
            st.append(d.extra['callee'])
    return insts, leaves

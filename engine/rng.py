"""The random number generator linked with a backend, and the fresh-thread specialisation."""
import os, re, glob
from .build import STD, bc

def bcs():
    return [bc(p) for p in sorted(glob.glob(os.path.join(STD, 'rng', '*.c')))]

def sizes(txt):
    """bytes of each named struct type whose members are integers, pointers or arrays of them (None: not computed)"""
    out = {}
    al = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8}
    body = dict(re.findall(r'^(%[\w.]+) = type \{ ?([^\n]*?) ?\}$', txt, re.M))
    def sz(t):
        t = t.strip()
        if t in al:
            return al[t], al[t]
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            s = sz(m.group(2))
            return s and (int(m.group(1)) * s[0], s[1])
        if t in body:
            off, mx = 0, 1
            depth, cur, parts = 0, '', []
            for ch in body[t] + ',':
                if ch == ',' and depth == 0:
                    parts.append(cur)
                    cur = ''
                    continue
                depth += ch in '[{'
                depth -= ch in ']}'
                cur += ch
            for p in parts:
                s = sz(p)
                if not s:
                    return None
                off = (off + s[1] - 1) // s[1] * s[1] + s[0]
                mx = max(mx, s[1])
            return (off + mx - 1) // mx * mx, mx
        return None
    return lambda t: (sz(t) or (None,))[0]

def untls(txt):
    """a thread that has not run any operation yet: the thread-private objects become ordinary ones, zeroed at the entry of every harness"""
    sz = sizes(txt)
    tl = re.findall(r'^(@[\w.]+) = [^\n]*thread_local[^\n]*global (\S+(?: x \S+\])?) zeroinitializer', txt, re.M)
    txt = re.sub(r'^(@[\w.]+ = [^\n]*?)thread_local(?:\(\w+\))? ', r'\1', txt, flags=re.M)
    txt = re.sub(r'(%[\w.]+) = (?:tail |notail )?call [^\n]*@llvm\.threadlocal\.address\.p0\(ptr [^@]*(@[\w.]+)\)[^\n]*',
                 r'\1 = getelementptr i8, ptr \2, i64 0', txt)
    txt = re.sub(r'^declare [^\n]*@llvm\.memset\.p0\.i64\([^\n]*\n', '', txt, flags=re.M)
    txt += '\ndeclare void @llvm.memset.p0.i64(ptr, i8, i64, i1)\n'
    tl = [(g, sz(t)) for g, t in tl]
    def ins(m):
        return m.group(0) + ''.join('  call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 %d, i1 false)\n' % (g, n) for g, n in tl if n)
    return re.sub(r'^define [^\n]*@h_\w+\([^\n]*\{\n(?:[\w.]+:[^\n]*\n)?', ins, txt, flags=re.M)

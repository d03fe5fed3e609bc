"""Backward slices (data and control dependence) over one function."""
from . import ir

def backward(f, roots, mem=True, blocks=True):
    """roots: instructions.  -> set of instructions the roots depend on.
    Loads from memory that is not an argument's or a constant's depend on every store in the function."""
    cd = f.control_deps()
    seen, st = set(), list(roots)
    stores = [i for i in f.insts() if i.op == 'store']
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        for o in i.ops:
            d = f.defs.get(o)
            if d is not None:
                st.append(d)
        if i.op == 'phi':
            for v, l in i.extra['inc']:
                if v in f.defs:
                    st.append(f.defs[v])
                st.append(f.blocks[l].insts[-1])
                for c, s in cd.get(l, ()):
                    st.append(f.blocks[c].insts[-1])
        for c, s in cd.get(i.block, ()):
            st.append(f.blocks[c].insts[-1])
        if i.op == 'load' and mem:
            r = root(f, i.ops[0])
            for s in stores:
                if may(f, root(f, s.ops[1]), r):
                    st.append(s)
        if i.op in ('br', 'switch') and not i.ops:
            continue
    return seen

def root(f, p):
    seen = set()
    while p in f.defs and p not in seen:
        seen.add(p)
        d = f.defs[p]
        if d.op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'):
            p = d.ops[0]
            continue
        break
    return p

def may(f, a, b):
    def ident(x):
        return x.startswith('@') or (x in f.defs and f.defs[x].op == 'alloca') or any(n == x for _, n in f.args)
    if a == b:
        return True
    if ident(a) and ident(b):
        return False
    return True

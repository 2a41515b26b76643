"""Source types of terms, from the debug types of parameters, results and structure members."""
from gctrace import sname


def struct(T, t):
    """structure a pointer type points to"""
    if t is None or not t.endswith("*") or t.endswith("**"):
        return None
    return T.st(t)


def member(T, s, off, want=None):
    """(type, offset inside the member) of the member of structure s at a byte offset; follows embedded structures"""
    d = T.st(s)
    while d is not None:
        for name, o, size, ty in d["m"]:
            if o <= off < o + max(size, 1):
                if off == o and (want is None or want(ty)):
                    return ty
                d2 = T.st(ty) if not ty.endswith("*") and "[" not in ty else None
                if d2 is None:
                    return ty if off == o else None
                off -= o
                d = d2
                break
        else:
            return None
    return None


def pointee(T, f, st, a, depth=0):
    """type of the memory at address a (a scalar or pointer there)"""
    off = 0
    if a.op == "+":
        a, off = a.a[0], a.a[1]
    t = typeof(T, f, st, a, depth + 1)
    if t is None or not t.endswith("*"):
        return None
    t = t[:-1]
    if T.st(t) is not None and not t.endswith("*"):
        return member(T, t, off, lambda ty: ty.endswith("*") or T.st(ty) is None)
    return t if off == 0 else None


def var_type(T, f, st, t):
    """type of a local variable that is bound to the term"""
    memo = f.__dict__.setdefault("dvmemo", {})
    r = memo.get(t)
    if r is None:
        for i, tys in f.fn.dv.items():
            if st.env.get(i) is t or (t.op == "s" and t.a[0] == i) or (t.op == "p" and t.a[0] == i):
                r = pick(T, tys)
                if r is not None:
                    memo[t] = r
                    break
    return r


def pick(T, tys):
    """the one type all the variables bound to a value agree on (generic pointers aside)"""
    ts = {t for t in tys if T.st(t[:-1]) is not None or t.endswith("**") or t == "Value*"} - {"sObj*", "Obj*"}
    return ts.pop() if len(ts) == 1 else None


def typeof(T, f, st, t, depth=0):
    r = typeof0(T, f, st, t, depth)
    if r is None or r == "void*":
        r = var_type(T, f, st, t) or r
    return r


def typeof0(T, f, st, t, depth=0):
    if depth > 12:
        return None
    o = t.op
    if o == "p":
        n = t.a[0] + 1
        return f.fn.ditys[n] if n < len(f.fn.ditys) else None
    if o == "ld":
        return pointee(T, f, st, t.a[0], depth)
    if o == "out":
        return pointee(T, f, st, t.a[1], depth)
    if o == "+":
        s = typeof(T, f, st, t.a[0], depth + 1)
        if s and s.endswith("*") and T.st(s[:-1]) is not None and not s.endswith("**"):
            ty = member(T, s[:-1], t.a[1])
            return ty + "*" if ty else None
        return None
    if o == "idx":
        return typeof(T, f, st, t.a[0], depth + 1)
    if o in ("h",):
        return pointee(T, f, st, t.a[1], depth)
    if o == "unbox":
        m = f.kindmask(st, t.a[0]) & f.K.OBJ
        if m and not m & (m - 1):
            for s, k in T.byk().items():
                if k == m:
                    return s + "*"
        return None
    if o == "s":
        d = f.fn.defs.get(t.a[0])
        if d is None:
            return None
        if d.op == "call" and d.callee:
            g = f.mod.fns.get(d.callee)
            if g is not None and g.ditys:
                return g.ditys[0]
            return None
        if d.op == "phi":
            key = ("ty", t)
            memo = f.__dict__.setdefault("tymemo", {})
            if key in memo:
                return memo[key]
            memo[key] = None
            for v in d.ops:
                if isinstance(v, int):
                    r = ssa_type(T, f, st, v, depth + 1)
                    if r:
                        memo[key] = r
                        break
            return memo[key]
    return None


def ssa_type(T, f, st, v, depth):
    """type of an SSA value from its definition (used for loop phis)"""
    if depth > 12:
        return None
    x = st.env.get(v)
    if x is not None and not (x.op == "s" and x.a[0] == v):
        r = typeof(T, f, st, x, depth + 1)
        if r:
            return r
    if v in f.fn.dv:
        r = pick(T, f.fn.dv[v])
        if r:
            return r
    d = f.fn.defs.get(v)
    if d is None:
        return f.fn.ditys[v + 1] if v < f.fn.nargs and v + 1 < len(f.fn.ditys) else None
    if d.op == "call" and d.callee in f.mod.fns and f.mod.fns[d.callee].ditys:
        return f.mod.fns[d.callee].ditys[0]
    if d.op == "load" and isinstance(d.ops[0], int):
        g = f.fn.defs.get(d.ops[0])
        if g is not None and g.op == "getelementptr" and not g.x["v"] and isinstance(g.ops[0], int):
            s = ssa_type(T, f, st, g.ops[0], depth + 1)
            if s and s.endswith("*") and T.st(s[:-1]) is not None:
                return member(T, s[:-1], g.x["off"], lambda ty: ty.endswith("*") or T.st(ty) is None)
    if d.op == "getelementptr" and isinstance(d.ops[0], int):
        s = ssa_type(T, f, st, d.ops[0], depth + 1)
        if d.x["v"] or not d.x["off"]:
            return s
    if d.op == "phi":
        return typeof(T, f, st, __import__("flow").mk("s", v), depth + 1)
    return None

"""Linear reasoning about terms: expressions  sum(coefficient * leaf) + constant  and a small prover for  expr >= 0
from the comparisons known on a path (no wrap-around is assumed: the quantities are sizes, indices and counters)."""
from flow import mk
from ir import Term


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


def lin(t, k=1, out=None):
    """({leaf: coefficient}, constant)"""
    top = out is None
    if top:
        out = [{}, 0]
    o = t.op
    if o == "c":
        out[1] += k * signed(t.a[0], t.a[1])
    elif o == "add":
        lin(t.a[0], k, out)
        lin(t.a[1], k, out)
    elif o == "sub":
        lin(t.a[0], k, out)
        lin(t.a[1], -k, out)
    elif o == "mul" and t.a[1].op == "c":
        lin(t.a[0], k * signed(t.a[1].a[0], t.a[1].a[1]), out)
    elif o == "shl" and t.a[1].op == "c" and t.a[1].a[0] < 32:
        lin(t.a[0], k << t.a[1].a[0], out)
    elif o in ("sdiv", "udiv") and t.a[1].op == "c" and t.a[1].a[0] and divides(t.a[0], t.a[1].a[0]):
        d, n = lin(t.a[0])
        for x, c in d.items():
            out[0][x] = out[0].get(x, 0) + k * c // t.a[1].a[0]
            if not out[0][x]:
                del out[0][x]
        out[1] += k * n // t.a[1].a[0]
    elif o in ("sext", "zext", "trunc") and t.a[1] != 1 and not (o == "trunc" and t.a[2] < 16):
        lin(t.a[0], k, out)
    elif o == "+":
        lin(t.a[0], k, out)
        out[1] += k * t.a[1]
    elif o == "idx" and len(t.a) == 3 and isinstance(t.a[2], int):
        lin(t.a[0], k, out)
        lin(t.a[1], k * t.a[2], out)
    else:
        d = out[0]
        d[t] = d.get(t, 0) + k
        if not d[t]:
            del d[t]
    return tuple(out) if top else None


def signedish(t):
    """a 64-bit unsigned quantity that was widened from a signed one may be a huge number"""
    return t.op in ("sext", "c") or any(signedish(x) for x in t.a if isinstance(x, Term) and t.op in ("add", "sub", "mul"))


def divides(t, c):
    d, n = lin(t)
    return n % c == 0 and all(k % c == 0 for k in d.values())


def sub(a, b):
    d = dict(a[0])
    for t, k in b[0].items():
        d[t] = d.get(t, 0) - k
        if not d[t]:
            del d[t]
    return d, a[1] - b[1]


def facts(f, st):
    """list of expressions known to be >= 0"""
    r = []
    for c, v in st.truth.items():
        if c.op == "not":
            c, v = c.a[0], not v
        if c.op != "cmp":
            continue
        p, a, b, w = c.a
        if w < 8:
            continue
        if p == "slt" or p == "ult":
            la, lb = lin(a), lin(b)
            if v:
                d, n = sub(lb, la)
                r.append((d, n - 1))
                if p == "ult":      # below an unsigned bound: not negative either (when the bound fits)
                    r.append(la)
            elif p == "slt":
                r.append(sub(la, lb))
            else:
                iv = f.interval(st, b)
                ia = f.interval(st, a)
                if ia and ia[0] >= 0 or w == 64 and not signedish(a):
                    r.append(sub(la, lb))
        elif p == "eq" and v:
            la, lb = lin(a), lin(b)
            r.append(sub(la, lb))
            r.append(sub(lb, la))
    return r


def low(f, st, e):
    """lower bound of an expression from intervals, or None"""
    n = e[1]
    for t, k in e[0].items():
        iv = f.interval(st, t)
        if iv is None:
            if t.op in ("zext",) and k > 0:
                continue
            return None
        n += k * (iv[0] if k > 0 else iv[1])
    return n


def nonneg(f, st, e, fs=None, depth=3):
    b = low(f, st, e)
    if b is not None and b >= 0:
        return True
    if depth == 0:
        return False
    if fs is None:
        fs = facts(f, st)
    for c, v in st.truth.items():
        # a quantity that is not negative and not zero is at least one
        if c.op == "cmp" and c.a[0] == "eq" and not v and c.a[3] >= 8 and any(t in e[0] for t in c.leaves):
            l = sub(lin(c.a[1]), lin(c.a[2]))
            for s in (1, -1):
                if {t: s * k for t, k in l[0].items()} == e[0] and s * l[1] - 1 == e[1] and nonneg(f, st, (e[0], e[1] + 1), fs, depth - 1):
                    return True
    for x in fs:
        # useful when it cancels a term
        if any(t in e[0] and (e[0][t] > 0) == (k > 0) for t, k in x[0].items()):
            d = sub(e, x)
            if len(d[0]) <= len(e[0]) + 1 and nonneg(f, st, d, fs, depth - 1):
                return True
    return False


def le(f, st, a, b, slack=0):
    """a + slack <= b"""
    d, n = sub(lin(b), lin(a))
    return nonneg(f, st, (d, n - slack))


def lt(f, st, a, b):
    return le(f, st, a, b, 1)

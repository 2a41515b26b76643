"""Integer division and remainder never trap: at every such instruction whose divisor is not a constant, the divisor is
known not to be zero on every path that reaches it (checked by the code, or an invariant of the structure field it is read from:
then every store to that field anywhere in the code is checked to be of a value that is not zero)."""
import flow
from flow import mk, show, new_state, Client, C
from gctrace import Types
import dityp, natives

DIV = ("sdiv", "udiv", "srem", "urem")


def nonzero(f, st, t, w, depth=0):
    """the term is known not to be zero"""
    iv = f.interval(st, t)
    if iv and (iv[0] > 0 or iv[1] < 0):
        return True
    if f.evalc(st, f.cmp("eq", t, C(0, w), w)) is False:
        return True
    if depth > 8:
        return False
    if t.op == "fptosi" and at_least_one(f, st, t.a[0]):
        return True
    if t.op in ("zext", "sext"):
        return nonzero(f, st, t.a[0], t.a[1], depth + 1)
    if t.op == "sub" and t.a[0] is C(0, w):
        return nonzero(f, st, t.a[1], w, depth + 1)
    if t.op == "mul":
        return nonzero(f, st, t.a[0], w, depth + 1) and nonzero(f, st, t.a[1], w, depth + 1)
    if t.op == "sub" and not_less(f, st, t.a[0], t.a[1], w) and f.evalc(st, f.cmp("eq", t.a[0], t.a[1], w)) is False:
        return True
    if t.op == "sub" and f.evalc(st, f.cmp("slt", t.a[1], t.a[0], w)) is True:
        return True
    if t.op == "add" and t.a[1].op == "c" and 0 < signed(t.a[1], w) and t.a[0].op == "sub" and not_less(f, st, t.a[0].a[0], t.a[0].a[1], w):
        return True
    return False


def not_minus_one(f, st, t, w, depth=0):
    iv = f.interval(st, t)
    if iv and (iv[0] >= 0 or iv[1] < -1):
        return True
    if f.evalc(st, f.cmp("eq", t, C(-1, w), w)) is False or f.evalc(st, f.cmp("slt", t, C(0, w), w)) is False:
        return True
    if t.op in ("zext", "sext"):
        return t.op == "zext" or not_minus_one(f, st, t.a[0], t.a[1], depth + 1)
    if t.op == "sub" and t.a[0] is C(0, w):
        return f.evalc(st, f.cmp("slt", t.a[1], C(0, w), w)) is True or f.evalc(st, f.cmp("slt", t.a[1], C(1, w), w)) is True
    if t.op == "add" and t.a[1].op == "c" and 0 < signed(t.a[1], w) and t.a[0].op == "sub" and not_less(f, st, t.a[0].a[0], t.a[0].a[1], w):
        return True
    if t.op == "fptosi":
        return at_least_one(f, st, t.a[0])
    return False


def not_min(f, st, t, w):
    """the dividend is not the smallest integer"""
    iv = f.interval(st, t)
    if iv and iv[0] > -(1 << (w - 1)):
        return True
    while t.op == "sext":
        return True
    return t.op == "zext" or f.evalc(st, f.cmp("slt", t, C(0, w), w)) is False


def signed(c, w):
    v = c.a[0] & ((1 << w) - 1)
    return v - (1 << w) if v >> (w - 1) else v


def not_less(f, st, x, y, w):
    """x >= y"""
    while x.op == "sext" and y.op == "sext" and x.a[1] == y.a[1]:
        x, y, w = x.a[0], y.a[0], x.a[1]
    if f.evalc(st, f.cmp("slt", x, y, w)) is False or f.evalc(st, f.cmp("slt", y, x, w)) is True:
        return True
    return False


def at_least_one(f, st, x):
    for c, v in st.truth.items():
        if c.op != "fcmp" or x not in c.a[1:3]:
            continue
        pred, l, r = c.a[:3]
        if l is not x:
            l, r, pred = r, l, {"o": "o", "u": "u"}.get(pred[0], "") + {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(pred[1:], pred[1:])
        k = fconst(r)
        if k is None:
            continue
        if not v:
            # the negation holds for a number that compares at all; a comparison with NaN is excluded by an 'unordered' test only
            neg = {"ult": "oge", "ule": "ogt"}.get(pred)
            if neg is None:
                continue
            pred = neg
        if (pred in ("oge", "oeq") and k >= 1) or (pred == "ogt" and k >= 1):
            return True
    return False


def fconst(t):
    if t.op == "f":
        import struct
        return struct.unpack("<d", struct.pack("<Q", t.a[0]))[0]
    return None


def const(o):
    return isinstance(o, tuple) and o[0] == "c"


class Div(Client):
    def __init__(self, T, fields):
        self.T = T
        self.fields = fields    # (struct, offset) -> None, structure fields that must not be zero
        self.params, self.badargs, self.minus = {}, {}, {}
        self.bad, self.n, self.stores, self.badstores = {}, {}, {}, {}

    def on_arith(self, f, st, i, a, b):
        if i.op not in DIV or const(i.ops[1]):
            return
        self.n[(i.blk, i.idx)] = i
        w = int(i.ty[1:])
        if nonzero(f, st, b, w):
            if i.op in ("sdiv", "srem") and not not_minus_one(f, st, b, w) and not not_min(f, st, a, w):
                self.minus.setdefault((i.blk, i.idx), (i, a, b, st))
            return
        t = b
        while t.op in ("zext", "sext"):
            t = t.a[0]
        fl = None
        if t.op in ("ld", "h", "out"):
            a = t.a[0] if t.op == "ld" else t.a[1]
            if a.op in ("+",) or a.op in ("ld", "p", "s", "unbox"):
                base, off = (a.a[0], a.a[1]) if a.op == "+" else (a, 0)
                ty = dityp.typeof(self.T, f, st, base)
                if ty and ty.endswith("*") and not ty.endswith("**") and self.T.st(ty[:-1]) is not None:
                    fl = (ty[:-1], off)
                # a number of the bundled big-integer library that has digits starts with one that is not zero
                if a.op == "ld" and a.a[0].op in ("p", "+"):
                    b2 = a.a[0]
                    base2 = b2.a[0] if b2.op == "+" else b2
                    if dityp.typeof(self.T, f, st, base2) == "bigint*":
                        so = self.T.off("bigint", "size")
                        if nonzero(f, st, st.mem.get(f.plus(base2, so), mk("ld", f.plus(base2, so), 4)), 32):
                            return
        if fl is not None:
            self.fields.setdefault(fl, []).append((f.fn, i))
            return
        self.bad.setdefault((i.blk, i.idx), (i, b, st))

    def on_store(self, f, st, i, a, v):
        if not self.watch:
            return
        base, off = (a.a[0], a.a[1]) if a.op == "+" else (a, 0)
        if off not in self.watchoff:
            return
        ty = dityp.typeof(self.T, f, st, base)
        if not ty:
            return
        k = (ty[:-1], off)
        if k not in self.watch:
            return
        self.stores[(i.blk, i.idx)] = i
        if v is mk("ld", a, i.x) or nonzero(f, st, v, i.x * 8):
            return
        if v.op in ("ld", "h"):     # copied from another one of these structures
            b = v.a[0] if v.op == "ld" else v.a[1]
            if b.op == "+" and b.a[1] == off and dityp.typeof(self.T, f, st, b.a[0]) == ty:
                return
        if v.op == "p":
            self.params.setdefault((f.fn.name, v.a[0]), (i, k))
            return
        self.badstores.setdefault((i.blk, i.idx), (i, v, k, st))

    def on_call(self, f, st, i, name, args):
        for (g, n) in self.wparams:
            if name == g and n < len(args):
                self.stores[(i.blk, i.idx)] = i
                if not nonzero(f, st, args[n], 32):
                    if args[n].op == "p":
                        self.params.setdefault((f.fn.name, args[n].a[0]), (i, None))
                    else:
                        self.badargs.setdefault((i.blk, i.idx), (i, g, n, args[n], st))

    watch, watchoff, wparams = {}, (), ()


def run(ctx):
    mod, K = ctx.mod, ctx.K
    T = Types(mod, K)
    recv = {}
    for x in ctx.regs:
        recv.setdefault(x.fn, []).append(x)
    sites, und, fields, done = 0, [], {}, []

    def analyse(fn, watch=(), wparams=()):
        cl = Div(T, fields)
        cl.wparams = wparams
        cl.watch, cl.watchoff = watch, {o for _, o in watch}
        f = flow.Flow(mod, fn, K, [cl])
        f.signs = True
        try:
            rs = recv.get(fn.name)
            f.run(natives.native_state(f, rs[0].conv, rs[0].recv) if rs else new_state())
        except flow.Abort as e:
            und.append("%s: %s" % (fn.disp, e))
            return None
        return cl

    fns = [f for f in mod.fns.values() if not f.decl and any(i.op in DIV and not const(i.ops[1]) for i in f.insts())]
    for fn in sorted(fns, key=lambda f: f.name):
        cl = analyse(fn)
        if cl is None:
            continue
        done.append(fn.disp)
        sites += len(cl.n)
        for k, (i, a, b, st) in sorted(cl.minus.items()):
            ctx.violation("%s/%s: %s by -1" % (fn.file, i.wherefn(), i.op), i.where(),
                          "%s: the smallest integer may be divided by -1 (divisor %s)" % (i.wherefn(), show(b)))
        for k, (i, b, st) in sorted(cl.bad.items()):
            ctx.violation("%s/%s: %s" % (fn.file, i.wherefn(), i.op), i.where(),
                          "%s: integer division by %s, which may be zero" % (i.wherefn(), show(b)))
    stores = 0
    params = {}
    if fields:
        structs = {s + "*" for s, _ in fields}
        for fn in sorted(mod.fns.values(), key=lambda f: f.name):
            if fn.decl or not any(t in structs for ts in fn.dv.values() for t in ts) and not structs & set(fn.ditys[1:]):
                continue
            if not any(i.op == "store" for i in fn.insts()):
                continue
            cl = analyse(fn, fields)
            if cl is None:
                continue
            stores += len(cl.stores)
            params.update(cl.params)
            for k, (i, v, (s, off), st) in sorted(cl.badstores.items()):
                m = [x[0] for x in T.st(s)["m"] if x[1] == off]
                df, di = fields[(s, off)][0]
                ctx.violation("%s/%s: %s by %s.%s" % (df.file, di.wherefn(), di.op, s, m[0] if m else off), di.where(),
                              "%s: integer division by %s.%s, which may be zero (%s() at %s sets it to %s)" % (di.wherefn(), s, m[0] if m else off, i.wherefn(), i.where(), show(v)))
        # parameters that end up in such a field: every caller
        asked = set()
        while set(params) - asked:
            new = set(params) - asked
            asked |= new
            names = {g for g, _ in new}
            for fn in sorted(mod.fns.values(), key=lambda f: f.name):
                if fn.decl or not any(i.callee in names for i in fn.insts()):
                    continue
                cl = analyse(fn, (), new)
                if cl is None:
                    continue
                stores += len(cl.stores)
                params.update(cl.params)
                for k, (i, g, n, t, st) in sorted(cl.badargs.items()):
                    ctx.violation("%s/%s: argument of %s" % (fn.file, i.wherefn(), mod.fns[g].disp), i.where(),
                                  "%s: %s is passed to %s(), may be zero, and ends up as a divisor" % (i.wherefn(), show(t), mod.fns[g].disp))
        for k, us in fields.items():
            if not stores:
                ctx.violation("field %s+%d" % k, us[0][1].where(), "division by a structure field that is never set")
    ctx.cov.update(functions=done, division_sites=sites, fields_divided_by=["%s+%d" % k for k in fields], stores_to_those_fields=stores, undecided=und, obligations=sites + stores)
    ctx.require(sites, 8, "integer divisions")

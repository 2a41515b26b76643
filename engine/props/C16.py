"""Only hashable values become keys: at every call that adds a key to a dictionary or a member to a set, the added value
is known on every path to be nil, a boolean, a number or a string (checked by the code, built that way, or taken from the keys of
another dictionary or set).  Values that are parameters of the calling function are followed to its callers."""
import flow
from flow import mk, show, new_state, Client, C
from gctrace import Types
import dityp, natives, handlers, summ, nativerun
import preds

HASHABLE = ("number", "nil", "false", "true", "string")


def adders(mod):
    """functions that add an entry: (name, index of the key parameter)"""
    r = {}
    for f in mod.fns.values():
        if f.disp in ("dictSet", "setInsert") and not f.decl:
            r[f.name] = 2
    return r


class Keys(preds.Predicates):
    def __init__(self, T, add, slots, ok):
        self.T, self.add, self.slots, self.ok = T, add, slots, ok
        self.sites, self.bad, self.params = {}, {}, {}

    def on_call(self, f, st, i, name, args):
        n = self.add.get(name)
        if n is None or n >= len(args) or st.err:
            return
        self.sites[(i.blk, i.idx)] = i
        v = args[n]
        m = f.kindmask(st, v)
        if v.op == "box":
            k = f.ptrkind(st, v.a[0])
            m &= k
            if m & ~self.ok:
                ty = dityp.typeof(self.T, f, st, v.a[0])
                k = f.K.of_type(ty) if ty and ty.endswith("*") and not ty.endswith("**") else 0
                if k:
                    m &= k
        elif m & ~self.ok:
            ty = dityp.var_type(self.T, f, st, mk("unbox", v))
            k = f.K.of_type(ty) if ty and ty.endswith("*") and not ty.endswith("**") else 0
            if k:
                m &= k
        if not m & ~self.ok:
            return
        if self.slot(f, st, v):
            m &= ~f.K.bit["empty"] & self.ok
            return
        if v.op == "p":
            self.params.setdefault((f.fn.name, v.a[0]), i)
            return
        self.bad.setdefault((i.blk, i.idx), (i, v, m, st))

    def slot(self, f, st, v):
        """taken from the key slot of a dictionary, set or attribute table"""
        if v.op == "box":
            v = v.a[0]
        if v.op not in ("ld", "h"):
            return False
        a = v.a[0] if v.op == "ld" else v.a[1]
        base, off = (a.a[0], a.a[1]) if a.op == "+" else (a, 0)
        t = base.a[0] if base.op == "idx" else base
        for x in (base, t):
            ty = dityp.typeof(self.T, f, st, x)
            if ty and ty.endswith("*") and (ty[:-1], off) in self.slots:
                return True
        return False


def identity(ctx, mod, K, ok):
    """the comparison used to find a key agrees with the hash: two hashable values are equal exactly when they are the same value"""
    n = 0
    for fn in [f for f in mod.fns.values() if f.disp == "valuesEqual" and not f.decl]:
        f = flow.Flow(mod, fn, K, [])
        st0 = new_state()
        a, b = mk("p", 0), mk("p", 1)
        st0.kinds[a] = st0.kinds[b] = ok
        try:
            f.run(st0)
        except flow.Abort:
            continue
        w = int(fn.ret[1:])
        eq = f.cmp("eq", a, b, 64)
        for st, v, i in f.rets:
            n += 1
            t = v
            while t.op in ("zext", "trunc"):
                t = t.a[0]
            if t is eq:
                continue
            r = f.evalc(st, f.cmp("ne", v, C(0, w), w))
            ka, kb = f.kindmask(st, a), f.kindmask(st, b)
            if r is True and f.evalc(st, eq) is True:
                continue
            if r is False and (f.evalc(st, eq) is False or not ka & kb):
                continue
            ty = f.cmp("eq", mk("ld", mk("unbox", a), 4), mk("ld", mk("unbox", b), 4), 32)
            if r is False and f.evalc(st, ty) is False:      # objects of different kinds
                continue
            ctx.violation("%s/%s: equality of keys" % (fn.file, fn.disp), i.where(),
                          "valuesEqual() may answer %s for a key of kind %s and one of kind %s by something else than their identity, while the hash depends on it" % (show(v), K.str(ka), K.str(kb)), nativerun.path_lines(st, f))
    ctx.require(n, 1, "outcomes of valuesEqual")
    return n


def run(ctx):
    mod, K = ctx.mod, ctx.K
    T = Types(mod, K)
    ok = 0
    for n in HASHABLE:
        ok |= K.bit[n]
    add = adders(mod)
    Keys.preds = preds.predicates(mod, K)
    ctx.require(len(add), 2, "functions that add keys")
    slots = set()
    for s, m in (("DictItem", "key"), ("SetItem", "value"), ("Entry", "key")):
        if T.st(s) is not None:
            slots.add((s, T.off(s, m)))
    recv = {}
    for x in ctx.regs:
        recv.setdefault(x.fn, []).append(x)
    runfn, disp, tab, nt, no = handlers.dispatch(mod)
    P = summ.Program(mod, K)
    sites, und, done = {}, [], []

    def analyse(fn, add):
        out = []
        if fn is runfn:
            for name, blk in tab:
                cl = Keys(T, add, slots, ok)
                f = flow.Flow(mod, fn, K, [cl])
                f.weak, f.track_pops, f.maxstack = P.weak, True, 8
                try:
                    f.run(handlers.entry_state(f, fn), entry=blk, stop={disp})
                except flow.Abort as e:
                    und.append("%s: %s" % (name, e))
                out.append((name, f, cl))
        else:
            rs = {(x.conv, x.recv) for x in recv.get(fn.name, ())} or {None}
            for r in sorted(rs, key=str):
                cl = Keys(T, add, slots, ok)
                f = flow.Flow(mod, fn, K, [cl])
                try:
                    f.run(natives.native_state(f, *r) if r else new_state())
                except flow.Abort as e:
                    und.append("%s: %s" % (fn.disp, e))
                out.append((fn.disp, f, cl))
        return out

    todo, seen = dict(add), dict(add)
    while todo:
        names, params = todo, {}
        todo = {}
        fns = [f for f in mod.fns.values() if not f.decl and any(i.callee in names for i in f.insts())]
        for fn in sorted(fns, key=lambda f: f.name):
            for nm, f, cl in analyse(fn, names):
                if cl.sites:
                    done.append(nm)
                for k in cl.sites:
                    sites[(fn.name, k)] = 1
                for k, (i, v, m, st) in sorted(cl.bad.items()):
                    ctx.violation("%s/%s: key of %s" % (fn.file, nm, mod.fns[i.callee].disp), i.where(),
                                  "%s: %s is added as a key by %s() and may be %s" % (nm, show(v), mod.fns[i.callee].disp, K.str(m & ~ok)),
                                  nativerun.path_lines(st, f))
                for (g, n), i in cl.params.items():
                    params.setdefault((g, n), i)
        for (g, n), i in sorted(params.items()):
            if g in seen:
                continue
            seen[g] = n
            todo[g] = n
            if not any(x.callee == g for f in mod.fns.values() if not f.decl for x in f.insts()):
                fn = mod.fns[g]
                ctx.violation("%s/%s: parameter key" % (fn.file, fn.disp), i.where(), "%s adds its parameter as a key and has no caller that is known to check it" % fn.disp)
    n_eq = identity(ctx, mod, K, ok)
    ctx.cov["equality_outcomes_checked"] = n_eq
    ctx.cov.update(functions=sorted(set(done)), key_insertions=len(sites), wrappers=[mod.fns[g].disp for g in seen if g not in add], undecided=und, obligations=len(sites))
    ctx.require(len(sites), 40, "key insertions")

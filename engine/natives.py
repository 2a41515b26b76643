from flow import *
import registry


class NativeClient(Client):
    """argument kinds and argument counts inside natives"""
    def __init__(self, conv, recv, rep):
        self.conv, self.recv, self.rep = conv, recv, rep
        self.n_kind = self.n_arg = 0
        self.res_value, self.res_status = 24, 16
        self.sites = set()

    def argindex(self, f, a):
        """(const index, None) / (const, term) when address a is a slot of args"""
        p2 = mk("p", 2)
        off = 0
        if a.op == "+":
            a, off = a.a[0], a.a[1]
        if a is p2:
            return (off // 8, None)
        if a.op == "idx" and a.a[0] is p2 and len(a.a) == 3 and a.a[2] == 8:
            return (off // 8, a.a[1])
        return None

    def on_load(self, f, st, i, a):
        x = self.argindex(f, a)
        if x is not None:
            k, t = x
            self.n_arg += 1
            need = k if self.conv == "method" else k + 1
            ac = mk("p", 1)
            if t is None:
                if k < 0:
                    self.rep("C04", f, st, i, "reads args[%d]" % k)
                elif need > 0:
                    iv = f.interval(st, ac)
                    if iv is None or iv[0] < need:
                        self.rep("C04", f, st, i, "reads argument %d where argCount may be %s" % (need, iv[0] if iv else "anything"))
            else:
                # need: t + k <= argCount (method) / < argCount (plain); t + k >= 0
                up = self.lt(f, st, t, k, ac, 0 if self.conv == "plain" else 1)
                lo = f.interval(st, t)
                ok_lo = lo is not None and lo[0] + k >= 0
                if not up or not ok_lo:
                    self.rep("C04", f, st, i, "reads args[%s%+d] not shown to be within argCount" % (t, k))
            return
        self.objaccess(f, st, i, a)

    def lt(self, f, st, t, k, ac, slack):
        """t + k < ac + slack"""
        # t < ac known: t <= ac-1 -> t+k <= ac-1+k ; need <= ac+slack-1 -> k <= slack
        if f.evalc(st, f.cmp("slt", t, ac, 32)) is True and k <= slack:
            return True
        if f.evalc(st, f.cmp("slt", ac, t, 32)) is False and k <= slack - 1:
            return True
        # t < ac + c
        for at, v in st.truth.items():
            if at.op == "cmp" and at.a[0] == "slt":
                x, y = at.a[1], at.a[2]
                if v and x is t and y.op == "add" and y.a[0] is ac and y.a[1].op == "c":
                    c = f.interval(st, y.a[1])[0]
                    if k <= slack - c:
                        return True
                if not v and y is t and x.op == "add" and x.a[0] is ac:
                    c = f.interval(st, x.a[1])[0]
                    if k <= slack - c - 1:
                        return True
        a, b = f.interval(st, t), f.interval(st, ac)
        if a and b and a[1] + k < b[0] + slack:
            return True
        return False

    def prov(self, v):
        """user-controlled provenance: arguments and elements of containers reached from them"""
        t = v
        while True:
            if t.op in ("ld", "+", "idx", "unbox", "box"):
                t = t.a[0]
            else:
                break
        return t is mk("p", 2)

    def objaccess(self, f, st, i, a):
        """payload of an abstract taken from the script: its identity must have been checked"""
        if a.op != "+" or a.a[0].op != "unbox":
            return
        off = abstract_offsets(f.mod)
        if off is None or a.a[1] != off[0]:
            return
        p = a.a[0]
        v = p.a[0]
        if not self.prov(v) or f.kindmask(st, v) != f.K.bit["abstract"]:
            return
        x = self.argindex(f, v.a[0]) if v.op == "ld" else None
        if x == (0, None) and self.conv == "method" and self.recv == f.K.bit["abstract"]:
            return
        self.n_kind += 1
        for o in off[1:]:
            t = mk("ld", f.plus(p, o), 8)
            for at, val in st.truth.items():
                if val and at.op == "cmp" and at.a[0] == "eq" and (at.a[1] is t or at.a[2] is t) and (at.a[1].op == "fn" or at.a[2].op == "fn"):
                    return
        self.rep("C03", f, st, i, "payload of abstract %s used without checking which abstract it is" % self.vs(v))

    def on_gep(self, f, st, i, b):
        K = f.K
        k = K.struct2kind.get(i.x["src"], 0)
        if b.op == "unbox" and k:
            self.need(f, st, i, b.a[0], k)

    def need(self, f, st, i, v, k):
        if not self.prov(v):
            # the result of a helper whose possible kinds are known
            if not (v.op == "s" and v in st.kinds):
                return
        self.n_kind += 1
        m = f.kindmask(st, v)
        if v.op == "ld" and v.a[0].op == "+" and v.a[0].a[1] == self.res_value and v.a[0].a[0].op == "unbox":
            # a failed Result always carries a string (newResultError is its only producer)
            r = v.a[0].a[0]
            if f.kindmask(st, r.a[0]) == f.K.bit["result"] and f.evalc(st, f.cmp("eq", mk("ld", f.plus(r, self.res_status), 4), C(1, 32), 32)) is True:
                m &= f.K.bit["string"]
        if m & ~k:
            self.rep("C03", f, st, i, "%s used as %s while it may be %s" % (self.vs(v), f.K.str(k), f.K.str(m & ~k)))

    def vs(self, v):
        if v.op == "ld":
            x = self.argindex(None, v.a[0])
            if x:
                return "args[%s%d]" % (str(x[1]) + "+" if x[1] is not None else "", x[0])
        return "value " + show(v)

    def on_asnum(self, f, st, i, v):
        if v.op == "num":
            return
        self.need(f, st, i, v, 1)

    def on_call(self, f, st, i, name, args):
        g = f.mod.fns.get(name) if name else None
        if not g:
            return
        for n, (a, ty) in enumerate(zip(args, g.ditys[1:])):
            if a.op == "unbox":
                k = f.K.of_type(ty) if ty.endswith("*") and not ty.endswith("**") else 0
                if k:
                    self.need(f, st, i, a.a[0], k)


class HelperClient(NativeClient):
    """functions that natives call (and that are not analysed as part of them): elements of the containers they are given"""
    def __init__(self, fn, rep):
        super().__init__("plain", 0, rep)
        self.tys = fn.ditys[1:]
        self.needs = {}          # parameter -> kind its elements must have (decided by the callers)

    def argindex(self, f, a):
        return None

    def root(self, f, v):
        t = v
        if v.op != "ld":
            return None
        while t.op in ("ld", "+", "idx", "unbox", "box"):
            t = t.a[0]
        if t.op != "p" or t.a[0] >= len(self.tys):
            return None
        ty = self.tys[t.a[0]]
        return t.a[0] if ty == "Value" or (ty.endswith("*") and f.K.of_type(ty)) else None

    def prov(self, v):
        return self.root(self.flow, v) is not None

    def need(self, f, st, i, v, k):
        self.flow = f
        m = f.kindmask(st, v)
        r = self.root(f, v)
        if r is not None and self.tys[r] != "Value" and m & ~k and element_of(f, v) is mk("p", r):
            self.n_kind += 1
            self.needs.setdefault(r, {}).setdefault(k, i)
            return
        super().need(f, st, i, v, k)

    def objaccess(self, f, st, i, a):
        self.flow = f
        super().objaccess(f, st, i, a)


def list_offsets(mod):
    """offset of the element array pointer in a list object"""
    d = mod.ditypes.get("sObjList") or mod.ditypes.get("ObjList")
    va = mod.ditypes.get("ValueArray")
    if not d or not va:
        return None
    o = [m[1] for m in d["m"] if m[0] == "values"]
    p = [m[1] for m in va["m"] if m[0] == "values"]
    return o[0] + p[0] if o and p else None


def list_count(mod):
    d = mod.ditypes.get("sObjList") or mod.ditypes.get("ObjList")
    va = mod.ditypes.get("ValueArray")
    return [m[1] for m in d["m"] if m[0] == "values"][0] + [m[1] for m in va["m"] if m[0] == "count"][0]


def element_of(f, v):
    """the list object whose element v is, or None"""
    e = f.elem(v.a[0])
    off = list_offsets(f.mod)
    if off is None or e is None or e[0].op != "ld":
        return None
    a = e[0].a[0]
    return a.a[0] if a.op == "+" and a.a[1] == off else None


def element_mask(f, st, x):
    """kinds the elements of the list x may have (0: it has none)"""
    n = mk("ld", f.plus(x, list_count(f.mod)), 4)
    if f.evalc(st, f.cmp("slt", C(0, 32), n, 32)) is False:
        return 0
    e = mk("ld", mk("idx", mk("ld", f.plus(x, list_offsets(f.mod)), 8), mk("s", -7), 8), 8)
    m = f.kindmask(st, e)
    k = st.x.get(("el", x))
    return m if k is None else m & k


def list_predicates(mod, K):
    """pure functions that classify a list: what its elements are when they answer true"""
    import flow
    r = {}
    for fn in mod.fns.values():
        if fn.decl or fn.ret not in ("i1", "i8") or fn.nargs != 1 or not fn.ditys or K.of_type(fn.ditys[1]) != K.bit["list"]:
            continue
        if any(i.op in ("store", "call", "invoke") and not (i.callee or "").startswith("llvm.") for i in fn.insts()):
            continue
        f = flow.Flow(mod, fn, K, [])
        try:
            f.run(new_state())
        except flow.Abort:
            continue
        m = 0
        w = int(fn.ret[1:])
        for st, v, i in f.rets:
            f.cur = i.blk
            if f.assume(st, f.cmp("ne", v, C(0, w), w), True):
                m |= element_mask(f, st, mk("p", 0))
        if m != K.ALL:
            r[fn.name] = m
    return r


class CallerClient(Client):
    """element kinds a callee relies on hold at its call sites"""
    def __init__(self, needs, preds, rep):
        self.needs, self.preds, self.rep, self.n = needs, preds, rep, 0

    def call_effect(self, f, st, i, name, args, leaf):
        m = self.preds.get(name)
        if m is None or i.id < 0:
            return None
        w = int(f.mod.fns[name].ret[1:])
        s2 = st.copy()
        s2.x[("el", args[0])] = m
        s2.env[i.id] = C(1, w)
        st.env[i.id] = C(0, w)
        return [st, s2]

    def on_call(self, f, st, i, name, args):
        todo = []
        if name in self.needs:
            todo += [(args[p], k, n) for p, ks in self.needs[name].items() if p < len(args) for k, n in ks.items()]
        g = f.mod.fns.get(name) if name else None
        for a in args:
            if a.op == "fn" and a.a[0] in self.needs and g is not None and not g.decl:
                # the function is called back on what it is passed together with
                h = f.mod.fns[a.a[0]]
                for p, ks in self.needs[a.a[0]].items():
                    ty = h.ditys[1 + p]
                    todo += [(x, k, n) for x, t in zip(args, g.ditys[1:]) if t == ty for k, n in ks.items()]
        for x, k, n in todo:
            self.n += 1
            if x.op == "p":
                continue         # handed on: decided where this function is called
            m = element_mask(f, st, x)
            if m & ~k:
                self.rep("C03", f, st, i, "%s: elements are used as %s in %s() while they may be %s" % (i.wherefn(), f.K.str(k), n, f.K.str(m & ~k)))


def native_state(f, conv, recv):
    st = new_state()
    ac = mk("p", 1)
    st.ints[ac] = (0, 255)
    if conv == "method" and recv:
        st.kinds[mk("ld", mk("p", 2), 8)] = recv
    return st


def abstract_offsets(mod):
    """(offset of the payload pointer, offsets of its function pointers) of the abstract object"""
    d = mod.ditypes.get("sObjAbstract") or mod.ditypes.get("ObjAbstract")
    if not d:
        return None
    pay = [m[1] for m in d["m"] if m[0] == "data"]
    fns = [m[1] for m in d["m"] if m[0] in ("func", "grayFunc", "type")]
    return (pay[0],) + tuple(fns) if pay else None

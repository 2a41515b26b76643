"""Summaries of pure functions that classify one value (such as isValidKey): which kinds of value they answer true and false for."""
import flow
from flow import mk, C, new_state, Client


def predicates(mod, K):
    """{function: (mask when true, mask when false)}"""
    r = {}
    for f in mod.fns.values():
        if f.decl or f.ret not in ("i1", "i8") or f.nargs != 1 or len(f.ditys) != 2 or f.ditys[1] not in ("Value", "uint64_t"):
            continue
        if any(i.op in ("store", "call", "invoke") and not (i.callee or "").startswith("llvm.") for i in f.insts()):
            continue
        m = masks(mod, K, f)
        if m:
            r[f.name] = m
    return r


def masks(mod, K, fn):
    f = flow.Flow(mod, fn, K, [])
    try:
        f.run(new_state())
    except flow.Abort:
        return None
    p = mk("p", 0)
    t = n = 0
    for st, v, i in f.rets:
        w = int(fn.ret[1:])
        c = f.evalc(st, f.cmp("ne", v, C(0, w), w))
        if c is None:
            s2 = st.copy()
            if f.assume(st, f.cmp("ne", v, C(0, w), w), True):
                t |= f.kindmask(st, p)
            if f.assume(s2, f.cmp("ne", v, C(0, w), w), False):
                n |= f.kindmask(s2, p)
        elif c:
            t |= f.kindmask(st, p)
        else:
            n |= f.kindmask(st, p)
    if t == K.ALL and n == K.ALL:
        return None
    return t, n


class Predicates(Client):
    """splits the state at calls of such functions"""
    preds = {}

    def call_effect(self, f, st, i, name, args, leaf):
        m = self.preds.get(name)
        if m is None or i.id < 0 or len(args) != 1:
            return None
        v = args[0]
        out = []
        k = f.kindmask(st, v)
        w = int(f.mod.fns[name].ret[1:])
        for val, mask in ((1, m[0]), (0, m[1])):
            if not k & mask:
                continue
            s2 = st.copy()
            if v.op in ("num", "c", "f"):
                pass
            else:
                s2.kinds[v] = k & mask
            s2.env[i.id] = C(val, w)
            out.append(s2)
        return out

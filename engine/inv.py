"""Difference invariants of loops:  x + c <= y  between the integer variables a loop carries, found by elimination.
All candidates are assumed at the loop head; one that is not re-established on some path through the body is dropped and
the function is analysed again, until the remaining ones are inductive."""
import flow, lin
from flow import mk, C


class Inv:
    """what is assumed (None: not computed yet) and what failed, per loop head"""
    def __init__(self):
        self.c = {}
        self.failed = False


class InvMixin:
    inv = None
    keep = None

    def prune(self, st, live):
        # what is known about a loop's variables is kept while the loop lasts
        if self.inv is not None:
            k = id(live)
            m = self.keep.get(k)
            if m is None:
                bi = next(n for n, l in enumerate(self.live) if l is live)
                m = set(live)
                for h, body in self.headers.items():
                    if bi in body:
                        m |= {i.id for i in self.fn.blocks[h] if i.op == "phi"}
                self.keep[k] = m
            live = m
        super().prune(st, live)

    def edge(self, b, t, st):
        if self.inv is None or not (t in self.headers and b in self.headers[t]):
            return super().edge(b, t, st)
        vals = []
        for i in self.fn.blocks[t]:
            if i.op != "phi":
                break
            if i.ty in ("i32", "i64"):
                for v, p in zip(i.ops, i.x):
                    if p == b:
                        vals.append((mk("s", i.id), self.T(st, v), i.ty))
        cs = self.inv.c.get(t)
        if cs is None:
            cs = self.inv.c[t] = {(x, y): 2 for x, _, tx in vals for y, _, ty in vals if x is not y and tx == ty}
        new = {x: v for x, v, _ in vals}
        fs = None
        for (x, y), c in list(cs.items()):
            if x not in new or y not in new:
                continue
            d = lin.sub(lin.lin(new[y]), lin.lin(new[x]))
            while c >= 0 and not lin.nonneg(self, st, (d[0], d[1] - c)):
                c -= 1
            if c < cs[(x, y)]:
                self.inv.failed = True
                if c < 0:
                    del cs[(x, y)]
                else:
                    cs[(x, y)] = c
        out = super().edge(b, t, st)
        for _, s in out:
            for (x, y), c in cs.items():
                if x in new and y in new:
                    self.assume(s, self.cmp("slt", y, mk("add", x, C(c, 64), 64) if c else x, 64), False)
        return out


def solve(make, init, rounds=12):
    """make() returns a fresh flow; the last one, run under inductive assumptions only, is returned"""
    inv = Inv()
    for n in range(rounds):
        inv.failed = False
        f = make()
        f.inv, f.keep = inv, {}
        f.run(init())
        if not inv.failed:
            return f
    f = make()
    f.run(init())
    return f

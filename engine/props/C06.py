"""The limits of the instruction format are enforced: wherever the compiler narrows a number to one byte (operands: constants,
locals, upvalues, counts; the two halves of a jump), the number fits on every path that has not reported a compile error."""
import frontend, ir, interval

FILES = ["vm/compiler.c", "vm/chunk.c", "vm/scanner.c", "vm/object.c", "vm/value.c", "vm/table.c"]
TABLE = "optionals/optionals.c"

# where a narrowed number is not an operand, or its limit is not a matter of ranges: function -> why
ELSEWHERE = {
    "parseEscapeSequences": "a character of a string (two hexadecimal digits), not code",
}


def error_functions(mod):
    """functions that mark the parser as failed (a member called hadError)"""
    name, d = next((k, v) for k, v in mod.ditypes.items() if any(m[0] == "hadError" for m in v["m"]))
    off = next(o for n, o, _, _ in d["m"] if n == "hadError")
    s = next(k for k in mod.structs if k.split(".")[-1] in (name, name.lstrip("_"), "s" + name) or k == "struct." + name)
    fi = next(k for k, x in enumerate(mod.structs[s]["f"]) if x[0] == off)
    return {f.disp for f in mod.fns.values() for i in f.insts() if i.op == "store" and i.fld == (s, fi)
            and not isinstance(i.ops[0], int) and i.ops[0][0] == "c" and i.ops[0][1]}


def rows(mod):
    """how many modules the import table has"""
    for g in mod.globals.values():
        init = g["init"]
        if g["ty"].startswith("[") and init and init[0] == "a" and "BuiltinModules" in g["ty"]:
            return len(init) - 1
    return None


class An:
    def __init__(self, ctx, W):
        self.ctx, self.W = ctx, W
        self.sites = self.halves = 0
        self.left = {}

    def fn(self, f, a):
        self.f, self.a = f, a
        a.visit(self.hook)

    def root(self, o):
        """the value a byte is taken from: (value, shift)"""
        sh = 0
        while isinstance(o, int):
            d = self.f.defs.get(o)
            if d is None:
                break
            c = d.ops[1][1] if len(d.ops) > 1 and not isinstance(d.ops[1], int) and d.ops[1][0] == "c" else None
            if d.op in ("lshr", "ashr") and c is not None:
                sh += c
            elif d.op in ("sdiv", "udiv") and c == 256:
                sh += 8
            elif not (d.op == "and" and c == 255) and d.op not in ("zext", "sext"):
                break
            o = d.ops[0]
        return o, sh

    def hook(self, st, i):
        if i.op != "trunc" or i.ty != "i8" or not (i.loc and i.loc[0][0] == FILES[0]):
            return
        self.sites += 1
        o = i.ops[0]
        d = self.f.defs.get(o) if isinstance(o, int) else None
        masked = d is not None and d.op == "and" and not isinstance(d.ops[1], int) and d.ops[1][0] == "c" and d.ops[1][1] == 255
        if masked:
            o = d.ops[0]
        v, sh = self.root(o)
        r = self.a.evt(st, o, self.a.wd(o) or 32)
        lo, top = r
        limit = 255
        if sh == 0 and self.pair(st, v):
            limit = 65535
        self.halves += limit > 255 or sh == 8
        if top <= limit and (lo >= 0 or masked or sh or limit > 255):
            return
        for l in i.loc:
            if l[2] in ELSEWHERE:
                self.left[l[2]] = ELSEWHERE[l[2]]
                return
        fn = i.loc[0][2]
        t = lambda x: "any" if abs(x) >= (1 << 31) - 2 else str(x)
        via = " (in %s)" % i.loc[-1][2] if i.loc[-1][2] != fn else ""
        self.ctx.violation("%s/%s: byte" % (FILES[0], fn), i.where(), "%s%s keeps one byte of a number that can be %s..%s without a compile error" % (fn, via, t(lo), t(top)))

    def pair(self, st, v):
        """another byte of the same number is taken: this is the low half of two"""
        k = self.a.canon(st, v) if isinstance(v, int) else v
        for u in self.f.insts():
            if u.op == "trunc" and u.ty == "i8":
                w, sh = self.root(u.ops[0])
                if sh == 8 and (w == v or isinstance(w, int) and self.a.canon(st, w) == k):
                    return True
        return False


def run(ctx):
    err = error_functions(ir.Module(frontend.load(set(), max_inline=0, sroa=False, only=FILES[:1])))
    ctx.require(len(err), 1, "functions that report a compile error")
    table = rows(ir.Module(frontend.load(set(), max_inline=0, sroa=False, only=[TABLE])))
    ctx.require(table or 0, 10, "modules in the import table")
    mod = ir.Module(frontend.load(err, max_inline=100, sroa=False, only=FILES))
    W = interval.Whole(mod, dead=err, results={"findBuiltinModule": (-1, table - 2)})
    rounds = W.solve()
    W.cap_counted()
    an = An(ctx, W)
    for f in W.fns:
        if f.name in W.an:
            an.fn(f, W.an[f.name])
    ctx.cov.update(functions=len(W.an), rounds=rounds, narrowings=an.sites, jump_halves=an.halves, members_counted_by_a_loop=len(W.cap), modules=table - 1, error_functions=sorted(err))
    ctx.cov["obligations"] = an.sites
    ctx.cov["decided_elsewhere"] = ["%s: %s" % x for x in sorted(an.left.items())]
    ctx.cov["rule"] = "what the compiler stores in a byte is in 0..255 (both halves of a jump: 0..65535) on every path without a compile error"
    ctx.require(an.sites, 60, "places where the compiler narrows a number to a byte")
    ctx.require(an.halves, 4, "jump halves")

"""The interpreter loop, one opcode handler at a time.

Every handler is a region of run() entered from the dispatch jump and left through it again (or by
returning).  Each is analysed from an arbitrary operand stack: values above the entry height are the
handler's own, values taken from below are the operands compiled code left there."""
import flow, summ, nativerun
from ir import mk


def opcodes(mod):
    for n, d in mod.enums.items():
        if "OP_CONSTANT" in d and "OP_RETURN" in d:
            return sorted(d.items(), key=lambda x: x[1])
    raise RuntimeError("opcode enumeration not found")


def dispatch(mod):
    """(run function, dispatch block, [(opcode, handler block)])"""
    ops = opcodes(mod)
    for f in mod.fns.values():
        if f.decl:
            continue
        ib = [n for n, b in enumerate(f.blocks) if b[-1].op == "indirectbr"]
        if ib:
            tabs = [g for g in mod.globals.values() if g.get("init") and isinstance(g["init"], (list, tuple)) and any(isinstance(e, (list, tuple)) and len(e) == 3 and e[0] == "ba" for e in flat(g["init"]))]
            if len(ib) != 1 or len(tabs) != 1:
                raise RuntimeError("dispatch structure not recognised")
            bas = [e for e in flat(tabs[0]["init"]) if isinstance(e, (list, tuple)) and len(e) == 3 and e[0] == "ba"]
            return f, ib[0], [(o[0], b[2]) for o, b in zip(ops, bas)], len(bas), len(ops)
    # switch-based interpreter
    for f in mod.fns.values():
        if f.decl or f.disp != "run":
            continue
        best = None
        for n, b in enumerate(f.blocks):
            if b[-1].op == "switch" and (best is None or len(b[-1].x) > len(f.blocks[best][-1].x)):
                best = n
        if best is not None:
            by = {v: d for v, d in f.blocks[best][-1].x[1:]}
            return f, best, [(n, by[v]) for n, v in ops if v in by], len(by), len(ops)
    raise RuntimeError("interpreter loop not found")


def flat(x):
    if isinstance(x, (list, tuple)):
        if x and x[0] == "ba":
            yield x
            return
        for e in x:
            yield from flat(e)


def entry_state(f, fn):
    st = flow.new_state()
    for i in fn.blocks[0]:
        if i.op == "alloca":
            st.env[i.id] = mk("al", i.id)
    return st


def run_handlers(ctx, pids, want=None):
    mod, K = ctx.mod, ctx.K
    P = summ.Program(mod, K)
    fn, disp, tab, nt, no = dispatch(mod)

    def work(items):
        out = []
        for name, blk in items:
            c = HandlerClient(P, fn, name)
            f = flow.Flow(mod, fn, K, [c])
            f.weak, f.track_pops, f.maxstack = P.weak, True, 8
            ab = None
            try:
                f.run(entry_state(f, fn), entry=blk, stop={disp})
            except flow.Abort as e:
                ab = str(e)
            viol = [(p, key, i.where(), msg, nativerun.path_lines(st, ff)) for (p, key, i, msg, ff, st) in c.reports if p in pids]
            exits = sorted({(bool(st.err), None if st.stack is None else len(st.stack), st.base, i is None) for st, v, i in f.rets}, key=str)
            out.append((name, viol, ab, exits, dict(gc=c.n_gc, call=c.n_call)))
        return out
    res = {}
    for part in nativerun.parallel(list(tab), work):
        for name, viol, ab, exits, stats in part:
            res[name] = exits
            for (p, key, wh, msg, path) in viol:
                ctx.violation("run/%s: %s" % (name, key), "%s in run() [%s]" % (wh, name), msg, path)
            if ab:
                ctx.cov.setdefault("handlers_not_decided", []).append("%s: %s" % (name, ab))
    ctx.cov["opcode_handlers_analysed"] = len(tab)
    ctx.require(len(tab), 60, "opcode handlers")
    return res


class HandlerClient(summ.VMClient):
    def __init__(self, prog, fn, opname):
        super().__init__(prog, fn, "handler", summ.Summary(opname))

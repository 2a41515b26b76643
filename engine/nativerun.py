"""One dataflow run per distinct (native, calling convention, receiver kind), shared by the
properties about native entry points.  Natives are spread over worker processes."""
import os, pickle, sys
import flow, natives, summ


def native_roots(ctx):
    seen = {}
    for x in ctx.regs:
        seen.setdefault((x.fn, x.conv, x.recv), []).append(x)
    return seen


def path_lines(st, f):
    """source lines of the block path that led to a state"""
    out, t = [], st.trace
    while t is not None and len(out) < 400:
        t, b = t
        out.append(b)
    out.reverse()
    lines = []
    for b in out:
        for i in f.fn.blocks[b]:
            if i.loc and i.op != "phi":
                l = "%s:%d" % (i.loc[-1][0], i.loc[-1][1])
                if not lines or lines[-1] != l:
                    lines.append(l)
                break
    return lines


def parallel(items, work, n=None):
    """fork workers; work(list of items) -> picklable"""
    n = n or min(8, os.cpu_count() or 1, max(1, len(items)))
    if n <= 1 or len(items) < 4:
        return [work(items)]
    pipes = []
    sys.stdout.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                out = ("ok", work(items[k::n]))
            except BaseException as e:
                import traceback
                out = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    res = []
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        st, v = pickle.loads(d)
        if st == "err":
            raise RuntimeError("worker failed:\n" + v)
        res.append(v)
    return res


def helper_functions(P):
    """functions that may run a collection and are analysed on their own terms (entry points into the
    interpreter loop are decided handler by handler, see handlers.py)"""
    return sorted(n for n in P.gcfns if n not in P.axiom or n in P.axiom_body)


def run_helpers(ctx, pids):
    mod, K = ctx.mod, ctx.K
    P = summ.Program(mod, K)
    names = helper_functions(P)
    names.sort(key=lambda n: -sum(len(b) for b in mod.fns[n].blocks))

    def work(items):
        out = []
        for n in items:
            s = P.analyse(n) if n in P.axiom else P.get(n)
            r = []
            for (p, key, i, msg, ff, st) in P.reports.get(n, ()):
                if p in pids:
                    r.append((key, i.where(), i.wherefn(), msg, path_lines(st, ff)))
            out.append((n, r, P.aborted.get(n), len(s.outcomes or ())))
            if "C10" in pids and balanced(n) and s.outcomes:
                bad = sorted({len(o.push) - o.pops for o in s.outcomes if not o.nstack and not o.err} - {0})
                if bad:
                    i = mod.fns[n].blocks[-1][-1]
                    out.append((n, [("net effect", mod.fns[n].where() if hasattr(mod.fns[n], "where") else mod.fns[n].file, mod.fns[n].disp,
                                     "leaves %s operands on the stack on some path" % ", ".join("%+d" % b for b in bad[:3]), [])], None, 0))
        return out

    def balanced(n):
        """entry points that must leave the operand stack as they found it"""
        f = mod.fns[n]
        if n in P.run_helpers or n in P.axiom:
            return f.disp == "compile"
        return f.disp in ("compile", "compileModuleToClosure") or n in creators
    creators = {f.name for f in mod.fns.values() if not f.decl and f.ret == "i64" and f.nargs == 1 and f.file.startswith("optionals")}
    n_out = 0
    aborted = []
    for part in parallel(names, work):
        for n, r, ab, no in part:
            fn = mod.fns[n]
            n_out += no
            for key, wh, whf, msg, path in r:
                ctx.violation("%s/%s: %s" % (fn.file, fn.disp, key), "%s in %s()" % (wh, whf), msg, path)
            if ab:
                aborted.append("%s: %s" % (fn.disp, ab))
    ctx.cov["helper_functions_analysed"] = len(names)
    ctx.cov["helper_outcomes"] = n_out
    if aborted:
        ctx.cov["helpers_not_decided"] = aborted
    ctx.require(len(names), 200, "functions that may collect")
    return P


def run_kind_helpers(ctx, roots):
    """kind obligations inside the functions natives call; what they require of a container's elements is required of their callers"""
    mod, K = ctx.mod, ctx.K
    P = summ.Program(mod, K)
    names = [n for n, f in mod.fns.items() if not f.decl and n not in roots and f.disp != "run"]
    names.sort(key=lambda n: -sum(len(b) for b in mod.fns[n].blocks))

    def work(items):
        out = []
        for n in items:
            fn = mod.fns[n]
            r, ab = [], None

            def rep(p, f, st, i, msg):
                if p == "C03":
                    r.append((msg, i.where(), i.wherefn(), path_lines(st, f)))
            cl = natives.HelperClient(fn, rep)
            v = summ.VMClient(P, fn, "native", summ.Summary(n))
            f = flow.Flow(mod, fn, K, [cl, v])
            f.weak = P.weak
            try:
                f.run(flow.new_state())
            except flow.Abort as e:
                ab = str(e)
            out.append((n, r, ab, cl.n_kind, {p: {k: fn.disp for k in ks} for p, ks in cl.needs.items()}))
        return out
    needs, und, tot = {}, [], 0
    for part in parallel(names, work):
        for n, r, ab, k, nd in part:
            fn = mod.fns[n]
            tot += k
            for msg, wh, whf, path in r:
                ctx.violation("%s/%s: %s" % (fn.file, fn.disp, msg), "%s in %s()" % (wh, whf), msg, path)
            if ab:
                und.append(ab)
            if nd:
                needs[n] = nd
    ctx.cov["helper_functions_analysed"] = len(names)
    ctx.cov["helper_kind_obligations"] = tot
    if und:
        ctx.cov["helpers_not_decided"] = und
    return needs


def run_natives(ctx, pids, needs=None):
    roots = list(native_roots(ctx).keys())
    mod, K = ctx.mod, ctx.K
    P = summ.Program(mod, K)
    # largest first, so that the workers finish together
    roots.sort(key=lambda r: -sum(len(b) for b in mod.fns[r[0]].blocks))

    lp = natives.list_predicates(mod, K) if needs else {}

    def work(items):
        out = []
        for (fname, conv, recv) in items:
            fn = mod.fns[fname]
            viol, ab = [], None

            def rep(p, f, st, i, msg):
                if p in pids:
                    viol.append((p, msg, i.where(), i.wherefn(), msg, path_lines(st, f)))
            c = natives.NativeClient(conv, recv, rep)
            v = summ.VMClient(P, fn, "native", summ.Summary(fname))
            f = flow.Flow(mod, fn, K, [c, v] + ([natives.CallerClient(needs, lp, rep)] if needs else []))
            f.weak = P.weak
            try:
                f.run(natives.native_state(f, conv, recv))
            except flow.Abort as e:
                ab = "%s: %s" % (fn.disp, e)
            for (p, key, i, msg, ff, st) in v.reports:
                if p in pids:
                    viol.append((p, key, i.where(), i.wherefn(), msg, path_lines(st, ff)))
            out.append((fname, viol, ab, dict(kind=c.n_kind, arg=c.n_arg, use=v.n_use, gc=v.n_gc, alloc=v.n_alloc, call=v.n_call, ret=v.n_ret)))
        return out
    tot = {}
    aborted = []
    for part in parallel(roots, work):
        for fname, viol, ab, st in part:
            fn = mod.fns[fname]
            for (p, key, wh, whf, msg, path) in viol:
                ctx.violation("%s/%s: %s" % (fn.file, fn.disp, key), "%s in %s()" % (wh, whf), msg, path)
            if ab:
                aborted.append(ab)
            for k, n in st.items():
                tot[k] = tot.get(k, 0) + n
    ctx.cov["registrations"] = len(ctx.regs)
    ctx.cov["native_entry_points_analysed"] = len(roots)
    if aborted:
        ctx.cov["not_decided"] = aborted
    ctx.require(len(roots), 150, "native functions")
    return tot, P

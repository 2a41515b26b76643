"""Runs the ownership analysis over every function and pairs what is stored in structures with what their destructors release."""
import own, nativerun

ABSTRACT_DATA = "sObjAbstract"


def field_of(fn, o):
    d = fn.defs.get(o) if isinstance(o, int) else None
    if d is not None and d.op == "getelementptr" and not d.x["v"] and d.x.get("path"):
        return (d.x["path"][-1][0], d.x["path"][-1][2])


def direct_stores(mod):
    """resources put into a field by the very next statement, in functions that are too large to follow path by path"""
    out = []
    for fn in mod.fns.values():
        if fn.decl:
            continue
        for i in fn.insts():
            if i.op == "store" and isinstance(i.ops[0], int):
                d = fn.defs.get(i.ops[0])
                if d is not None and d.op == "call" and own.CREATE.get(d.callee):
                    fld = field_of(fn, i.ops[1])
                    if fld:
                        out.append((fld, own.CREATE[d.callee], i.where(), None, fn.name))
    return out


def run(ctx, mine):
    mod, K = ctx.mod, ctx.K
    names = sorted((f.name for f in mod.fns.values() if not f.decl and f.disp != "run"), key=lambda n: -sum(len(b) for b in mod.fns[n].blocks))

    def work(items):
        P = own.Program(mod, K)
        out = []
        for n in items:
            P.get(n)
            r = P.results.get(n)
            out.append((n, [(k, i.where(), m, p, c) for k, (i, m, p, c) in r.bad.items()] if r else [], r.n if r else None,
                        P.aborted.get(n), r.kept if r else (), r.let if r else (), r.sites if r else (), r.lets if r else (), r.kepts if r else ()))
        return out
    tot, kept, let, sites, undecided, done = {}, [], [], set(), [], 0
    lets, kepts = set(), {}
    for part in nativerun.parallel(names, work):
        for n, bad, cnt, ab, kp, lt, si, ls, ks in part:
            done += 1
            for k, w, m, p, c in bad:
                if mine(c):
                    ctx.violation("%s:%s" % (mod.fns[n].disp, k), w, m, p)
            if ab:
                undecided.append("%s (%s)" % (mod.fns[n].disp, ab))
            for k, v in (cnt or {}).items():
                tot[k] = tot.get(k, 0) + v
            kept += [x + (n,) for x in kp]
            let += [x + (n,) for x in lt]
            sites |= set(si)
            lets |= set(ls)
            for k in ks:
                kepts.setdefault(k, n)
    kept += direct_stores(mod)
    P = own.Program(mod, K)
    n = owners(ctx, mod, P, kept, let, mine) + payloads(ctx, mod, P, kept, let, mine)
    sizes = account(ctx, mod, lets, kepts) if mine("vm") else 0
    ctx.require(done, 500, "functions")
    ctx.require(tot["created"], 500, "resources obtained")
    ctx.require(n, 5, "fields that hold resources")
    ctx.cov.update(functions=done, sites_obtaining_something=len(sites), obtained_on_paths=tot["created"], released_on_paths=tot["released"], sizes_compared=tot["sizes"],
                   returns_checked=tot["returns"], uses_checked=tot["uses"], fields_holding_something=n, field_sizes_compared=sizes, not_followed_path_by_path=undecided)


def owners(ctx, mod, P, kept, let, mine):
    """what is put into a field of a long-lived structure is released by the function that takes the structure apart"""
    gep = set()                      # structures the destructors look into
    for n in P.ends:
        fn = mod.fns.get(n)
        if fn is None or fn.decl:
            continue
        for i in fn.insts():
            if i.op == "getelementptr" and i.x.get("path"):
                gep |= {p[0] for p in i.x["path"]}
    files = {}
    for d, cs in P.abstracts.items():
        for c in cs:
            for i in mod.fns[c].insts():
                if i.loc:
                    files.setdefault(c, i.loc[-1][0])
                    break
    made = set()                     # structures set up by the functions that create an abstract
    for c in files:
        for i in mod.fns[c].insts():
            if i.op == "getelementptr" and i.x.get("path"):
                made |= {p[0] for p in i.x["path"]}
    n, seen = 0, set()
    ends = [(f, c, w.rsplit(":", 1)[0]) for f, c, w, z, fn in let if fn in P.ends]
    for fld, c, w, z, fn in kept:
        if isinstance(c, tuple) or not mine(c) or fld[0] not in gep | made:
            continue
        file = w.rsplit(":", 1)[0]
        if (fld, c, file) in seen:
            continue
        seen.add((fld, c, file))
        if fld[0].endswith("struct.response"):
            continue
        n += 1
        if not any(f in (fld, ("?", fld[1])) and k == c and (x == file or x.startswith("vm/")) for f, k, x in ends):
            ctx.violation("owner:%s:%s:%s" % (mod.fns[fn].disp, fld, c), w, "%s: the %s stored in a field of the structure is not released by the function that takes the structure apart" % (mod.fns[fn].disp, own.NAME.get(c, c)))
    return n


def payloads(ctx, mod, P, kept, let, mine):
    """the payload of an abstract has the size its free function gives back"""
    if not mine("vm"):
        return 0
    n = 0
    for d, cs in sorted(P.abstracts.items()):
        back = {z for f, c, w, z, fn in let if fn == d and f[0].endswith(ABSTRACT_DATA) and c == "vm"}
        for c in sorted(cs):
            got = {z for f, k, w, z, fn in kept if fn == c and f[0].endswith(ABSTRACT_DATA) and k == "vm" and z}
            if not got:
                continue
            n += 1
            if len(back) != 1 or got != back:
                w = [w for f, k, w, z, fn in kept if fn == c and f[0].endswith(ABSTRACT_DATA)][0]
                ctx.violation("payload:%s:%s" % (mod.fns[c].disp, mod.fns[d].disp), w, "%s: a payload of %s bytes is given the free function %s(), which gives back %s" % (
                    mod.fns[c].disp, "/".join(map(str, sorted(got))), mod.fns[d].disp, "/".join(map(str, sorted(back, key=str))) or "nothing"))
    return n


def account(ctx, mod, lets, kepts):
    """a block in a field is given back with the size it was obtained with, whatever the fields of the structure say by then"""
    n = 0
    pats = {}
    for fld, w, size in lets:
        if size is not None and size[0] and all(isinstance(a, int) for a, k in size[0]):
            pats.setdefault(fld, set()).add((size, w))
    for fld, ps in sorted(pats.items()):
        # one size for one kind of block, wherever it is given back
        ref = {}
        for size, w in sorted(ps, key=lambda x: (x[1], repr(x))):
            k = max(abs(c) for a, c in size[0])
            if k in ref and ref[k][0] != size:
                n += 1
                ctx.violation("account:%s:%s" % (fld, k), w, "the block of this field is given back with another size here than at %s" % ref[k][1])
            ref.setdefault(k, (size, w))
    for (fld, w, size, now, wrote), fn in sorted(kepts.items(), key=repr):
        if size is None:
            continue
        ps = pats.get(fld, ())
        file = w.rsplit(":", 1)[0]
        near = [(p, x) for p, x in ps if x.rsplit(":", 1)[0] == file]
        far = not near
        if far:
            # the core structures share layouts: one of the destructors' sizes has to be the right one
            near = [(p, x) for p, x in ps if x.startswith("vm/")]
        now = dict(now)
        bad, good = [], 0
        for p, x in sorted(near, key=repr):
            d, c = {}, p[1] - size[1]
            for a, k in p[0]:
                if a in now:
                    c += k * now[a][1]
                    for b, m in now[a][0]:
                        d[b] = d.get(b, 0) + k * m
                elif a in wrote:
                    d["open"] = 1        # changed, and no longer known
                else:
                    d[a] = d.get(a, 0) + k
            for b, m in size[0]:
                d[b] = d.get(b, 0) - m
            d = {a: k for a, k in d.items() if k}
            if any(isinstance(a, str) and a.startswith("open") for a in d):
                bad = []
                break
            n += 1
            if d or c:
                bad.append(x)
            else:
                good += 1
        if bad and not (far and good):
            ctx.violation("account:%s:%s:%s" % (mod.fns[fn].disp, fld, bad[0].rsplit(":", 1)[0]), w, "%s: the block stored here is given back at %s with another size than it has" % (mod.fns[fn].disp, bad[0]))
    return n

"""Forward rooting analysis over every native and every helper that can run a collection: each object that
has been allocated (or found through a weak table) is tracked until it is on the operand stack or stored in
something reachable from a root; a call that may allocate kills the ones that are neither, and any later
read, write, store, return or pass of a killed object is a violation.  Helpers are summarised (which
parameters they need rooted, what they store where, what they return), so the rule is interprocedural."""
import nativerun
import handlers


def run(ctx):
    tot, _ = nativerun.run_natives(ctx, {"C01"})
    nativerun.run_helpers(ctx, {"C01"})
    handlers.run_handlers(ctx, {"C01"})
    ctx.cov["collection_points"] = tot["gc"]
    ctx.cov["calls_checked"] = tot["call"]
    ctx.cov["rule"] = "no use of an object after a call that may collect while it is unreachable from every root"
    ctx.require(tot["gc"], 1000, "collection points")
    ctx.require(tot["call"], 3000, "calls")
    ctx.also("C02")
    ctx.also("C22")

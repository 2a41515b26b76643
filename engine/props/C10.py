"""Abstract operand stack over every native (helpers summarised): on each return path the stack height equals
the height on entry, and no path pops below it (after a runtime error the stack has been reset, so nothing
may be popped)."""
import nativerun


def run(ctx):
    tot, _ = nativerun.run_natives(ctx, {"C10"})
    nativerun.run_helpers(ctx, {"C10"})
    ctx.cov["returns_checked"] = tot["ret"]
    ctx.cov["rule"] = "net operand-stack effect of every native path is zero, without underflow"
    ctx.require(tot["ret"], 800, "return states")

"""Path-sensitive typestate over every native (helpers summarised): on each return, the error marker is
returned if and only if a runtime error has been raised on that path."""
import nativerun


def run(ctx):
    tot, _ = nativerun.run_natives(ctx, {"C09"})
    ctx.cov["returns_checked"] = tot["ret"]
    ctx.cov["rule"] = "result is the error marker <=> a runtime error was raised on the path"
    ctx.require(tot["ret"], 800, "return states")

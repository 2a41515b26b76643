"""Forward interval/relational dataflow over every registered native (helpers inlined): each load of an
argument slot args[k] must be dominated by facts implying the caller passed that many arguments, and each
load args[i] at a computed index must be bounded by the argument count on both sides."""
import nativerun


def run(ctx):
    tot, _ = nativerun.run_natives(ctx, {"C04"})
    ctx.cov["argument_slot_obligations"] = tot["arg"]
    ctx.cov["rule"] = "argument slot index proved within the argument count at every read"
    ctx.require(tot["arg"], 400, "argument reads")

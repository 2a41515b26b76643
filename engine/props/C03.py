"""Forward kind dataflow over every registered native (helpers inlined): each time a value that came from
the script (an argument, or an element of a container reached from one) is dereferenced as a particular
object type, converted to a number, or handed to a function taking a typed object pointer, the kind set
proved for it at that point must be exactly that type.  Receivers have the type of the method table they
are registered in."""
import nativerun
ASSUME = ["a failed Result always carries a string (its only producer takes a C string)",
          "elements of the host-built registration tables have the type of their table"]


def run(ctx):
    needs = nativerun.run_kind_helpers(ctx, {x.fn for x in ctx.regs})
    tot, _ = nativerun.run_natives(ctx, {"C03"}, needs)
    ctx.cov["kind_obligations"] = tot["kind"]
    ctx.cov["rule"] = "kind set at the use is a subset of the kind the use requires"
    ctx.require(tot["kind"], 1500, "typed uses of script values")

"""Memory blocks are released exactly once, by the matching allocator, with the size they are accounted for, and by the owner they
were given to."""
import ownrun


def run(ctx):
    ownrun.run(ctx, lambda c: c in ("c", "vm", "sqlmem", "curlmem"))

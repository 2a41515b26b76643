"""Files, sockets, directories, processes, libraries, HTTP handles, database connections and statements are released exactly once."""
import ownrun


def run(ctx):
    ownrun.run(ctx, lambda c: c not in ("c", "vm", "sqlmem", "curlmem"))

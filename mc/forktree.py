"""Depth-first exploration of operation sequences with process snapshots.

Every node of the tree is a forked process that inherits the exact state reached
by its prefix (interpreter, library, objects), executes one more operation,
judges it and forks again.  No operation ever has to be undone, and no node sees
the effects of a sibling."""
import os
import pickle
import signal
import traceback

NODE_TIMEOUT = 120


class Report:
    def __init__(self):
        self.states = self.transitions = self.traces = self.checks = 0
        self.failures, self.margin, self.outcomes = [], {}, set()

    def merge(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.checks += r["checks"]
        self.failures += r["failures"]
        for k, v in r["margin"].items():
            if v > self.margin.get(k, (-1,)):
                self.margin[k] = v
        self.outcomes |= r["outcomes"]


def pack(ctx):
    return {k: getattr(ctx, k) for k in ("states", "transitions", "traces", "checks", "failures", "margin", "outcomes")}


def reset(ctx):
    ctx.states = ctx.transitions = ctx.traces = ctx.checks = 0
    ctx.failures, ctx.margin, ctx.outcomes = [], {}, set()


def isolated(fn, timeout=NODE_TIMEOUT):
    """fn() in a forked child; its (pickled) return value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                out = ("ok", fn())
            except BaseException as ex:  # noqa: BLE001
                out = ("error", "%s: %s" % (type(ex).__name__, str(ex)[:300]), traceback.format_exc()[-1500:])
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        return ("error", "the process died", "")
    return pickle.loads(data)


def explore(ctx, ops, depth, run, path=()):
    """run(path, op) executes op in the current process state and judges it with
    ctx; called once per node, in a process that has executed exactly path."""
    for op in ops:
        def node(op=op):
            reset(ctx)
            ctx.state()
            ctx.step()
            run(path, op)
            if depth > 1:
                explore(ctx, ops, depth - 1, run, path + (op,))
            else:
                ctx.trace()
            return pack(ctx)

        res = isolated(node)
        if res[0] == "ok":
            Report.merge(ctx, res[1])
        else:
            ctx.fail("raised", error=res[1], tb=res[2], path=path + (op,))
        if len(ctx.failures) > 200:
            return

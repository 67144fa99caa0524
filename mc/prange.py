"""Parallel loops of the kernels as controlled tasks.

The source of every kernel compiled with parallel=True is taken from the working tree and its outermost prange
loops become calls of a scheduler: the iteration space is cut into contiguous chunks, each run by its own task.
Variables assigned in the loop are private, reduction variables (x += ..., x = x + ..., with +, - or *) start from
the identity in every task and are combined afterwards, everything else is shared, as in compiled parallel loops."""
import ast
import inspect
import sys
import textwrap
import types

import numpy as np

from mc import sched

ACTIVE = None  # the Explorer that decides about the loops being executed


def is_prange(node):
    f = node.iter.func if isinstance(node, ast.For) and isinstance(node.iter, ast.Call) else None
    return isinstance(f, ast.Name) and f.id == "prange" or isinstance(f, ast.Attribute) and f.attr == "prange"


def reductions(body):
    """{name: operator} of the reduction variables; assigned names."""
    red, assigned = {}, set()
    for node in [n for b in body for n in ast.walk(b)]:
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            assigned.add(node.id)
    for node in [n for b in body for n in ast.walk(b)]:
        op = None
        if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
            name, op = node.target.id, node.op
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and isinstance(node.value, ast.BinOp):
            name = node.targets[0].id
            ends = (node.value.left, node.value.right) if not isinstance(node.value.op, ast.Sub) else (node.value.left,)
            if any(isinstance(x, ast.Name) and x.id == name for x in ends):
                op = node.value.op
        if op is not None:
            kind = {ast.Add: "+", ast.Sub: "+", ast.Mult: "*"}.get(type(op))
            red[name] = kind if red.get(name, kind) == kind else None
    return red, assigned


class Split(ast.NodeTransformer):
    """a[i] op= v becomes t = a[i] op v; a[i] = t (two scheduling points)."""

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name):
            return node
        load = ast.parse(ast.unparse(node.target), mode="eval").body
        return [ast.Assign([ast.Name("__t", ast.Store())], ast.BinOp(load, node.op, node.value)),
                ast.Assign([node.target], ast.Name("__t", ast.Load()))]


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_For(self, node):
        if not is_prange(node):
            self.generic_visit(node)
            return node
        red, assigned = reductions(node.body)
        loopvars = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        args = [ast.unparse(a) for a in node.iter.args]
        start, stop = ("0", args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) > 2:
            raise ValueError("prange with a step")
        body = [Split().visit(b) for b in node.body]
        flat = []
        for b in body:
            flat.extend(b if isinstance(b, list) else [b])
        name = "__chunk%d" % self.k
        self.k += 1
        lines = ["def %s(__lo, __hi, __env):" % name]
        for x in sorted(assigned - loopvars):
            lines.append("    if %r in __env: %s = __env[%r]" % (x, x, x))
        lines.append("    for %s in range(__lo, __hi):" % ast.unparse(node.target))
        mod = ast.Module(flat, [])
        lines.append(textwrap.indent(ast.unparse(ast.fix_missing_locations(mod)), " " * 8))
        # a variable is a reduction only if it exists before the loop; decided at run time through __env
        lines.append("    return {%s}" % ", ".join("%r: %s" % (x, x) for x in sorted(red)) if red else "    return {}")
        lines.append("__out = __mc_par(%s, %s, %s, locals(), %r)" % (name, start, stop, {k: v for k, v in red.items()}))
        for x in sorted(red):
            lines.append("if %r in __out: %s = __out[%r]" % (x, x, x))
        return ast.parse("\n".join(lines)).body


def transform(f):
    """Replace the code of kernel f; returns the number of loops."""
    src = textwrap.dedent(inspect.getsource(f))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    doc = ast.get_docstring(fd)
    if doc is not None:
        fd.body = fd.body[1:] or [ast.Pass()]
    lp = Loops()
    tree = ast.fix_missing_locations(lp.visit(tree))
    if not lp.k:
        return 0
    text = ast.unparse(tree)
    fn = "/prange/%s.py" % f.__name__
    ns = {}
    exec(compile(text, fn, "exec"), f.__globals__, ns)  # pylint: disable=exec-used
    f.__globals__["__mc_par"] = par
    f.__code__ = ns[f.__name__].__code__
    return lp.k


def install():
    """Transform every parallel kernel of the package; {name: number of loops}."""
    out = {}
    for mname, mod in list(sys.modules.items()):
        if not (mname == "thewalrus" or mname.startswith("thewalrus.")):
            continue
        for f in list(vars(mod).values()):
            opts = getattr(f, "__mc_jit__", None)
            if isinstance(f, types.FunctionType) and opts and opts.get("parallel") and f.__module__ == mname and f.__name__ not in out:
                try:
                    out[f.__name__] = transform(f)
                except (ValueError, SyntaxError, OSError, KeyError):
                    out[f.__name__] = 0  # not a loop this model covers; the compiled units still run it
    return out


def identity(x, kind):
    if isinstance(x, np.ndarray):
        return np.zeros_like(x) if kind == "+" else np.ones_like(x)
    return type(x)(0 if kind == "+" else 1)


def par(chunk, start, stop, env, red):
    start, stop = int(start), int(stop)
    env = {k: v for k, v in env.items() if not k.startswith("__")}
    if ACTIVE is None:
        return chunk(start, stop, env)
    return ACTIVE.loop(chunk, start, stop, env, red)


class Explorer:
    """Executes one prange loop (number target of the call) in the given chunks under a Control, the others in order."""

    def __init__(self, target=None, cuts=(), control=None):
        self.target, self.cuts, self.control = target, cuts, control
        self.seen = []
        self.inside = False

    def loop(self, chunk, start, stop, env, red):
        if self.inside:
            return chunk(start, stop, env)
        k = len(self.seen)
        self.seen.append((chunk.__code__.co_filename, chunk.__name__, stop - start))
        # names that are only defined inside the loop are no reductions
        red = {x: v for x, v in red.items() if x in env}
        if k != self.target or any(v is None for v in red.values()):
            r = chunk(start, stop, env)
            return {x: r[x] for x in r}
        edges = [start] + [start + c for c in self.cuts] + [stop]
        tasks = []
        for lo, hi in zip(edges, edges[1:]):
            e = dict(env)
            for x, kind in red.items():
                e[x] = identity(env[x], kind)
            tasks.append(lambda lo=lo, hi=hi, e=e: chunk(lo, hi, e))
        self.inside = True
        try:
            parts = self.control.run(tasks)
        finally:
            self.inside = False
        out = {}
        for x, kind in red.items():
            v = env[x]
            for p in parts:
                v = v + p[x] if kind == "+" else v * p[x]
            out[x] = v
        return out


def run(call, target=None, cuts=(), control=None):
    """(result, loops executed)"""
    global ACTIVE
    ex = Explorer(target, cuts, control)
    ACTIVE = ex
    try:
        return call(), ex.seen
    finally:
        ACTIVE = None


def schedules(call, target, cuts, bound, extra=(), functions=None):
    """Yields (result, control) for every schedule of the loop within the preemption bound."""
    stack = [[]]
    while stack:
        ctl = sched.Control(stack.pop(), bound, ("/prange/" + target[1],) + tuple(extra) if isinstance(target, tuple) else ("",), functions)
        res, _ = run(call, target[0] if isinstance(target, tuple) else target, cuts, ctl)
        yield res, ctl
        stack.extend(sched.successors(ctl))

"""Parallel loops under simulation: the iterations of numba's prange run as coroutines of simulated threads.

A compiled kernel is replaced by its own Python source in which the body of each outermost parallel loop has become a
generator that yields after every statement. The iterations are dealt out to a few simulated threads, and a seeded scheduler
decides after every statement which thread goes on, so iterations interleave as they do on real cores. Names assigned in the
body are private to an iteration, as in numba; a loop that carries scalars across iterations (a reduction) keeps its source
and only has its order permuted.
"""

import ast
import inspect
import random
import textwrap


def _is_prange(node):
    return isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and (
        (isinstance(node.iter.func, ast.Attribute) and node.iter.func.attr == "prange") or (isinstance(node.iter.func, ast.Name) and node.iter.func.id == "prange")
    )


class _Yields(ast.NodeTransformer):
    """Yield after every simple statement; `continue` of the parallel loop ends the iteration."""

    def __init__(self):
        self.depth = 0

    def _block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            out.append(s)
            if not isinstance(s, (ast.Return, ast.Continue, ast.Break)):
                out.append(ast.Expr(ast.Yield(None)))
        return out

    def visit_For(self, node):
        self.depth += 1
        node.body = self._block(node.body)
        self.depth -= 1
        return node

    def visit_While(self, node):
        self.depth += 1
        node.body = self._block(node.body)
        self.depth -= 1
        return node

    def visit_If(self, node):
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse) if node.orelse else []
        return node

    def visit_Continue(self, node):
        return node if self.depth else ast.Return(None)


def _stored(nodes):
    return {n.id for b in nodes for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def _convert(fn):
    """The Python function behind a kernel with its parallel loops turned into calls of __parallel__; None if that is not possible."""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except (OSError, SyntaxError, TypeError):
        return None
    func = tree.body[0]
    if not isinstance(func, ast.FunctionDef) or fn.__closure__:
        return None
    func.decorator_list = []
    loops = []

    def outermost(body):
        for s in body:
            if _is_prange(s):
                loops.append(s)
            elif isinstance(s, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
                for part in ("body", "orelse", "finalbody"):
                    outermost(getattr(s, part, []))

    outermost(func.body)
    if not loops:
        return None
    inside = {id(n) for lp in loops for b in lp.body for n in ast.walk(b)}
    loads_outside = {n.id for n in ast.walk(func) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside}
    for lp in loops:
        if not isinstance(lp.target, ast.Name) or lp.orelse:
            return None
        if _stored(lp.body) & (loads_outside | {a.arg for a in func.args.args}):
            return None
        if any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Try, ast.With, ast.FunctionDef, ast.Lambda)) for b in lp.body for n in ast.walk(b)):
            return None

    class Replace(ast.NodeTransformer):
        def __init__(self):
            self.n = 0

        def visit_For(self, node):
            if node not in loops:
                self.generic_visit(node)
                return node
            self.n += 1
            name = f"__body{self.n}"
            body = _Yields()._block(node.body) + [ast.Expr(ast.Yield(None))]
            d = ast.FunctionDef(
                name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(node.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[]
            )
            call = ast.Expr(ast.Call(ast.Name("__parallel__", ast.Load()), [ast.Name(name, ast.Load())] + node.iter.args, []))
            return [d, call]

    func = Replace().visit(func)
    tree.body = [func]
    ast.fix_missing_locations(tree)
    return compile(tree, inspect.getsourcefile(fn) or "<kernel>", "exec"), func.name


def install(ctx, mod, classes, seed, interleave):
    """Every compiled function of `mod` and of the classes runs as Python; returns how many were replaced."""
    import numba

    rng = random.Random(seed)

    def prange(*a):
        it = list(range(*(int(x) for x in a)))
        rng.shuffle(it)
        ctx.faults["iteration-reorder"] = ctx.faults.get("iteration-reorder", 0) + 1
        return it

    def parallel(body, *a):
        it = list(range(*(int(x) for x in a)))
        n = min(len(it), rng.randrange(2, 5))
        if n == 0:
            return
        cuts = sorted(rng.randrange(len(it) + 1) for _ in range(n - 1))
        parts = [it[i:j] for i, j in zip([0] + cuts, cuts + [len(it)])]
        threads = [iter(()) for _ in parts]
        live = list(range(len(parts)))
        burst = rng.choice([1, 3, 20])
        switches = 0
        cur = live[0]
        left = 0
        while live:
            if left <= 0:
                nxt = live[int(rng.random() * len(live))]
                switches += nxt != cur
                cur = nxt
                left = 1 + int(rng.random() * burst)
            left -= 1
            try:
                next(threads[cur])
            except StopIteration:
                if parts[cur]:
                    threads[cur] = body(parts[cur].pop(0))
                else:
                    live.remove(cur)
                    left = 0
        ctx.schedule_points += switches
        if switches:
            ctx.fault("iteration-interleave")

    def replacement(f):
        conv = _convert(f.py_func) if interleave else None
        if conv is None:
            return f.py_func
        env = dict(f.py_func.__globals__)
        env["__parallel__"] = parallel
        exec(conv[0], env)
        ctx.probe("loops-interleaved")
        return env[conv[1]]

    numba.prange = prange
    done = 0
    for k, v in list(vars(mod).items()):
        if hasattr(v, "py_func"):
            setattr(mod, k, replacement(v))
            done += 1
        if k == "prange":
            setattr(mod, k, prange)
    for cls in classes:
        for k, v in list(vars(cls).items()):
            f = v.__func__ if isinstance(v, staticmethod) else v
            if hasattr(f, "py_func"):
                g = replacement(f)
                setattr(cls, k, staticmethod(g) if isinstance(v, staticmethod) else g)
                done += 1
    return done

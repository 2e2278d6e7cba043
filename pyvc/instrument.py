"""Mechanical instrumentation of /repo's current source.

The source text of every module of the package is parsed on every run and compiled after the following
rewriting, which is all that separates the verified program from the program that runs:

 * names bound by imports of numpy/scipy/multiprocessing/collections/itertools/functools/math/operator/copy
   are passed through `VC__.wrap`, which replaces library objects by their symbolic counterparts;
   imports of the package itself are redirected to the instrumented copy;
 * the builtins range, len, enumerate, zip, min, max, all, any, sum, abs, list, tuple, map, int, float, bool,
   isinstance, type, sorted, reversed, round, print are shadowed by versions that accept symbolic values and otherwise call
   the builtin;
 * every function gets the innermost decorator `VC__.fn(<qualified name>)`, the place where contracts apply;
 * `for` and `while` statements call `VC__` at the loop head and after the loop (invariant / havoc points; a `for` loop without a
   specification whose only effect is one append per iteration to local lists is evaluated once at a generic index);
 * comprehensions become calls with the element expression as a lambda.

Nothing is dropped: every statement and expression of the source is executed.
"""
import ast
import builtins
import importlib
import os
import sys
import types
import hashlib

PKG = "pyswarms"
VPKG = "vc_pyswarms"


def assigned_names(body):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)
    for s in body:
        V().visit(s)
    return out


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.locals = []
        self.nloop = 0

    def q(self):
        return ".".join([self.mod] + self.stack)

    def call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name("VC__", ast.Load()), name, ast.Load()), list(args), [])

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        a = n.args
        glob = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        self.locals.append(({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | set(assigned_names(n.body))) - glob)
        self.generic_visit(n)
        qn = self.q()
        self.stack.pop()
        self.locals.pop()
        n.decorator_list = n.decorator_list + [self.call("fn", ast.Constant(qn))]
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name.split(".")[0] == PKG:
                a = ast.alias(VPKG + a.name[len(PKG):], a.asname)
                if a.asname is None:
                    raise SyntaxError("absolute import of the package without alias")
            out.append(ast.Import([a]))
            nm = a.asname or a.name.split(".")[0]
            out.append(ast.Assign([ast.Name(nm, ast.Store())], self.call("wrap", ast.Name(nm, ast.Load()))))
        return out

    def visit_ImportFrom(self, n):
        if n.module == "__future__":
            return n
        if n.level == 0 and n.module and n.module.split(".")[0] == PKG:
            n.module = VPKG + n.module[len(PKG):]
        out = [n]
        for a in n.names:
            if a.name == "*":
                continue
            nm = a.asname or a.name
            out.append(ast.Assign([ast.Name(nm, ast.Store())], self.call("wrap", ast.Name(nm, ast.Load()))))
        return out

    def _rebind(self, names, method, L):
        st = [ast.Assign([ast.Name("__vc_d", ast.Store())],
                         ast.Call(ast.Attribute(ast.Name(L, ast.Load()), method, ast.Load()),
                                  [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))]
        for x in names:
            st.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [ast.Name("__vc_d", ast.Load())]),
                             [ast.Assign([ast.Name(x, ast.Store())],
                                         ast.Subscript(ast.Name("__vc_d", ast.Load()), ast.Constant(x), ast.Load()))], []))
        return st

    def visit_For(self, n):
        self.nloop += 1
        L, IT = "__vc_L%d" % self.nloop, "__vc_it%d" % self.nloop
        line = n.lineno
        names = assigned_names(n.body + [ast.Assign([n.target], ast.Constant(0))])
        loc = self.locals[-1] if self.locals else ()
        accs = sorted({c.func.value.id for s in n.body for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                       and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id in loc} - set(names))
        self.generic_visit(n)
        infun = bool(self.locals)
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         self.call("loop", ast.Constant(self.q()), ast.Constant(line), n.iter, ast.Constant(tuple(names)), ast.Constant(tuple(accs))))
        head = self._rebind(names, "enter", L) if infun else []
        head.append(ast.Assign([n.target], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "value", ast.Load()),
                                                    [ast.Name(IT, ast.Load())], [])))
        loop = ast.For(ast.Name(IT, ast.Store()), ast.Name(L, ast.Load()), head + n.body, n.orelse)
        post = self._rebind(names + accs, "after", L) if infun else []
        return [pre, loop] + post

    def visit_While(self, n):
        self.nloop += 1
        L, IT = "__vc_L%d" % self.nloop, "__vc_it%d" % self.nloop
        line = n.lineno
        names = assigned_names(n.body)
        self.generic_visit(n)
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         self.call("wloop", ast.Constant(self.q()), ast.Constant(line), ast.Constant(tuple(names))))
        head = self._rebind(names, "enter", L)
        head.append(ast.If(ast.UnaryOp(ast.Not(), n.test),
                           [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "leave", ast.Load()), [], []))] +
                           n.orelse + [ast.Break()], []))
        loop = ast.For(ast.Name(IT, ast.Store()), ast.Name(L, ast.Load()), head + n.body, [])
        return [pre, loop]

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) \
                and n.comparators[0].value is None and not isinstance(n.left, ast.Constant):
            n.left = self.call("known", n.left)
        return n

    # comprehensions ----------------------------------------------------
    def _comp(self, n, kind, elt):
        self.generic_visit(n)
        gens = n.generators
        if any(g.is_async for g in gens):
            raise SyntaxError("async comprehension")

        def build(k):
            g = gens[k]
            inner = elt() if k == len(gens) - 1 else build(k + 1)
            args = self._lam_args(g.target)
            cond = ast.Constant(None)
            if g.ifs:
                t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                cond = ast.Lambda(args, self._lam_body(g.target, t))
            nested = ast.Constant(k != len(gens) - 1)
            return self.call("comp", ast.Constant(kind if k == 0 else "list"), g.iter,
                             ast.Lambda(args, self._lam_body(g.target, inner)), cond, nested)
        return build(0)

    def _lam_args(self, target):
        if isinstance(target, ast.Name):
            a = [ast.arg(target.id)]
        else:
            a = [ast.arg("__vc_e")]
        return ast.arguments([], a, None, [], [], None, [])

    def _lam_body(self, target, e):
        if isinstance(target, ast.Name):
            return e
        # bind a tuple target through a nested lambda on unpacked values
        names = []

        def flat(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    flat(x)
            else:
                raise SyntaxError("comprehension target")
        flat(target)
        if any(not isinstance(x, ast.Name) for x in target.elts):
            raise SyntaxError("nested comprehension target")
        lam = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), e)
        return ast.Call(lam, [ast.Starred(self.call("unpack", ast.Name("__vc_e", ast.Load()), ast.Constant(len(names))), ast.Load())], [])

    def visit_ListComp(self, n):
        return self._comp(n, "list", lambda: n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", lambda: n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", lambda: n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", lambda: ast.Tuple([n.key, n.value], ast.Load()))


def instrument(src, modname, path):
    tree = ast.parse(src, path)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class Loader:
    """loads the package of a source tree in instrumented form, under the name vc_pyswarms"""

    def __init__(self, repo, vc):
        self.repo, self.vc = repo, vc
        self.hashes = {}

    def find_spec(self, name, path=None, target=None):
        if name != VPKG and not name.startswith(VPKG + "."):
            return None
        rel = os.path.join(self.repo, PKG, *name.split(".")[1:])
        if os.path.isdir(rel):
            f, pk = os.path.join(rel, "__init__.py"), True
        else:
            f, pk = rel + ".py", False
        if not os.path.exists(f):
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pk)
        if pk:
            spec.submodule_search_locations = [rel]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        src = open(f, encoding="utf-8").read()
        real = PKG + mod.__name__[len(VPKG):]
        self.hashes[os.path.relpath(f, self.repo)] = hashlib.sha256(src.encode()).hexdigest()
        mod.__dict__["VC__"] = self.vc
        mod.__dict__.update(self.vc.builtins)
        mod.__file__ = f
        exec(instrument(src, real, f), mod.__dict__)

    def install(self):
        sys.meta_path.insert(0, self)
        return importlib.import_module(VPKG)

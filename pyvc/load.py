"""Loading the code under contract: functions are taken from the repository's current AST on every run.

Dropped by the extraction: decorators (numba jit/njit, contextmanager and log wrappers are recorded per function), annotations, docstrings.
Changed by the extraction: a `for` (or annotated `while`) whose iterable is symbolic goes to loop.py; everything else is the statement as written,
executed by CPython.  Names resolve in the module's own namespace: numpy/xarray/dask to models (npm.py, xrm.py), functions and classes of the
repository to their own AST (so extracted helpers are followed) unless a contract replaces the callee.
"""
import ast, builtins, copy, os, types
import z3
from . import core
from .core import Unsupported, Sym, lift
E = core.E


def _strip(fn):
    fn.decorator_list = []
    fn.returns = None
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        x.annotation = None
    if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str):
        fn.body = fn.body[1:] or [ast.Pass()]
    return fn


class _Stores(ast.NodeVisitor):
    """Names bound by a statement list in its own scope."""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def stores(stmts):
    v = _Stores()
    for s in stmts:
        v.visit(s)
    return v.names


class _Flow(ast.NodeTransformer):
    """break/continue/return of a loop body that became a function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_While = visit_For

    def visit_Continue(self, n):
        return ast.parse("return ('c', None)").body[0] if self.depth == 0 else n

    def visit_Break(self, n):
        return ast.parse("return ('b', None)").body[0] if self.depth == 0 else n

    def visit_Return(self, n):
        return ast.Return(ast.Tuple([ast.Constant("r"), n.value or ast.Constant(None)], ast.Load()))


class _Loops(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.k = 0

    def visit_FunctionDef(self, n):
        if not getattr(n, "_top", False):
            _strip(n)
            return _Loops(self.fname + "." + n.name).top(n)
        return self.generic_visit(n)

    def top(self, n):
        n._top = True
        n.body = self.seq(n.body)
        return n

    def seq(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            return ast.Call(ast.Name("_pv_list", ast.Load()), [], [])
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if not n.keys:
            return ast.Call(ast.Name("_pv_dict", ast.Load()), [], [])
        return n

    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            return ast.Call(ast.Name("_pv_dictcomp", ast.Load()), [self._at(ast.Tuple([n.key, n.value], ast.Load()), n.generators[0].target), n.generators[0].iter], [])
        return n

    def _at(self, e, target):
        """lambda __x: e with the target bound to __x"""
        lam = ast.Lambda(ast.arguments([], [ast.arg("__x")], None, [], [], None, []), ast.Constant(None))
        lam.body = ast.Subscript(ast.ListComp(copy.deepcopy(e), [ast.comprehension(copy.deepcopy(target), ast.List([ast.Name("__x", ast.Load())], ast.Load()), [], 0)]),
                                 ast.Constant(0), ast.Load())
        return lam

    def visit_Try(self, n):
        # a gap of the models is never what the code's own handlers are for
        n = self.generic_visit(n)
        again = lambda nm: ast.ExceptHandler(ast.Name(nm, ast.Load()), None, [ast.Raise(None, None)])
        hs = [again("_pv_unsup")] if n.handlers else []
        for h in n.handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if any(t is None or isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in ts):
                hs.append(again("_pv_gaps"))
            hs.append(h)
        n.handlers = hs
        return n

    def visit_AnnAssign(self, n):
        n = self.generic_visit(n)
        if n.value is None:
            return ast.Pass()
        return ast.Assign([n.target], n.value)

    def visit_BoolOp(self, n):
        n = self.generic_visit(n)
        f = "_pv_and" if isinstance(n.op, ast.And) else "_pv_or"
        r = n.values[-1]
        for v in reversed(n.values[:-1]):
            r = ast.Call(ast.Name(f, ast.Load()), [v, ast.Lambda(ast.arguments([], [], None, [], [], None, []), r)], [])
        return r

    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.Call(ast.Name("_pv_not", ast.Load()), [n.operand], [])
        return n

    def visit_IfExp(self, n):
        n = self.generic_visit(n)
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return ast.Call(ast.Name("_pv_ifexp", ast.Load()), [n.test, lam(n.body), lam(n.orelse)], [])

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        # `x in seq` must not force a bool of symbolic values
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("_pv_in", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.Call(ast.Name("_pv_not", ast.Load()), [c], []) if isinstance(n.ops[0], ast.NotIn) else c
        if len(n.ops) > 1:
            # a < b < c without evaluating the truth of the first part
            parts, left = [], n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(ast.Compare(copy.deepcopy(left), [op], [r]))
                left = r
            r = parts[-1]
            for v in reversed(parts[:-1]):
                r = ast.Call(ast.Name("_pv_and", ast.Load()), [v, ast.Lambda(ast.arguments([], [], None, [], [], None, []), r)], [])
            return r
        return n

    def _comp(self, n):
        n = self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async and isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            g = n.generators[0]
            lam = ast.Lambda(ast.arguments([], [ast.arg("__x")], None, [], [], None, []), ast.Constant(None))
            # [f(t) for t in it]  ->  _pv_comp(lambda __x: f, it, native)   with the target bound through a nested comprehension
            inner = ast.Subscript(ast.ListComp(copy.deepcopy(n.elt), [ast.comprehension(copy.deepcopy(g.target), ast.List([ast.Name("__x", ast.Load())], ast.Load()), [], 0)]),
                                  ast.Constant(0), ast.Load())
            lam.body = inner
            return ast.Call(ast.Name("_pv_comp", ast.Load()), [lam, g.iter], [])
        if len(n.generators) == 1 and n.generators[0].ifs and not n.generators[0].is_async and isinstance(n, ast.ListComp):
            g = n.generators[0]
            c = g.ifs[-1]
            for v in reversed(g.ifs[:-1]):
                c = ast.Call(ast.Name("_pv_and", ast.Load()), [v, ast.Lambda(ast.arguments([], [], None, [], [], None, []), c)], [])
            return ast.Call(ast.Name("_pv_compif", ast.Load()), [self._at(n.elt, g.target), self._at(c, g.target), g.iter], [])
        return n
    visit_ListComp = visit_GeneratorExp = _comp

    def visit_For(self, n):
        k = self.k
        self.k += 1
        n.iter = self.visit(n.iter)
        n.body = self.seq(n.body)
        n.orelse = self.seq(n.orelse)
        it = f"__it{k}"
        names = stores([n]) or []
        names = [x for x in names if not x.startswith("__")]
        body = [_Flow().visit(copy.deepcopy(s)) for s in n.body]
        tgt = copy.deepcopy(n.target)
        bdef = ast.parse(f"def __body{k}(__x): pass").body[0]
        bdef.body = ([ast.Nonlocal(list(names))] if names else []) + [ast.Assign([tgt], ast.Name("__x", ast.Load()))] + body + [ast.parse("return ('n', None)").body[0]]
        get = f"def __get{k}():\n    __d = {{}}\n" + "".join(f"    try:\n        __d[{x!r}] = {x}\n    except NameError:\n        pass\n" for x in names) + "    return __d"
        sett = f"def __set{k}(__d):\n" + (f"    nonlocal {', '.join(names)}\n" if names else "") + "".join(f"    if {x!r} in __d:\n        {x} = __d[{x!r}]\n" for x in names) + "    return None"
        run = f"__r{k} = _pv_loop.for_loop(({self.fname!r}, {k}), __it{k}, __body{k}, __get{k}, __set{k}, locals(), {tuple(names)!r})\nif __r{k}[0] == 'r':\n    return __r{k}[1]"
        native = ast.For(n.target, ast.Name(it, ast.Load()), n.body, n.orelse)
        sym = [bdef] + ast.parse(get).body + ast.parse(sett).body + ast.parse(run).body
        if n.orelse:
            sym = ast.parse("_pv_loop.no_else()").body + sym
        out = [ast.Assign([ast.Name(it, ast.Store())], n.iter),
               ast.If(ast.parse(f"_pv_loop.is_sym(__it{k}, ({self.fname!r}, {k}))", mode="eval").body, sym, [native])]
        return out

    def visit_While(self, n):
        k = self.k
        self.k += 1
        n.test = self.visit(n.test)
        n.body = self.seq(n.body)
        names = [x for x in stores([n]) if not x.startswith("__")]
        body = [_Flow().visit(copy.deepcopy(s)) for s in n.body]
        bdef = ast.parse(f"def __body{k}(__x): pass").body[0]
        bdef.body = ([ast.Nonlocal(list(names))] if names else []) + body + [ast.parse("return ('n', None)").body[0]]
        get = f"def __get{k}():\n    __d = {{}}\n" + "".join(f"    try:\n        __d[{x!r}] = {x}\n    except NameError:\n        pass\n" for x in names) + "    return __d"
        sett = f"def __set{k}(__d):\n" + (f"    nonlocal {', '.join(names)}\n" if names else "") + "".join(f"    if {x!r} in __d:\n        {x} = __d[{x!r}]\n" for x in names) + "    return None"
        cdef = ast.FunctionDef(f"__cond{k}", ast.arguments([], [], None, [], [], None, []), [ast.Return(copy.deepcopy(n.test))], [], None, type_params=[])
        run = f"__r{k} = _pv_loop.while_loop(({self.fname!r}, {k}), __cond{k}, __body{k}, __get{k}, __set{k}, locals(), {tuple(names)!r})\nif __r{k}[0] == 'r':\n    return __r{k}[1]"
        sym = [bdef, cdef] + ast.parse(get).body + ast.parse(sett).body + ast.parse(run).body
        return [ast.If(ast.parse(f"_pv_loop.has_spec(({self.fname!r}, {k}))", mode="eval").body, sym, [n])]


def transform(fn, qual):
    fn = _strip(copy.deepcopy(fn))
    fn = _Loops(qual).top(fn)
    return ast.fix_missing_locations(fn)


class NS(dict):
    """Module namespace: resolves names lazily."""

    def __init__(self, repo, modname, tree):
        super().__init__()
        self.repo, self.modname = repo, modname
        self.defs = {}
        self.imports = {}
        self.assigns = {}
        for s in tree.body:
            self._scan(s)
        dict.__setitem__(self, "__name__", modname)
        dict.__setitem__(self, "__builtins__", builtins)

    def _scan(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.defs[s.name] = s
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None, 0)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                self.imports[a.asname or a.name] = (s.module or "", a.name, s.level)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.assigns[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self._scan(b)

    def __missing__(self, name):
        v = self.repo.resolve(self, name)
        dict.__setitem__(self, name, v)
        return v


class Repo:
    def __init__(self, root, models, overrides=None):
        self.root = root
        self.models = models                  # dict: dotted name -> model object
        self.overrides = overrides or {}      # (module, qualname) -> callable or factory
        self.mods = {}
        self.shadow = {}                      # builtins replaced by models
        self.used = {}                        # qualname -> (file, line, decorators)
        self.loop = None

    def ns(self, mod):
        if mod not in self.mods:
            p = os.path.join(self.root, *mod.split("."))
            p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
            if not os.path.exists(p):
                raise Unsupported(f"module {mod} not found")
            self.mods[mod] = NS(self, mod, ast.parse(open(p).read()))
            self.mods[mod].path = os.path.relpath(p, self.root)
        return self.mods[mod]

    def sig(self, mod, name):
        """Signature of a repository function (defaults that are literals)."""
        import inspect
        parts = name.split(".")
        d = self.ns(mod).defs[parts[0]]
        for q in parts[1:]:
            d = [x for x in d.body if isinstance(x, ast.FunctionDef) and x.name == q][0]
        a = copy.deepcopy(d.args)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                x.annotation = None
        f = ast.FunctionDef("f", a, [ast.Pass()], [], None, type_params=[])
        g = {}
        exec(compile(ast.fix_missing_locations(ast.Module([f], [])), "sig", "exec"), g)
        return inspect.signature(g["f"])

    def resolve(self, ns, name):
        if name == "_pv_unsup":
            return core.Unsupported
        if name == "_pv_gaps":
            return (core.Unsupported, TypeError, AttributeError, NameError, AssertionError, z3.Z3Exception, RecursionError)
        if name == "_pv_loop":
            return self.loop
        if name in ("_pv_in", "_pv_comp", "_pv_and", "_pv_or", "_pv_not", "_pv_ifexp", "_pv_list", "_pv_dict", "_pv_dictcomp", "_pv_compif"):
            return self.shadow[name]
        if (ns.modname, name) in self.overrides:
            return self.overrides[(ns.modname, name)]
        if name in ns.defs:
            d = ns.defs[name]
            if isinstance(d, ast.FunctionDef):
                return self.compile_fn(ns, d, name)
            return self.compile_class(ns, d)
        if name in ns.imports:
            m, a, level = ns.imports[name]
            if level:
                base = ns.modname.split(".")
                if not ns.path.endswith("__init__.py"):
                    base = base[:-1]
                base = base[:len(base) - (level - 1)]
                full = ".".join(base + ([m] if m else []))
                if full in self.models:
                    return self.models[full] if a is None else getattr(self.models[full], a)
                if a is None:
                    return self.ns(full)
                try:
                    return self.ns(full)[a]
                except KeyError:
                    return self.ns(full + "." + a)
            key = m if a is None else m + "." + a
            if key in self.models:
                return self.models[key]
            if a is not None and m in self.models and hasattr(self.models[m], a):
                return getattr(self.models[m], a)
            if m.split(".")[0] == "marEx":
                return self.ns(m)[a]
            return Opaque(key)
        if name in ns.assigns:
            v = ast.fix_missing_locations(copy.deepcopy(ns.assigns[name]))
            self._pre(ns, v)
            return eval(compile(ast.Expression(v), ns.modname, "eval"), ns)
        if name in self.shadow:
            return self.shadow[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise KeyError(name)

    def _note(self, ns, d, qual):
        self.used[f"{ns.modname}.{qual}"] = {"file": ns.path, "line": d.lineno, "decorators_dropped": [ast.unparse(x) for x in d.decorator_list]}

    def _pre(self, ns, *nodes):
        """Names used by code that runs at definition time."""
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    try:
                        ns[x.id]
                    except KeyError:
                        pass

    def compile_fn(self, ns, d, qual):
        self._note(ns, d, qual)
        t = transform(d, qual)
        self._pre(ns, *d.args.defaults, *[x for x in d.args.kw_defaults if x is not None])
        loc = {}
        exec(compile(ast.Module([t], []), f"{ns.path}:{qual}", "exec"), ns, loc)
        return loc[d.name]

    def compile_class(self, ns, d):
        c = copy.deepcopy(d)
        c.decorator_list = []
        body = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                deco = [x for x in s.decorator_list if ast.unparse(x) in ("property", "staticmethod", "classmethod")]
                self._note(ns, s, d.name + "." + s.name)
                t = transform(s, d.name + "." + s.name)
                t.decorator_list = deco
                self._pre(ns, *s.args.defaults, *[x for x in s.args.kw_defaults if x is not None])
                body.append(t)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self._pre(ns, s.value)
                    body.append(ast.Assign([s.target], s.value))
            else:
                self._pre(ns, s)
                body.append(s)
        c.body = body or [ast.Pass()]
        self._pre(ns, *d.bases)
        loc = {}
        exec(compile(ast.fix_missing_locations(ast.Module([c], [])), f"{ns.path}:{d.name}", "exec"), ns, loc)
        cls = loc[d.name]
        for (m, q), f in self.overrides.items():
            if m == ns.modname and q.startswith(d.name + "."):
                setattr(cls, q.split(".", 1)[1], f)
        return cls

    def fn(self, mod, name):
        """A function under contract."""
        if "." in name:
            cls, m = name.split(".", 1)
            d = self.ns(mod).defs.get(cls)
            if d is None:
                raise Unsupported(f"{mod}.{cls} not found")
            for s in d.body:
                if isinstance(s, ast.FunctionDef) and s.name == m:
                    return self.compile_fn(self.ns(mod), s, name)
            raise Unsupported(f"{mod}.{name} not found")
        if name not in self.ns(mod).defs:
            raise Unsupported(f"{mod}.{name} not found")
        return self.compile_fn(self.ns(mod), self.ns(mod).defs[name], name)

    def nested(self, mod, qual, inner):
        """AST of a function nested in another one."""
        cls, _, m = qual.rpartition(".")
        ns = self.ns(mod)
        body = ns.defs[cls].body if cls else ns.defs.values()
        for s in body:
            if isinstance(s, ast.FunctionDef) and s.name == m:
                for x in ast.walk(s):
                    if isinstance(x, ast.FunctionDef) and x.name == inner:
                        return x
        raise Unsupported(f"{qual}.{inner} not found")

    def fn_nested(self, mod, qual, inner, env):
        """A nested function under contract; its free variables are taken from env."""
        d = self.nested(mod, qual, inner)
        ns = self.ns(mod)
        env.setdefault("_pv_loop", self.loop)
        self._note(ns, d, qual + "." + inner)
        t = transform(d, qual + "." + inner)
        g = _Sub(ns, env)
        self._pre(g, *d.args.defaults)
        loc = {}
        exec(compile(ast.Module([t], []), f"{ns.path}:{qual}.{inner}", "exec"), g, loc)
        return loc[d.name]


class _Sub(dict):
    def __init__(self, ns, env):
        super().__init__(env)
        self.nsp = ns
        dict.__setitem__(self, "__builtins__", builtins)

    def __missing__(self, k):
        if k in ("__name__",):
            return "x"
        return self.nsp[k]


class Opaque:
    """Anything outside the models: usable as a value, not as a meaning."""

    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Opaque(self._name + "." + a)

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._name}")

    def __bool__(self):
        raise Unsupported(f"truth of {self._name}")

    def __repr__(self):
        return f"<{self._name}>"


class Silent:
    """logger, warnings, gc, print: observable output only, no effect on results."""

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return self

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return False

    def __format__(self, s):
        return ""


class Self:
    """`self` of the class under contract: declared fields, methods from the class's own AST (or contracts)."""

    def __init__(self, repo, mod, cls, fields, methods=None):
        object.__setattr__(self, "_i", (repo, mod, cls, methods or {}))
        for k, v in fields.items():
            object.__setattr__(self, k, v)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        repo, mod, cls, methods = self._i
        if a in methods:
            return methods[a]
        d = repo.ns(mod).defs.get(cls)
        if d is not None:
            for s in d.body:
                if isinstance(s, ast.FunctionDef) and s.name == a:
                    return types.MethodType(repo.compile_fn(repo.ns(mod), s, cls + "." + a), self)
        raise Unsupported(f"field self.{a} is not in the contract")

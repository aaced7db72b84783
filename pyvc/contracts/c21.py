"""P21 (verbosity state machine) and P23 (error payloads)."""
import logging as _real
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb
from ..core import sym_int, sym_bool, SymStr, Unsupported
from .. import core
L = "marEx.logging_config"
X = "marEx.exceptions"


def rp_log(tier):
    ops = [["v", True], ["v", False], ["q", True], ["q", False], ["n", 0], ["c", {"quiet": True, "verbose": True}], ["c", {"verbose": True}], ["c", {"level": 10}],
           ["c", {"quiet": True, "level": "DEBUG"}], ["c", {"console_output": False, "verbose": True}]]
    return [["misc", "case_logging", {"seq": [a, b]}] for a in ops for b in ops] + [["misc", "case_logging", {"seq": [a]}] for a in ops]


class Handlers(list):
    """handlers of the package logger: an arbitrary number of earlier ones, then what was added."""

    def __init__(self):
        super().__init__()
        self.old = True

    def clear(self):
        self.old = False
        list.clear(self)

    def __iter__(self):
        if self.old:
            raise Unsupported("iterating over an arbitrary handler list")
        return list.__iter__(self)

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        raise Unsupported("handlers[...]")

    def __delitem__(self, k):
        if k == slice(None):
            return self.clear()
        raise Unsupported("del handlers[...]")

    def __bool__(self):
        return bool(self.old and sym_bool("had_handlers")) or bool(list.__len__(self))


class Handler:
    def __init__(self, kind, target):
        self.kind, self.target, self.level, self.formatter = kind, target, None, None

    def setLevel(self, v):
        self.level = v

    def setFormatter(self, f):
        self.formatter = f

    def close(self):
        pass


class Logger:
    def __init__(self, name):
        self.name, self.level, self.handlers, self.propagate = name, None, Handlers(), sym_bool("propagate0")

    def setLevel(self, v):
        self.level = v

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        if self.handlers.old:
            raise Unsupported("removeHandler")
        if h in self.handlers:
            self.handlers.remove(h)

    def hasHandlers(self):
        return bool(self.handlers)

    def _quiet(self, *a, **k):
        return None
    info = debug = warning = error = critical = log = exception = _quiet


class LogMod:
    """The part of logging the package uses (assumed contract: attribute setters store what they are given)."""
    DEBUG, INFO, WARNING, ERROR, CRITICAL, WARN, NOTSET, FATAL = 10, 20, 30, 40, 50, 30, 0, 50

    def __init__(self):
        self.loggers = {}
        self.handlers = self
        self.Logger = Logger

    def getLogger(self, name="root"):
        return self.loggers.setdefault(name, Logger(name))

    def Formatter(self, fmt=None, datefmt=None, *a, **k):
        return ("fmt", fmt, datefmt)

    def StreamHandler(self, stream=None):
        return Handler("console", stream)

    def RotatingFileHandler(self, fn, **k):
        return Handler("file", fn)
    FileHandler = RotatingFileHandler

    def getLevelName(self, v):
        return "LEVEL"


class PathM:
    def __init__(self, p):
        self.p = p.p if isinstance(p, PathM) else p

    @property
    def parent(self):
        return self

    def mkdir(self, *a, **k):
        return None

    def __bool__(self):
        return True

    def __format__(self, s):
        return "path"


def setup(c, envlevel, envfile):
    E = c.E
    lg = LogMod()
    ev, eq = sym_bool("env_verbose"), sym_bool("env_quiet")
    c.new_repo({"logging": lg, "logging.handlers": lg, "pathlib.Path": PathM},
               {(L, "MAREX_VERBOSE"): ev, (L, "MAREX_QUIET"): eq, (L, "MAREX_LOG_LEVEL"): envlevel, (L, "MAREX_LOG_FILE"): envfile,
                (L, "_current_verbosity_level"): SymStr(z3.Int("mode0")), (L, "_logger_configured"): sym_bool("configured0")})
    return lg, ev, eq


def eqv(a, b):
    return zb(lift(a).e == lift(b).e) if not (a is None or b is None) else z3.BoolVal(a is b)


def mode_is(m, s):
    if isinstance(m, SymStr):
        return (m == s).e
    return z3.BoolVal(m == s)


def check(c, lg, ns, what, q, v, level, envlevel, console, files):
    """mode, level and handlers follow from this request alone."""
    q, v = zb(lift(q).e), zb(lift(v).e)
    m = ns["_current_verbosity_level"]
    c.require(f"{what}: quiet exactly when asked", mode_is(m, "quiet") == q)
    c.require(f"{what}: verbose exactly when asked and not quiet", mode_is(m, "verbose") == And(v, Not(q)))
    c.require(f"{what}: otherwise normal", mode_is(m, "normal") == And(Not(v), Not(q)))
    for f, s in (("is_verbose_mode", "verbose"), ("is_quiet_mode", "quiet")):
        c.require(f"{what}: {f}() tells the mode", zb(lift(ns[f]()).e) == mode_is(m, s))
    g = ns["get_verbosity_level"]()
    c.require(f"{what}: get_verbosity_level() tells the mode", z3.BoolVal(g is m or g == m))
    root = lg.getLogger("marEx")
    norm = getattr(LogMod, envlevel, LogMod.INFO)
    want = level if level is not None else Sym(z3.If(q, LogMod.WARNING, z3.If(v, LogMod.DEBUG, norm)))
    c.require(f"{what}: logger level", eqv(root.level, want))
    c.require(f"{what}: earlier handlers are gone", z3.BoolVal(not root.handlers.old))
    n = int(console) + int(files)
    c.require(f"{what}: exactly the requested handlers, none twice", z3.BoolVal(sorted(h.kind for h in list.__iter__(root.handlers)) == ["console"] * int(console) + ["file"] * int(files)))
    for h in list.__iter__(root.handlers):
        c.require(f"{what}: handler level", eqv(h.level, want))
    c.require(f"{what}: messages are not passed on to other loggers", Not(zb(lift(root.propagate).e)))


@contract(["P21"], f"{L}.configure_logging", rp_log, title="verbosity request")
def configure(c):
    """For every prior state (mode, handlers, environment) the state after a request depends on that request alone; hence the last request of any history wins."""
    for verbose in (None, "sym"):
        for quiet in (None, "sym"):
            for level in (None, "sym"):
                for file in (None, "f"):
                    for envlevel in ("INFO", "DEBUG", "ERROR", "BOGUS") if level is None else ("INFO",):
                        def t():
                            lg, ev, eq = setup(c, envlevel, None)
                            v = None if verbose is None else sym_bool("verbose")
                            q = None if quiet is None else sym_bool("quiet")
                            lv = None if level is None else sym_int("level")
                            con = sym_bool("console")
                            ns = c.repo.ns(L)
                            kw = dict(level=lv, verbose=v, quiet=q, log_file=file, console_output=con)
                            kw = {k: x for k, x in kw.items() if x is not None}
                            ns["configure_logging"](**kw)
                            cb = bool(con)
                            check(c, lg, ns, f"verbose={verbose} quiet={quiet} level={level} file={file} env={envlevel}", eq if q is None else q, ev if v is None else v, lv, envlevel, cb, file is not None)
                        c.run(t)


@contract(["P21"], f"{L}.set_verbose_mode", rp_log, title="mode switches")
def switches(c):
    for fn in ("set_verbose_mode", "set_quiet_mode", "set_normal_logging"):
        for arg in ("default", "sym"):
            if fn == "set_normal_logging" and arg == "sym":
                continue
            def t():
                lg, ev, eq = setup(c, "INFO", None)
                ns = c.repo.ns(L)
                a = sym_bool("on")
                on = Sym(z3.BoolVal(True)) if arg == "default" else a
                ns[fn](*([] if arg == "default" else [a]))
                f = Sym(z3.BoolVal(False))
                v, q = (on, f) if fn == "set_verbose_mode" else (f, on) if fn == "set_quiet_mode" else (f, f)
                check(c, lg, ns, f"{fn}({arg})", q, v, None, "INFO", True, False)
            c.run(t)

    # get_logger never reconfigures a configured package, and configures it at most once
    def t2():
        lg, ev, eq = setup(c, "INFO", None)
        ns = c.repo.ns(L)
        conf = ns["_logger_configured"]
        m0 = ns["_current_verbosity_level"]
        r = ns["get_logger"]("marEx.sub")
        c.require("get_logger of a submodule leaves the mode", z3.BoolVal(ns["_current_verbosity_level"] is m0 and r is lg.getLogger("marEx.sub")))
        ns["get_logger"]("marEx")
        m1 = ns["_current_verbosity_level"]
        c.require("get_logger leaves the mode of a configured package", z3.Implies(conf.e, z3.BoolVal(m1 is m0)))
        n1 = ns["_current_verbosity_level"]
        ns["get_logger"]("marEx")
        c.require("get_logger configures at most once", z3.BoolVal(ns["_current_verbosity_level"] is n1))
    c.run(t2)


# ------------------------------------------------------------------------------------------------ P23
class TStr(str):
    """An arbitrary string: it may be stored, tested for emptiness, and embedded; looking inside is outside the model."""

    def __new__(cls, tok, can_be_empty=False):
        s = super().__new__(cls, "\u27e6" + tok + "\u27e7")
        s.tok, s.flag = tok, can_be_empty
        return s

    def __bool__(self):
        return bool(sym_bool("nonempty_" + self.tok)) if self.flag else True

    def __len__(self):
        raise Unsupported("length of an arbitrary string")

    def _no(self, *a, **k):
        raise Unsupported("inspection of an arbitrary string")
    __getitem__ = __contains__ = split = strip = lower = upper = replace = startswith = endswith = _no


class TList(list):
    def __bool__(self):
        return bool(sym_bool("nonempty_suggestions"))

    def __len__(self):
        raise Unsupported("length of an arbitrary list")


class TDict(dict):
    def __bool__(self):
        return bool(sym_bool("nonempty_context"))


class Any_:
    def __format__(self, s):
        return "\u27e6value\u27e7"
    __str__ = __repr__ = lambda self: "\u27e6value\u27e7"


def rp_err(tier):
    out = []
    for k in "MarExError DataValidationError CoordinateError ProcessingError ConfigurationError DependencyError TrackingError VisualisationError".split():
        out += [["misc", "case_errors", {"cls": k}], ["misc", "case_errors", {"cls": k, "code": "Z9", "details": None}], ["misc", "case_errors", {"cls": k, "suggestions": None, "context": None}]]
    for k in "ValueError TypeError RuntimeError KeyError AttributeError ImportError ModuleNotFoundError OSError ZeroDivisionError".split():
        out.append(["misc", "case_wrap_error", {"kind": k}])
    return out + [["misc", "case_wrap_error", {"message": "mm", "target": "TrackingError"}]]


CODES = {"MarExError": None, "DataValidationError": "DATA_VALIDATION", "CoordinateError": "COORDINATE_ERROR", "ProcessingError": "PROCESSING_ERROR",
         "ConfigurationError": "CONFIGURATION_ERROR", "DependencyError": "DEPENDENCY_ERROR", "TrackingError": "TRACKING_ERROR", "VisualisationError": "VISUALISATION_ERROR"}


@contract(["P23"], f"{X}.MarExError", rp_err, title="error payload")
def payload(c):
    """For every message, details, suggestions, context and code (parametric in their contents): stored unchanged and shown in the text; one base class."""
    ns = c.repo.ns(X)
    base = ns["MarExError"]
    B = z3.BoolVal
    for name in CODES:
        cls = ns[name]
        c.require(f"{name} is a MarExError and an Exception", B(issubclass(cls, base) and issubclass(cls, Exception)))
        for full in (True, False):
            def t():
                m, d, code = TStr("message", True), TStr("details", True), TStr("code", True)
                sg, cx = TList([TStr("s1"), TStr("s2")]), TDict({TStr("k1"): Any_()})
                e = cls(m, details=d, suggestions=sg, error_code=code, context=cx) if full else cls(m)
                txt = str(e)
                c.require(f"{name}: message kept", B(e.message is m))
                c.require(f"{name}: message shown first", B(txt.startswith(str.__str__(m))))
                if full:
                    c.require(f"{name}: details kept", B(e.details is d))
                    c.require(f"{name}: suggestions kept", Or(Not(sym_bool("nonempty_suggestions").e), B(e.suggestions is sg)))
                    c.require(f"{name}: context kept", Or(Not(sym_bool("nonempty_context").e), B(e.context is cx)))
                    c.require(f"{name}: code kept", B(e.error_code is code))
                    for tok, fl in (("details", "details"), ("code", "code"), ("s1", "suggestions"), ("s2", "suggestions"), ("k1", "context"), ("value", "context")):
                        c.require(f"{name}: {tok} shown", z3.Implies(sym_bool("nonempty_" + fl).e, B("\u27e6" + tok + "\u27e7" in txt)))
                else:
                    c.require(f"{name}: defaults", B(e.details is None and list(e.suggestions) == [] and dict(e.context) == {} and e.error_code == CODES[name]))
            c.run(t)
        # state stays its own: adding to one error changes no other, nor the defaults
        def t3():
            a, b = cls("x"), cls("y")
            a.add_suggestion("s")
            a.add_context("k", 1)
            c.require(f"{name}: additions are recorded", B(a.suggestions == ["s"] and a.context == {"k": 1}))
            c.require(f"{name}: additions stay with their error", B(b.suggestions == [] and b.context == {} and cls("z").suggestions == [] and cls("z").context == {}))
        c.run(t3)
    for n, d in list(ns.defs.items()):
        import ast
        if isinstance(d, ast.ClassDef):
            cl = ns[n]
            c.require(f"{n}: every error class of the module derives from the base", B(not issubclass(cl, Exception) or issubclass(cl, base)))


MAPPED = {"ValueError": "DataValidationError", "RuntimeError": "ProcessingError", "TypeError": "DataValidationError", "KeyError": "ConfigurationError", "AttributeError": "ConfigurationError",
          "ImportError": "DependencyError", "ModuleNotFoundError": "DependencyError", "OSError": "MarExError", "ZeroDivisionError": "MarExError", "Custom": "MarExError"}


@contract(["P23"], f"{X}.wrap_exception", rp_err, title="wrapping a foreign exception")
def wrapping(c):
    ns = c.repo.ns(X)
    B = z3.BoolVal
    f = ns["wrap_exception"]
    import builtins
    for kind, want in MAPPED.items():
        K = getattr(builtins, kind, None) or type(kind, (Exception,), {})
        for msg in (None, TStr("own")):
            for tgt in (None, "TrackingError"):
                def t():
                    class K2(K):
                        def __str__(self):
                            return TStr("orig")
                    K2.__name__ = kind
                    o = K2()
                    kw = {}
                    if msg is not None:
                        kw["message"] = msg
                    if tgt:
                        kw["marex_exception_type"] = ns[tgt]
                    w = f(o, **kw)
                    lab = f"{kind}, message {'given' if msg is not None else 'absent'}, type {tgt or 'mapped'}"
                    c.require(f"kind of the library error ({lab})", B(type(w) is ns[tgt or want]))
                    c.require(f"the original is the cause ({lab})", B(w.__cause__ is o))
                    c.require(f"message ({lab})", B(str.__str__(w.message) == ("\u27e6own\u27e7" if msg is not None else "\u27e6orig\u27e7")))
                    c.require(f"the original message is kept ({lab})", B("\u27e6orig\u27e7" in Exception.__str__(w)))
                    c.require(f"the original type is recorded ({lab})", B(kind in [str(v) for v in w.context.values()]))
                c.run(t)


@contract(["P23"], f"{X}.create_data_validation_error", rp_err, title="error constructors")
def constructors(c):
    ns = c.repo.ns(X)
    B = z3.BoolVal
    for fn, cls, kw, want in (("create_data_validation_error", "DataValidationError", "data_info", None), ("create_processing_error", "ProcessingError", "computation_info", None),
                              ("create_coordinate_error", "CoordinateError", "coordinate_ranges", "coordinate_ranges")):
        for ctx in (False, True):
            def t():
                v, m, o = Any_(), TStr("message"), Any_()
                info = {"a": v}
                a = dict(context={"o": o}) if ctx else {}
                e = ns[fn](m, **{kw: info}, **a)
                c.require(f"{fn} builds a {cls} with the message", B(type(e) is ns[cls] and e.message is m))
                c.require(f"{fn} keeps the information given", B((e.context.get(want) is info) if want else (e.context.get("a") is v)))
                if ctx:
                    c.require(f"{fn} keeps the context given", B(e.context.get("o") is o))
                e2 = ns[fn](TStr("m2"))
                c.require(f"{fn} shares nothing between errors", B(dict(e2.context) == {}))
            c.run(t)

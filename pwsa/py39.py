"""Language level and imports of the source tree, decided on the syntax trees."""

import ast
import io
import sys
import tokenize

# names that the standard library gained after Python 3.9
NEW = {
    "typing": "Concatenate ParamSpec ParamSpecArgs ParamSpecKwargs TypeAlias TypeGuard is_typeddict LiteralString Never NotRequired Required Self TypeVarTuple Unpack assert_never assert_type clear_overloads dataclass_transform get_overloads reveal_type TypeAliasType override get_protocol_members is_protocol NoDefault ReadOnly TypeIs",
    "types": "EllipsisType NoneType NotImplementedType UnionType get_original_bases CapsuleType",
    "itertools": "pairwise batched",
    "dataclasses": "KW_ONLY",
    "enum": "CONTINUOUS CONFORM EJECT EnumCheck EnumType FlagBoundary KEEP NAMED_FLAGS ReprEnum STRICT StrEnum UNIQUE global_enum member nonmember property show_flag_values verify EnumDict",
    "datetime": "UTC",
    "contextlib": "aclosing chdir",
    "math": "cbrt exp2 sumprod fma",
    "operator": "call is_none is_not_none",
    "inspect": "get_annotations getasyncgenlocals getasyncgenstate getmembers_static markcoroutinefunction BufferFlags ispackage",
    "hashlib": "file_digest",
    "sys": "exception orig_argv stdlib_module_names activate_stack_trampoline monitoring last_exc getunicodeinternedsize",
    "collections.abc": "Buffer",
    "functools": "Placeholder",
    "os": "process_cpu_count listdrives unshare setns eventfd splice",
    "os.path": "isjunction splitroot isreserved isdevdrive",
    "statistics": "correlation covariance linear_regression kde kde_random",
    "random": "binomialvariate",
    "threading": "gettrace getprofile setprofile_all_threads settrace_all_threads",
    "asyncio": "Runner TaskGroup timeout timeout_at Barrier BrokenBarrierError",
    "copy": "replace",
    "warnings": "deprecated",
    "logging": "getLevelNamesMapping getHandlerByName getHandlerNames",
    "uuid": "uuid6 uuid7 uuid8 main",
    "importlib.metadata": "packages_distributions",
    "unittest": "enterModuleContext",
    "re": "NOFLAG PatternError",
    "locale": "getencoding",
    "sqlite3": "Blob",
    "zlib": "ZLIBNG_VERSION",
    "glob": "translate",
    "pathlib": "UnsupportedOperation",
}
NEW = {k: frozenset(v.split()) for k, v in NEW.items()}
NEW_BUILTINS = frozenset("aiter anext ExceptionGroup BaseExceptionGroup EncodingWarning PythonFinalizationError".split())
NEW_METHODS = {"bit_count": "int.bit_count (3.10)", "add_note": "BaseException.add_note (3.11)", "hardlink_to": "Path.hardlink_to (3.10)", "is_junction": "Path.is_junction (3.12)", "with_segments": "Path.with_segments (3.12)"}
# keyword arguments gained after 3.9: callee name -> keywords
NEW_KEYWORDS = {
    "zip": {"strict"},
    "dataclass": {"slots", "kw_only", "match_args", "weakref_slot"},
    "field": {"kw_only"},
    "bisect": {"key"}, "bisect_left": {"key"}, "bisect_right": {"key"}, "insort": {"key"}, "insort_left": {"key"}, "insort_right": {"key"},
    "TemporaryDirectory": {"ignore_cleanup_errors", "delete"},
    "NamedTemporaryFile": {"delete_on_close"},
    "glob": {"root_dir", "dir_fd", "include_hidden", "case_sensitive", "recurse_symlinks"},
    "iglob": {"root_dir", "dir_fd", "include_hidden"},
    "rmtree": {"onexc", "dir_fd"},
    "realpath": {"strict"},
    "write_text": {"newline"},
    "read_text": {"newline"},
    "exists": {"follow_symlinks"}, "is_file": {"follow_symlinks"}, "is_dir": {"follow_symlinks"},
    "relative_to": {"walk_up"},
    "add_argument": {"deprecated"},
    "ArgumentParser": {"suggest_on_error", "color"},
    "fmean": {"weights"},
    "signature": {"eval_str", "locals", "globals"},
}
GONE = frozenset("distutils imp asynchat asyncore smtpd".split())  # not in every version from 3.9 up
LATER = frozenset(["tomllib"])


def stdlib_module(name):
    top = name.split(".")[0]
    return top in sys.stdlib_module_names and top not in LATER and top not in GONE


class Scan:
    def __init__(self, path, text, local):
        self.path = path
        self.text = text
        self.local = local  # name -> bool: module of this repository
        self.out = []  # (line, function, rule, message)
        self.counts = {"imports": 0, "annotations": 0, "library names": 0, "f-strings": 0, "calls": 0}

    def add(self, line, fn, rule, msg):
        self.out.append((line, fn, rule, msg))

    def run(self):
        try:
            tree = ast.parse(self.text, feature_version=(3, 9))
        except SyntaxError as e:
            self.add(e.lineno or 0, "<module>", "syntax", "syntax newer than Python 3.9: %s" % e.msg)
            return self.out
        self.tree = tree
        self.future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in tree.body)
        self.mods = {}  # local alias -> stdlib module
        self.defined = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.mods[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    self.defined.add(a.asname or a.name)
                    full = n.module + "." + a.name
                    if full in NEW:
                        self.mods[a.asname or a.name] = full
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defined.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.defined.add(n.id)
            elif isinstance(n, ast.arg):
                self.defined.add(n.arg)
        self.classes = {n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
        self.block(tree.body, "<module>", False, False, False)
        self.fstrings()
        return self.out

    # ---- guards
    def tolerant(self, h):
        """Does the handler accept a failing import or lookup?"""
        names = []
        t = h.type
        if t is None:
            names = ["BaseException"]
        else:
            for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                names.append(x.id if isinstance(x, ast.Name) else getattr(x, "attr", ""))
        if not set(names) & {"ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "BaseException", "NameError", "TypeError", "LookupError"}:
            return False
        for s in h.body:
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = s.value.func
                nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")
                if nm in ("exit", "_exit", "quit"):
                    return False
        return True

    def version_test(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and x.attr in ("version_info", "hexversion"):
                return True
            if isinstance(x, ast.Name) and x.id in ("version_info", "TYPE_CHECKING"):
                return True
            if isinstance(x, ast.Attribute) and x.attr == "TYPE_CHECKING":
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr":
                return True
        return False

    # ---- statements
    def block(self, body, fn, guarded, infn, cond):
        for n in body:
            self.stmt(n, fn, guarded, infn, cond)

    def stmt(self, n, fn, g, infn, cond):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                if x is not None and x.annotation is not None:
                    self.annotation(x.annotation, fn, g)
            if n.returns is not None:
                self.annotation(n.returns, fn, g)
            for d in n.decorator_list + a.defaults + [k for k in a.kw_defaults if k is not None]:
                self.expr(d, fn, g)
            q = n.name if fn == "<module>" else fn + "." + n.name
            self.block(n.body, q, g, True, cond)
        elif isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.expr(d, fn, g)
            self.block(n.body, n.name if fn == "<module>" else fn + "." + n.name, g, False, cond)
        elif isinstance(n, ast.AnnAssign):
            if not infn:
                self.annotation(n.annotation, fn, g)
            if n.value is not None:
                self.expr(n.value, fn, g, alias=True)
            self.expr(n.target, fn, g)
        elif isinstance(n, ast.Try):
            ok = any(self.tolerant(h) for h in n.handlers)
            self.block(n.body, fn, g or ok, infn, cond)
            for h in n.handlers:
                if h.type is not None:
                    self.expr(h.type, fn, g)
                # in a handler the other choice is being tried
                self.block(h.body, fn, g, infn, cond)
            self.block(n.orelse, fn, g or ok, infn, cond)
            self.block(n.finalbody, fn, g, infn, cond)
        elif isinstance(n, ast.If):
            v = self.version_test(n.test)
            self.expr(n.test, fn, g or v)
            self.block(n.body, fn, g or v, infn, True)
            self.block(n.orelse, fn, g or v, infn, True)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            ok = False
            for i in n.items:
                c = i.context_expr
                self.expr(c, fn, g)
                if i.optional_vars is not None:
                    self.expr(i.optional_vars, fn, g)
                if isinstance(c, ast.Call) and (getattr(c.func, "attr", "") == "suppress" or getattr(c.func, "id", "") == "suppress"):
                    ok = any(getattr(x, "id", "") in ("ImportError", "ModuleNotFoundError", "Exception") for x in c.args)
            self.block(n.body, fn, g or ok, infn, cond)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imported(n, a.name, None, fn, g, cond)
        elif isinstance(n, ast.ImportFrom):
            if n.level:
                return
            for a in n.names:
                self.imported(n, n.module or "", a.name, fn, g, cond)
        else:
            for f, v in ast.iter_fields(n):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.stmt):
                        self.stmt(x, fn, g, infn, cond)
                    elif isinstance(x, ast.expr):
                        self.expr(x, fn, g, alias=isinstance(n, ast.Assign) and f == "value")

    def imported(self, n, module, name, fn, g, cond):
        self.counts["imports"] += 1
        if self.local(module) or module == "__future__":
            return
        if not stdlib_module(module):
            # imports at module level are also followed by the abstract loader
            if not g and not cond:
                self.add(n.lineno, fn, "third-party", "%s is not in the standard library of every Python from 3.9 on, and its absence is not tolerated" % module)
            return
        if name and not g and name in NEW.get(module, ()):
            self.add(n.lineno, fn, "library-level", "%s.%s does not exist in Python 3.9" % (module, name))

    # ---- expressions
    def annotation(self, e, fn, g):
        self.counts["annotations"] += 1
        if self.future or g:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                self.add(x.lineno, fn, "annotation", "the union type in the annotation %s is evaluated and fails on Python 3.9" % ast.unparse(e))
        self.expr(e, fn, g)

    def typelike(self, x):
        if isinstance(x, ast.Constant):
            return x.value is None
        if isinstance(x, ast.Subscript):
            return self.typelike(x.value)
        if isinstance(x, ast.Name):
            return x.id in ("int", "str", "float", "bool", "bytes", "bytearray", "list", "dict", "tuple", "set", "frozenset", "object", "type", "complex", "Any", "Optional", "Union", "Callable", "Sequence") or x.id in self.classes
        if isinstance(x, ast.Attribute):
            return isinstance(x.value, ast.Name) and self.mods.get(x.value.id) in ("typing", "uuid") and x.attr[:1].isupper()
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
            return self.typelike(x.left) or self.typelike(x.right)
        return False

    def expr(self, e, fn, g, alias=False):
        if e is None or g:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                self.call(x, fn)
            elif isinstance(x, ast.Attribute):
                self.attribute(x, fn)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id in NEW_BUILTINS and x.id not in self.defined:
                    self.add(x.lineno, fn, "library-level", "the builtin %s does not exist in Python 3.9" % x.id)
            elif isinstance(x, ast.Subscript):
                s = x.slice
                if isinstance(s, ast.Tuple) and any(isinstance(y, ast.Starred) for y in s.elts):
                    self.add(x.lineno, fn, "syntax", "unpacking in an index is newer than Python 3.9")
            elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                l, r = self.typelike(x.left), self.typelike(x.right)
                if l and r and not (isinstance(x.left, ast.Constant) and isinstance(x.right, ast.Constant)):
                    self.add(x.lineno, fn, "annotation", "the union type %s is evaluated and fails on Python 3.9" % ast.unparse(x))

    def attribute(self, x, fn):
        d = []
        y = x
        while isinstance(y, ast.Attribute):
            d.append(y.attr)
            y = y.value
        if not isinstance(y, ast.Name) or y.id not in self.mods:
            return
        self.counts["library names"] += 1
        d.reverse()
        m = self.mods[y.id]
        for i, a in enumerate(d):
            if a in NEW.get(m, ()):
                self.add(x.lineno, fn, "library-level", "%s.%s does not exist in Python 3.9" % (m, a))
                return
            m = m + "." + a

    def call(self, x, fn):
        self.counts["calls"] += 1
        f = x.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        kws = {k.arg for k in x.keywords if k.arg}
        nargs = len(x.args)
        star = any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords)
        own = name in self.classes or any(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name for n in ast.walk(self.tree))
        if own:
            return
        bad = NEW_KEYWORDS.get(name, set()) & kws
        if name in ("exists", "glob") and isinstance(f, ast.Name) and self.mods.get(name):
            pass
        if bad:
            self.add(x.lineno, fn, "library-level", "the argument %s of %s does not exist in Python 3.9" % (", ".join(sorted(bad)), name))
        if isinstance(f, ast.Attribute):
            if name in NEW_METHODS and not isinstance(f.value, ast.Name) or name in NEW_METHODS and isinstance(f.value, ast.Name) and f.value.id not in self.mods:
                self.add(x.lineno, fn, "library-level", "%s does not exist in Python 3.9" % NEW_METHODS[name])
            if name == "to_bytes" and not star and not (nargs >= 2 or "byteorder" in kws):
                self.add(x.lineno, fn, "library-level", "int.to_bytes without a byte order fails on Python 3.9")
            if name == "from_bytes" and isinstance(f.value, ast.Name) and f.value.id == "int" and not star and not (nargs >= 2 or "byteorder" in kws):
                self.add(x.lineno, fn, "library-level", "int.from_bytes without a byte order fails on Python 3.9")
            base = self.mods.get(f.value.id) if isinstance(f.value, ast.Name) else None
            if base == "zlib" and name == "compress" and ("wbits" in kws or nargs > 2):
                self.add(x.lineno, fn, "library-level", "zlib.compress takes no wbits on Python 3.9")
            if base == "traceback" and name in ("print_exception", "format_exception") and nargs == 1 and not star and not kws:
                self.add(x.lineno, fn, "library-level", "traceback.%s needs type, value and traceback on Python 3.9" % name)
        if isinstance(f, ast.Name) and name in ("isinstance", "issubclass") and nargs == 2:
            t = x.args[1]
            if isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitOr) and not (self.typelike(t.left) and self.typelike(t.right)):
                self.add(x.lineno, fn, "annotation", "%s with a union type fails on Python 3.9" % name)
            if isinstance(t, ast.Subscript) and getattr(t.value, "id", getattr(t.value, "attr", "")) in ("Union", "Optional"):
                self.add(x.lineno, fn, "annotation", "%s with typing.%s fails on Python 3.9" % (name, getattr(t.value, "id", getattr(t.value, "attr", ""))))

    # ---- f-strings that only the 3.12 tokenizer accepts
    def fstrings(self):
        if not hasattr(tokenize, "FSTRING_START"):
            return
        stack = []  # (quote, line, raw)
        try:
            toks = list(tokenize.generate_tokens(io.StringIO(self.text).readline))
        except (tokenize.TokenError, SyntaxError):
            return
        for t in toks:
            if t.type == tokenize.FSTRING_START:
                q = t.string.lstrip("rRfFbBuU")
                self.counts["f-strings"] += 1
                if any(q == o[0] for o in stack):
                    self.add(t.start[0], "<module>", "syntax", "an f-string reuses its own quotes inside a replacement field (Python 3.12)")
                stack.append((q, t.start[0]))
            elif t.type == tokenize.FSTRING_END:
                stack.pop()
            elif stack:
                if t.type == tokenize.STRING:
                    q = t.string.lstrip("rRfFbBuU")
                    q = q[:3] if q[:3] in ('"""', "'''") else q[:1]
                    if any(q == o[0] for o in stack):
                        self.add(t.start[0], "<module>", "syntax", "an f-string reuses its own quotes inside a replacement field (Python 3.12)")
                    elif "\\" in t.string:
                        self.add(t.start[0], "<module>", "syntax", "a backslash inside a replacement field of an f-string (Python 3.12)")
                elif t.type == tokenize.COMMENT:
                    self.add(t.start[0], "<module>", "syntax", "a comment inside an f-string (Python 3.12)")
                elif t.type == tokenize.NL and len(stack[-1][0]) == 1:
                    self.add(t.start[0], "<module>", "syntax", "a replacement field of a single-quoted f-string spans lines (Python 3.12)")

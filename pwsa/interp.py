"""Abstract interpreter over Python syntax trees.

It walks the syntax tree of the analysed modules and computes, for each
statement, abstract values (see values.py) and effects on abstract streams.
Loops over unknown counts are summarised by one generic iteration; undecided
conditions partition the analysis (engine.Eng.choose).  No code of the analysed
repository is ever executed or imported.
"""

import ast
import builtins
import os

from .values import *
from .engine import *
from . import models

PKG = "palworld_save_tools"


class Frame:
    __slots__ = ("func", "vars", "parent", "module", "line", "locals", "globs", "nonl", "yields", "qual", "hook")

    def __init__(self, func, parent, module, qual, locs=None):
        self.func = func
        self.vars = {}
        self.parent = parent
        self.module = module
        self.line = 0
        self.locals = locs
        self.globs = ()
        self.nonl = ()
        self.yields = None
        self.qual = qual
        self.hook = None


class Source:
    """Parsed modules of the repository (shared between runs)."""

    def __init__(self, repo):
        self.repo = repo
        self.trees = {}
        self.locals_cache = {}
        self.used = set()

    def path(self, modname):
        base = os.path.join(self.repo, *modname.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            return ""
        return None

    def tree(self, modname):
        if modname not in self.trees:
            p = self.path(modname)
            if p is None:
                return None
            if p == "":
                self.trees[modname] = ast.Module([], [])
            else:
                with open(p, encoding="utf8") as f:
                    self.trees[modname] = ast.parse(f.read(), p)
        self.used.add(modname)
        return self.trees[modname]


def assigned_names(node_list):
    out = set()
    glob = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_NamedExpr(self, n):
            out.add(n.target.id)
            self.visit(n.value)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_Global(self, n):
            glob.update(n.names)

        visit_Nonlocal = visit_Global

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    v = V()
    for n in node_list:
        v.visit(n)
    return out - glob


def has_exit(body):
    """break at this loop level, or return anywhere inside."""
    found = []

    def go(nodes, depth):
        for n in nodes:
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Return):
                found.append(n)
            if isinstance(n, ast.Break) and depth == 0:
                found.append(n)
            inner = isinstance(n, (ast.For, ast.While))
            for f, v in ast.iter_fields(n):
                if isinstance(v, list):
                    st = [x for x in v if isinstance(x, ast.AST)]
                    d = depth + 1 if inner and f == "body" else depth
                    go(st, d)
                elif isinstance(v, ast.stmt):
                    go([v], depth)

    go(body, 0)
    return bool(found)


def has_yield(body):
    class V(ast.NodeVisitor):
        y = False

        def visit_Yield(self, n):
            self.y = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass

    v = V()
    for n in body:
        v.visit(n)
    return v.y


RET, BRK, CONT = "ret", "brk", "cont"
MAX_DEPTH = 70


class NeedFork(Exception):
    pass


class StopGen(Exception):
    pass


class EmitStmt(ast.stmt):
    """Stands for the element expression of a comprehension."""


LAZY_ARGS = {"iter", "enumerate", "zip", "map", "next", "any", "all", "isinstance", "type", "id", "callable", "hasattr", "repr"}


class UnknownV:
    """A module-level name whose value the analysis could not determine."""

    def __init__(self, why):
        self.why = why


def bound_names(n):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return [n.name]
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name.split(".")[0]) for a in n.names if a.name != "*"]
    if isinstance(n, (ast.Assign, ast.AnnAssign)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        out = []
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.append(x.id)
                elif isinstance(x, (ast.Attribute, ast.Subscript)):
                    return []
        return out
    return []


class Interp:
    def __init__(self, src, eng, config=None):
        self.src = src
        self.eng = eng
        self.config = dict(config or {})
        self.modules = {}
        self.stack = []
        self.stream_ops = 0
        self.emitters = []
        self.cuts = {}
        self.depth = 0
        self.steps = 0
        self.calls = {}
        self.wraps = {}
        self.posts = {}
        eng.site = self.site
        self.builtins = models.make_builtins(self)
        self.ext = models.make_external(self)
        self.cur_exc = []

    # ------------------------------------------------------------ reporting
    def site(self):
        for fr in reversed(self.stack):
            m = fr.module.name if fr.module else "?"
            return (m, fr.qual, fr.line)
        return None

    def callsite(self):
        """Outermost-to-innermost chain of analysed functions."""
        return [(fr.module.name, fr.qual, fr.line) for fr in self.stack]

    def raise_(self, name, *args, implicit=True):
        raise AbsRaise(ExcV(self.exc_class(name), list(args), self.site(), implicit))

    def exc_class(self, name):
        c = self.builtins.get(name)
        if isinstance(c, ExcClassV):
            return c
        return ExcClassV(name, "Exception")

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        tree = self.src.tree(name)
        if tree is None:
            return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        m = self.eng.own(ModuleV(name))
        m.attrs["__name__"] = name
        m.attrs["__file__"] = name
        self.modules[name] = m
        saved = (self.eng.gen0, self.eng.loops, self.depth)
        self.eng.gen0 = True
        self.eng.loops = []
        self.depth = 0
        fr = Frame(None, None, m, "<module>")
        fr.vars = m.attrs
        self.stack.append(fr)
        try:
            for n in tree.body:
                try:
                    self.exec_block([n], fr)
                except Undecided as e:
                    # what the statement binds is unknown; using it is undecided
                    ns = bound_names(n)
                    if not ns and not isinstance(n, ast.Expr):
                        raise
                    for x in ns:
                        m.attrs[x] = UnknownV("%s.%s: %s" % (name, x, e))
        finally:
            self.stack.pop()
            self.eng.gen0, self.eng.loops, self.depth = saved
        if "." in name:
            pm = self.modules.get(name.rsplit(".", 1)[0])
            if pm is not None:
                pm.attrs.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def import_module(self, name):
        m = self.load(name) if self.src.path(name) is not None else None
        if m is not None:
            return m
        return models.external_module(self, name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for n in body:
            fr.line = n.lineno
            self.steps += 1
            if self.steps > 400000:
                raise Undecided("analysis budget exceeded")
            sig = getattr(self, "s_" + type(n).__name__, self.s_unknown)(n, fr)
            if sig is not None:
                return sig
        return None

    def s_unknown(self, n, fr):
        raise Undecided("statement %s" % type(n).__name__)

    def s_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, fr)

    def s_Pass(self, n, fr):
        return None

    def s_Assign(self, n, fr):
        v = self.eval(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr), fr)
        if isinstance(n.target, ast.Name) and fr.qual.startswith("<class "):
            if "__annotations__" not in fr.vars:
                fr.vars["__annotations__"] = self.eng.own(DictV())
            fr.vars["__annotations__"].set(n.target.id, NS("annotation", {}))

    def s_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.assign(t, self.iop(n.op, cur, self.eval(n.value, fr)), fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(n.op, cur, self.eval(n.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(n.op, cur, self.eval(n.value, fr)))
        else:
            raise Undecided("augassign")

    def iop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, ListV) and a.kind == "list":
            models.list_extend(self, a, b)
            return a
        if isinstance(op, ast.Add) and isinstance(a, ByteArrV):
            a.segs.extend(self.eng.segs_of(models.to_bytes_value(self, b)))
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, DictV):
            models.dict_update(self, a, b)
            return a
        return self.binop(op, a, b)

    def s_Return(self, n, fr):
        return (RET, self.eval(n.value, fr) if n.value is not None else None)

    def s_Break(self, n, fr):
        return (BRK, None)

    def s_Continue(self, n, fr):
        return (CONT, None)

    def s_If(self, n, fr):
        c = self.truth(self.eval(n.test, fr))
        return self.exec_block(n.body if c else n.orelse, fr)

    def s_FunctionDef(self, n, fr):
        f = self.mkfunc(n, fr)
        v = f
        for d in reversed(n.decorator_list):
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
        self.bind(n.name, v, fr)

    def mkfunc(self, n, fr, name=None):
        a = n.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [self.eval(d, fr) if d is not None else MISSING for d in a.kw_defaults]
        cls = None
        if fr.qual.startswith("<class "):
            cls = fr.qual[7:-1]
        closure = fr if fr.func is not None else (fr.parent if fr.qual.startswith("<class ") else None)
        f = self.eng.own(FuncV(name or n.name, n, fr.module, closure, defaults, kwd, cls))
        body = n.body if isinstance(n.body, list) else [ast.copy_location(ast.Return(n.body), n.body)]
        f.body = body
        key = id(n)
        lc = self.src.locals_cache.get(key)
        if lc is None:
            argn = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if a.vararg:
                argn.append(a.vararg.arg)
            if a.kwarg:
                argn.append(a.kwarg.arg)
            lc = (assigned_names(body) | set(argn), has_yield(body), n)
            self.src.locals_cache[key] = lc
        f.locs = lc[0]
        f.is_gen = lc[1]
        return f

    def s_ClassDef(self, n, fr):
        cf = Frame(fr.func, fr if fr.func is not None else None, fr.module, "<class %s>" % n.name)
        self.stack.append(cf)
        try:
            bases = [self.eval(b, fr) for b in n.bases]
            self.exec_block(n.body, cf)
        finally:
            self.stack.pop()
        cls = self.eng.own(ClassV(n.name, bases, cf.vars, fr.module))
        v = self.special_class(cls, n)
        for d in reversed(n.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.bind(n.name, v, fr)

    def special_class(self, cls, n):
        """Named tuples and enumerations get their own kind of class value."""
        kinds = set()
        for b in cls.mro()[1:]:
            if isinstance(b, NS) and b.name == "typing.NamedTuple":
                ann = cls.attrs.get("__annotations__")
                cls.namedtuple = [(f, cls.attrs.get(f, MISSING)) for f in (ann.d if ann is not None else {})]
            if isinstance(b, NS) and b.name.startswith("enum."):
                kinds.add(b.name[5:])
            if isinstance(b, TypeV):
                kinds.add(b.name)
            if isinstance(b, ClassV) and getattr(b, "enum_kinds", None):
                kinds |= b.enum_kinds
        if not kinds & {"Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"}:
            return cls
        cls.enum_kinds = kinds
        plain = bool(kinds & {"IntEnum", "StrEnum", "IntFlag", "int", "str"})
        members = {}
        last = 0
        for st in n.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and not st.targets[0].id.startswith("_"):
                name = st.targets[0].id
                val = cls.attrs[name]
                if isinstance(val, NS) and val.name == "enum.auto":
                    val = name.lower() if "StrEnum" in kinds else last + 1 if not kinds & {"Flag", "IntFlag"} else (1 << len(members))
                if isinstance(val, int):
                    last = val
                if plain:
                    if not models.is_const(val):
                        raise Undecided("enumeration member %s" % name)
                    members[name] = val
                else:
                    o = self.eng.own(InstanceV(cls))
                    o.attrs.update(name=name, value=val, _name_=name, _value_=val)
                    members[name] = o
                cls.attrs[name] = members[name]
        if not members:
            return cls
        return self.eng.own(EnumV(cls, members, plain))

    def s_Import(self, n, fr):
        for a in n.names:
            m = self.import_module(a.name)
            if m is None:
                self.raise_("ModuleNotFoundError", "No module named %r" % a.name)
            if a.asname:
                self.bind(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.import_module(top), fr)

    def s_ImportFrom(self, n, fr):
        base = n.module or ""
        if n.level:
            parts = fr.module.name.split(".")
            isinit = (self.src.path(fr.module.name) or "").endswith("__init__.py")
            up = n.level - (1 if isinit else 0)
            pk = parts[: len(parts) - up] if up else parts
            base = ".".join(pk + ([n.module] if n.module else []))
        m = self.import_module(base)
        if m is None:
            self.raise_("ImportError", "No module named %r" % base)
        for a in n.names:
            if a.name == "*":
                al = m.attrs.get("__all__")
                if al is not None and isinstance(al, ListV):
                    names = al.values()
                else:
                    names = [k for k in m.attrs if not k.startswith("_")]
                for k in names:
                    self.bind(k, m.attrs[k], fr)
                continue
            if a.name in m.attrs:
                v = m.attrs[a.name]
            else:
                v = None
                if not m.external:
                    v = self.import_module(base + "." + a.name) if self.src.path(base + "." + a.name) is not None else None
                if v is None:
                    v = models.external_attr(self, m, a.name)
                if v is None:
                    self.raise_("ImportError", "cannot import name %r from %r" % (a.name, base))
            self.bind(a.asname or a.name, v, fr)

    def s_Global(self, n, fr):
        fr.globs = tuple(fr.globs) + tuple(n.names)

    def s_Nonlocal(self, n, fr):
        fr.nonl = tuple(fr.nonl) + tuple(n.names)

    def s_Assert(self, n, fr):
        if not self.truth(self.eval(n.test, fr)):
            self.raise_("AssertionError", implicit=False)

    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, InstanceV):
                    o.attrs.pop(t.attr, None)
            else:
                raise Undecided("del target")

    def s_Raise(self, n, fr):
        if n.exc is None:
            if self.cur_exc:
                raise AbsRaise(self.cur_exc[-1])
            self.raise_("RuntimeError", "No active exception to reraise")
        e = self.eval(n.exc, fr)
        if n.cause is not None:
            self.eval(n.cause, fr)
        if isinstance(e, (ExcClassV, ClassV)):
            e = self.call(e, [], {})
        if isinstance(e, InstanceV):
            e = ExcV(e.cls, [], self.site())
        if isinstance(e, ExcV):
            if e.site is None:
                e.site = self.site()
            if models.exc_isinstance(e, "SystemExit"):
                raise AbsExit(e.args[0] if e.args else None)
            raise AbsRaise(e)
        raise Undecided("raise of %r" % (e,))

    def s_Try(self, n, fr):
        eng = self.eng
        base_loops = len(eng.loops)
        base_stack = len(self.stack)
        base_depth = self.depth
        base_y = len(self.cur_exc)
        # a failure only matters here when some handler can carry on after it
        absorbs = any(not isinstance(h.body[-1], ast.Raise) for h in n.handlers)
        eng.try_depth += absorbs
        pending = None
        sig = None
        try:
            try:
                sig = self.exec_block(n.body, fr)
                exc = None
            except AbsRaise as e:
                exc = e.exc
            finally:
                eng.try_depth -= absorbs
            if exc is not None:
                self.abort_loops(base_loops)
                del self.stack[base_stack:]
                self.depth = base_depth
                handled = False
                for h in n.handlers:
                    if self.exc_match(exc, h.type, fr):
                        handled = True
                        if h.name:
                            self.bind(h.name, exc, fr)
                        self.cur_exc.append(exc)
                        self.eng.event("caught", exc=exc)
                        try:
                            sig = self.exec_block(h.body, fr)
                        finally:
                            del self.cur_exc[base_y:]
                        if h.name:
                            fr.vars.pop(h.name, None)
                        break
                if not handled:
                    raise AbsRaise(exc)
            elif sig is None and n.orelse:
                sig = self.exec_block(n.orelse, fr)
        except (AbsRaise, AbsExit) as e:
            pending = e
            self.abort_loops(base_loops)
            del self.stack[base_stack:]
            self.depth = base_depth
        if n.finalbody:
            s2 = self.exec_block(n.finalbody, fr)
            if s2 is not None:
                return s2
        if pending is not None:
            raise pending
        return sig

    def exc_match(self, exc, type_node, fr):
        if type_node is None:
            return True
        t = self.eval(type_node, fr)
        ts = t.values() if isinstance(t, ListV) else [t]
        for c in ts:
            nm = c.name if isinstance(c, (ExcClassV, ClassV)) else None
            if nm is None:
                raise Undecided("except type %r" % (c,))
            r = models.exc_isinstance(exc, c)
            if r is None:
                r = self.eng.force(T("excis", (exc.args[0] if exc.args and isinstance(exc.args[0], T) else id(exc) and "?", nm), "bool"))
            if r:
                return True
        return False

    def abort_loops(self, to):
        eng = self.eng
        while len(eng.loops) > to:
            lf = eng.loops.pop()
            for st, rec in lf.streams.items():
                st.segs = rec["segs"]
                if rec["writer"]:
                    st.segs = st.segs + [TB(eng.fresh("havocbytes", "bytes"))]
                    st.pos = eng.segs_len(st.segs)
                else:
                    st.pos = atom(eng.fresh("havoc", "int"))
            for lst, snap in lf.lists.items():
                tail = lst.items[snap:]
                if tail:
                    lst.items = lst.items[:snap] + [("r", lf.id, atom(eng.fresh("cnt", "int")), tail)]

    def s_With(self, n, fr):
        return self.with_items(n, 0, fr)

    def with_items(self, n, i, fr):
        if i == len(n.items):
            return self.exec_block(n.body, fr)
        it = n.items[i]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, CtxGen):
            return self.with_gen(n, i, fr, cm)
        v = self.enter(cm)
        base_loops = len(self.eng.loops)
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            sig = self.with_items(n, i + 1, fr)
        except (AbsRaise, AbsExit) as e:
            self.abort_loops(base_loops)
            ex = e.exc if isinstance(e, AbsRaise) else None
            if self.leave(cm, ex) and ex is not None:
                return None
            raise
        self.leave(cm, None)
        return sig

    def with_gen(self, n, i, fr, cm):
        """The block runs where the generator yields."""
        it = n.items[i]
        box = {}

        def hook(v):
            if box:
                self.raise_("RuntimeError", "generator didn't stop")
            box["sig"] = None
            self.stack.append(fr)
            depth = len(self.stack)
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                box["sig"] = self.with_items(n, i + 1, fr)
            finally:
                del self.stack[depth - 1 :]
            return None

        self.call_func(cm.fn, cm.args, cm.kw, hook=hook)
        if not box:
            self.raise_("RuntimeError", "generator didn't yield")
        return box["sig"]

    def enter(self, cm):
        if isinstance(cm, InstanceV):
            f = cm.cls.lookup("__enter__")
            if f is None:
                raise Undecided("context manager")
            return self.call(BoundV(f, cm), [], {})
        if isinstance(cm, FileV):
            return cm
        if isinstance(cm, StreamV):
            return cm
        if isinstance(cm, NS) and "__enter__" in cm.attrs:
            return self.call(cm.attrs["__enter__"], [], {})
        raise Undecided("context manager %r" % (cm,))

    def leave(self, cm, exc):
        if isinstance(cm, InstanceV):
            f = cm.cls.lookup("__exit__")
            if f is not None:
                r = self.call(BoundV(f, cm), [exc.cls if exc else None, exc, None], {})
                return r is True
        elif isinstance(cm, FileV):
            self.eng.event("close", file=cm)
        elif isinstance(cm, StreamV):
            cm.closed = True
        elif isinstance(cm, NS) and "__exit__" in cm.attrs:
            return self.call(cm.attrs["__exit__"], [exc], {}) is True
        return False

    def s_Match(self, n, fr):
        v = self.eval(n.subject, fr)
        for c in n.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr))):
                return self.exec_block(c.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.bind(p.name, v, fr)
            return True
        raise Undecided("match pattern")

    # ------------------------------------------------------------ loops
    def plan(self, it):
        """Chunks of an iterable: ('one', v) | ('gen', count, elem(lf) -> v, pairs)."""
        eng = self.eng
        if isinstance(it, LazyGen):
            it = models.force_gen(self, it)
        if isinstance(it, EnumV):
            return [("one", v) for v in it.members.values()]
        if isinstance(it, OpNode):
            node = it
            cnt = atom(T("oplen", (node.root, node.path), "int"))
            return [("gen", cnt, lambda lf, node=node: models.op_elem(self, node), {("op", node.root, node.path)})]
        if isinstance(it, ListV):
            out = []
            for x in it.items:
                out.extend(self.plan_item(x))
            return out
        if isinstance(it, RangeV):
            n = models.range_len(self, it)
            n = eng.canon(n)
            if type(n) is int:
                if n > 3000:
                    raise Undecided("long concrete loop")
                return [("one", add(it.start, mul(it.step, i) if type(it.step) is int else i)) for i in range(max(n, 0))]
            return [("gen", n, lambda lf: add(it.start, mul(lf.idx, it.step)), set())]
        if isinstance(it, (str, bytes)):
            return [("one", x) for x in it]
        if isinstance(it, (BytesV, ByteArrV)):
            segs = it.segs
            return self.plan_item(("b", BytesV(segs)))
        if isinstance(it, DictV):
            return self.plan_dict(it, "keys")
        if isinstance(it, SetV):
            return [("one", x) for x in models.set_order(self, it)]
        if isinstance(it, IterV):
            k = it.kind
            if k in ("keys", "values", "items"):
                if isinstance(it.src, OpNode):
                    node = it.src
                    cnt = atom(T("oplen", (node.root, node.path), "int"))

                    def el(lf, node=node, k=k):
                        key = T("opkey", (node.root, node.path), "str")
                        val = models.op_elem(self, node)
                        return key if k == "keys" else val if k == "values" else mklist([key, val], "tuple")

                    return [("gen", cnt, el, {("op", node.root, node.path)})]
                return self.plan_dict(it.src, k)
            if k == "enumerate":
                out = []
                base = it.extra or 0
                for c in self.plan(it.src):
                    if c[0] == "one":
                        out.append(("one", mklist([base, c[1]], "tuple")))
                        base = add(base, 1)
                    else:
                        b0 = base
                        out.append(("gen", c[1], lambda lf, c=c, b0=b0: mklist([add(b0, lf.idx), c[2](lf)], "tuple"), c[3]))
                        base = add(base, c[1])
                return out
            if k == "zip":
                plans = [self.plan(s) for s in it.src]
                if all(len(p) == 1 and p[0][0] == "gen" for p in plans):
                    cs = [eng.canon(p[0][1]) for p in plans]
                    pairs = set().union(*[p[0][3] for p in plans])
                    cnt = cs[0]
                    if any(c != cnt for c in cs):
                        raise Undecided("zip of different lengths")
                    return [("gen", cnt, lambda lf: mklist([p[0][2](lf) for p in plans], "tuple"), pairs)]
                if all(all(c[0] == "one" for c in p) for p in plans):
                    n = min(len(p) for p in plans)
                    return [("one", mklist([p[i][1] for p in plans], "tuple")) for i in range(n)]
                raise Undecided("zip")
            if k == "reversed":
                p = self.plan(it.src)
                if all(c[0] == "one" for c in p):
                    return p[::-1]
                return [
                    ("gen", c[1], lambda lf, c=c: T("shifted", ("reversed", lf.id), "any"), set()) if c[0] == "gen" else c
                    for c in p[::-1]
                ]
            if k == "map":
                fn, srcs = it.extra, it.src
                if len(srcs) != 1:
                    raise Undecided("map of several")
                out = []
                for c in self.plan(srcs[0]):
                    if c[0] == "one":
                        out.append(("lazyone", lambda c=c: self.call(fn, [c[1]], {})))
                    else:
                        out.append(("gen", c[1], lambda lf, c=c: self.call(fn, [c[2](lf)], {}), c[3]))
                return out
            if k == "fixed":
                return it.src
        if isinstance(it, FileV):
            return [("gen", atom(eng.fresh("cnt", "int")), lambda lf: eng.fresh("line", "str"), set())]
        if isinstance(it, T) and it.ty == "str":
            ln = T("strlen", (eng.canon(it),), "int")
            eng.order.setdefault(ln, len(eng.order))
            eng.nonneg(atom(ln))
            return [("gen", atom(ln), lambda lf: T("char", (eng.canon(it), lf.idx), "str"), set())]
        if isinstance(it, T):
            raise Undecided("iteration over %r" % (it,))
        if it is None or isinstance(it, (int, float, Lin)):
            self.raise_("TypeError", "object is not iterable")
        if isinstance(it, InstanceV):
            f = it.cls.lookup("__iter__")
            if f is not None:
                return self.plan(self.call(BoundV(f, it), [], {}))
        raise Undecided("iteration over %r" % (it,))

    def plan_dict(self, d, what):
        out = []

        def shape(k, v):
            return k if what == "keys" else v if what == "values" else mklist([k, v], "tuple")

        for o in d.order:
            if o[0] == "k":
                k = o[1]
                kk = k.v if isinstance(k, models.SymKey) else k
                out.append(("one", shape(kk, d.d[k])))
            else:
                lid, cnt, k, v = d.reps[o[1]]
                out.append(("gen", cnt, lambda lf, k=k, v=v: shape(k, v), {lid}))
        return out

    def plan_item(self, x):
        if x[0] == "i":
            return [("one", x[1])]
        if x[0] == "b":
            b = x[1]
            segs = self.eng.segs_of(b)
            out = []
            for s in segs:
                n = self.eng.canon(self.eng.seg_len(s))
                if type(n) is int and n <= 256:
                    for j in range(n):
                        out.append(("one", models.byte_at(self, BytesV([s]), j)))
                else:
                    out.append(("gen", n, lambda lf, s=s: models.byte_at(self, BytesV([s]), lf.idx), set()))
            return out
        # repeated items
        _, lid, cnt, inner = x
        if len(inner) == 1 and inner[0][0] == "i":
            return [("gen", cnt, lambda lf, v=inner[0][1]: v, {lid})]
        raise Undecided("iteration over a nested repetition")

    def interleaved(self, it, body):
        """A generator that moves a stream, consumed by code that may do so too."""
        if isinstance(it, LazyGen) and it.moved and any(isinstance(x, (ast.Call, ast.Attribute)) for b in body for x in ast.walk(b) if not isinstance(x, ast.Name)):
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "update", "setdefault", "extend", "add", "items")):
                        raise Undecided("generator run in steps")

    def desugar_iter(self, it, n, fr, target, body_of):
        """`for x in iter(f, stop)` as a while loop; body_of() gives the statements."""
        f, stop = it.src
        tag = "%d_%d" % (n.lineno, n.col_offset)
        w = self.src.locals_cache.get(("iter", id(n), id(target)))
        if w is None:
            ld, st = ast.Load(), ast.Store()
            nm = lambda s, c: ast.Name(id="$%s%s" % (s, tag), ctx=c)
            body = [
                ast.Assign(targets=[nm("v", st)], value=ast.Call(func=nm("f", ld), args=[], keywords=[])),
                ast.If(test=ast.Compare(left=nm("v", ld), ops=[ast.Eq()], comparators=[nm("s", ld)]), body=[ast.Break()], orelse=[]),
                ast.Assign(targets=[target], value=nm("v", ld)),
            ] + body_of()
            w = ast.While(test=ast.Constant(value=True), body=body, orelse=[])
            for x in [w] + body[:3]:
                for y in ast.walk(x):
                    if not hasattr(y, "lineno"):
                        ast.copy_location(y, n)
            w = (w, n, target)
            self.src.locals_cache[("iter", id(n), id(target))] = w
        fr.vars["$f" + tag] = f
        fr.vars["$s" + tag] = stop
        return self.s_While(w[0], fr)

    def s_For(self, n, fr):
        it = self.eval(n.iter, fr)
        if isinstance(it, IterV) and it.kind == "callsent":
            if n.orelse:
                raise Undecided("for/else over iter()")
            return self.desugar_iter(it, n, fr, n.target, lambda: list(n.body))
        chunks = self.plan(it)
        self.interleaved(it, n.body)
        ex = has_exit(n.body)
        for c in chunks:
            if c[0] in ("one", "lazyone"):
                self.assign(n.target, c[1] if c[0] == "one" else c[1](), fr)
                sig = self.exec_block(n.body, fr)
                if sig is not None:
                    if sig[0] == BRK:
                        return None
                    if sig[0] == RET:
                        return sig
                continue
            sig = self.generic_for(n, fr, c, ex)
            if sig is not None:
                if sig[0] == BRK:
                    return None
                return sig
        if n.orelse:
            return self.exec_block(n.orelse, fr)
        return None

    def generic_for(self, n, fr, c, ex):
        _, cnt, elem, pairs = c

        def body(lf):
            self.assign(n.target, elem(lf), fr)
            return self.exec_block(n.body, fr)

        names = assigned_names([n])
        if ex and self.eng.choose(2, "loop at line %d exits early" % n.lineno) == 1:
            ev = len(self.eng.events)
            lf = self.eng.new_loop(cnt, id(n))
            lf.pairs |= pairs
            self.eng.loops.append(lf)
            last = max((i for i, x in enumerate(n.body) if has_exit([x])), default=-1)
            try:
                self.assign(n.target, elem(lf), fr)
                sig = self.exec_block(n.body[: last + 1], fr)
            finally:
                if self.eng.loops and self.eng.loops[-1] is lf:
                    self.eng.loops.pop()
            if sig is None or sig[0] == CONT:
                raise Prune()
            if lf.streams or lf.lists:
                raise Undecided("loop with effects left early (line %d)" % n.lineno)
            return sig
        sig = self.generic_loop(("for", fr.module.name, n.lineno, n.col_offset), fr, cnt, pairs, names, body)
        if sig is not None and sig[0] in (BRK, RET):
            raise Prune()
        return None

    def generic_loop(self, key, fr, cnt, pairs, names, body, lens=()):
        """One generic iteration summarising all of them.  Returns the body's signal."""
        eng = self.eng
        watched = [(nm, self.lookup(nm, fr)) for nm in lens]
        lf = eng.new_loop(cnt, key)
        lf.pairs |= set(pairs)
        learned = eng.learned.setdefault(key, {})
        init = {}
        phis = {}
        for nm in sorted(names):
            if nm in fr.vars and nm not in fr.globs:
                v0 = fr.vars[nm]
                init[nm] = v0
                if isinstance(v0, LazyLoopVar):
                    continue
                le = learned.get(nm)
                if le is not None and le[0] == "ind":
                    fr.vars[nm] = add(v0, mul(lf.idx, le[1]))
                elif isinstance(v0, (Obj,)) or isinstance(v0, (FuncV,)):
                    pass
                elif is_int(v0) and type(v0) is not bool:
                    phis[nm] = atom(T("phi", (lf.id, nm), "int"))
                    fr.vars[nm] = phis[nm]
                else:
                    ty = v0.ty if isinstance(v0, T) else type(v0).__name__
                    phis[nm] = T("phi", (lf.id, nm), ty if ty in ("str", "bool", "float") else "any")
                    fr.vars[nm] = phis[nm]
        eng.loops.append(lf)
        nbase = len(eng.loops)
        sig = body(lf)
        if len(eng.loops) != nbase or eng.loops[-1] is not lf:
            raise Undecided("loop frames out of step")
        eng.loops.pop()
        for st, rec in list(lf.streams.items()):
            eng.loop_end_stream(lf, st, rec)
        for nm, l in watched:
            # how many elements every iteration adds to a list the loop test measures
            tail = l.items[lf.lists[l] :] if isinstance(l, ListV) and l in lf.lists else []
            grown = len(tail) if tail and all(t[0] == "i" for t in tail) and nm not in names else None
            le = learned.get(("len", nm))
            want = ("ind", grown) if grown is not None else ("phi",)
            if le is None or le != want:
                learned[("len", nm)] = ("phi",) if le is not None else want
                if le is None and want[0] == "ind" or le is not None and le[0] == "ind":
                    raise Restart()
        for lst, snap in lf.lists.items():
            tail = lst.items[snap:]
            if tail:
                lst.items = lst.items[:snap] + models.norm_rep_items(self, lf, tail)
        for d, k, v in lf.dictreps:
            d.reps.append((lf.id, lf.count, k, v))
            d.order.append(("r", len(d.reps) - 1))
        for (o, at), v0 in lf.attrs.items():
            cur = o.attrs.get(at)
            if cur is not v0 and isinstance(cur, (int, Lin)) and isinstance(v0, (int, Lin)):
                o.attrs[at] = atom(unk("attribute %s changed in a loop" % at, "int"))
        for nm in sorted(names):
            if nm not in fr.vars or nm in fr.globs:
                continue
            new = fr.vars[nm]
            if nm in init:
                v0 = init[nm]
                le = learned.get(nm)
                if le is not None and le[0] == "ind":
                    want = eng.canon(add(add(v0, mul(lf.idx, le[1])), le[1]))
                    if is_int(new) and eng.canon(new) == want:
                        fr.vars[nm] = eng.canon(add(v0, mul(lf.count, le[1])))
                        continue
                    learned[nm] = ("phi",)
                    raise Restart()
                if nm in phis:
                    ph = phis[nm]
                    if new is ph or (type(new) is type(ph) and new == ph):
                        fr.vars[nm] = v0
                        continue
                    if is_int(new) and is_int(ph) and le is None:
                        d = eng.canon(sub(new, ph))
                        if type(d) is int:
                            learned[nm] = ("ind", d)
                            raise Restart()
                elif new is v0:
                    continue
                fr.vars[nm] = LazyLoopVar(lf.id, v0, new)
                lf.lazy = True
            else:
                fr.vars[nm] = LazyLoopVar(lf.id, MISSING, new)
            fr.vars[nm].count = lf.count
        return sig

    def s_While(self, n, fr):
        eng = self.eng
        const_true = isinstance(n.test, ast.Constant) and bool(n.test.value)
        ex = has_exit(n.body)
        key = ("while", fr.module.name, n.lineno, n.col_offset)
        if fr.module.name.startswith(self.config.get("unroll", "\0")):
            for _ in range(6):
                if not self.truth(self.eval(n.test, fr)):
                    return self.exec_block(n.orelse, fr) if n.orelse else None
                sig = self.exec_block(n.body, fr)
                if sig is not None:
                    if sig[0] == BRK:
                        return None
                    if sig[0] == RET:
                        return sig
            raise Prune()
        names = assigned_names([n])
        if not const_true and self.pure_test(n.test):
            r = self.concrete_while(n, fr)
            if r is not None:
                return None if r == "done" else r
        learned = eng.learned.setdefault(key, {})
        cnt = None
        counted = self.counted(n.test, learned, fr)
        if counted is not None and not ex:
            cnt = counted
            eng.nonneg(cnt)
        mode = "cond"
        if const_true:
            mode = "exit"
        elif ex and eng.choose(2, "loop at line %d left by break/return" % n.lineno) == 1:
            mode = "exit"

        def body(lf):
            if not const_true:
                if counted is not None and cnt is not None:
                    eng.assume_cmp("<", sub(lf.idx, lf.count), True)
                if not self.truth(self.eval(n.test, fr)):
                    raise Prune()
            sig = self.exec_block(n.body, fr)
            if sig is not None and sig[0] in (BRK, RET):
                raise Prune()
            return sig

        lens = sorted({x.args[0].id for x in ast.walk(n.test) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name)})
        self.generic_loop(key, fr, cnt, set(), names, body, lens)
        if mode == "cond":
            if cnt is not None:
                return self.exec_block(n.orelse, fr) if n.orelse else None
            if self.truth(self.eval(n.test, fr)):
                raise Prune()
            return self.exec_block(n.orelse, fr) if n.orelse else None
        # final, exiting iteration
        if not const_true and not self.truth(self.eval(n.test, fr)):
            raise Prune()
        last = max((i for i, x in enumerate(n.body) if has_exit([x])), default=-1)
        sig = self.exec_block(n.body[: last + 1], fr)
        if sig is None or sig[0] == CONT:
            raise Prune()
        if sig[0] == BRK:
            return None
        return sig

    def pure_test(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len",)):
                return False
            if isinstance(x, ast.NamedExpr):
                return False
        return True

    def concrete_while(self, n, fr):
        """Unroll while the test is decided by constants; None when it is not."""
        eng = self.eng
        first = True
        for _ in range(600):
            saved = eng.choose

            def nf(*a):
                raise NeedFork()

            eng.choose = nf
            try:
                try:
                    v = self.truth(self.eval(n.test, fr))
                finally:
                    eng.choose = saved
            except NeedFork:
                if first:
                    return None
                raise Undecided("loop test became undecided")
            if not v:
                if n.orelse:
                    return self.exec_block(n.orelse, fr) or "done"
                return "done"
            first = False
            sig = self.exec_block(n.body, fr)
            if sig is not None:
                if sig[0] == BRK:
                    return "done"
                if sig[0] == RET:
                    return sig
        raise Undecided("long while loop")

    def counted(self, test, learned, fr):
        """Trip count of `while i < n` style loops once i is known to be inductive."""

        def ind(node):
            if isinstance(node, ast.Name):
                le = learned.get(node.id)
                if le is not None and le[0] == "ind":
                    return le[1]
            if isinstance(node, ast.Call) and len(node.args) == 1 and isinstance(node.args[0], ast.Name):
                le = learned.get(("len", node.args[0].id))
                if le is not None and le[0] == "ind":
                    return le[1]
            return None

        if isinstance(test, ast.Name) and ind(test) == -1:
            return self.eval(test, fr)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r, op = test.left, test.comparators[0], test.ops[0]
            if ind(l) == 1 and isinstance(op, (ast.Lt, ast.NotEq)):
                return sub(self.eval(r, fr), self.eval(l, fr))
            if ind(r) == 1 and isinstance(op, (ast.Gt, ast.NotEq)):
                return sub(self.eval(l, fr), self.eval(r, fr))
            if ind(l) == -1 and isinstance(op, (ast.Gt, ast.NotEq)):
                return sub(self.eval(l, fr), self.eval(r, fr))
            if ind(r) == -1 and isinstance(op, (ast.Lt, ast.NotEq)):
                return sub(self.eval(r, fr), self.eval(l, fr))
        return None

    # ------------------------------------------------------------ names
    def bind(self, name, v, fr):
        if name in fr.globs:
            self.eng.event("global-write", name=name, module=fr.module.name)
            fr.module.attrs[name] = v
            return
        if name in fr.nonl:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def force_lazy(self, v, where, name):
        if v.init is MISSING:
            self.eng.nonneg(sub(v.count, 1)) if False else None
            r = v.last
        else:
            if self.eng.choose(2, "loop %s ran at least once (%s)" % (v.loop, name)) == 0:
                r = v.last
                self.eng.assume_cmp("<", sub(0, v.count), True)
            else:
                self.eng.assume_cmp("==", v.count, True)
                r = v.init
        if isinstance(r, LazyLoopVar):
            r = self.force_lazy(r, where, name)
        where[name] = r
        return r

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if first or not f.qual.startswith("<class "):
                if name in f.vars and not (first and name in f.globs):
                    v = f.vars[name]
                    if isinstance(v, LazyLoopVar):
                        return self.force_lazy(v, f.vars, name)
                    return v
            if f.locals is not None and name in f.locals and name not in f.globs and name not in f.nonl:
                self.raise_("UnboundLocalError", "local variable %r referenced before assignment" % name)
            f = f.parent
            first = False
        m = fr.module.attrs
        if name in m:
            v = m[name]
            if isinstance(v, LazyLoopVar):
                return self.force_lazy(v, m, name)
            if isinstance(v, UnknownV):
                raise Undecided(v.why)
            return v
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name) or name in ("__builtins__", "__spec__", "__loader__", "__package__", "__doc__"):
            raise Undecided("builtin %s" % name)
        self.raise_("NameError", "name %r is not defined" % name)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided("assignment target")

    def unpack(self, v, elts):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, OpNode):
            if star:
                raise Undecided("unpack")
            return [models.getitem(self, v, i) for i in range(len(elts))]
        if isinstance(v, T):
            if star:
                raise Undecided("unpack")
            return [models.getitem(self, v, i) for i in range(len(elts))]
        vals = models.to_list(self, v)
        if vals is None:
            raise Undecided("unpack of %r" % (v,))
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < i + after:
                self.raise_("ValueError", "not enough values to unpack")
            mid = mklist(vals[i : len(vals) - after])
            return vals[:i] + [self.eng.own(mid)] + vals[len(vals) - after :]
        if len(vals) != len(elts):
            self.raise_("ValueError", "wrong number of values to unpack")
        return vals

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        return getattr(self, "e_" + type(n).__name__, self.e_unknown)(n, fr)

    def e_unknown(self, n, fr):
        raise Undecided("expression %s" % type(n).__name__)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Tuple(self, n, fr):
        return self.mkseq(n, fr, "tuple")

    def e_List(self, n, fr):
        return self.mkseq(n, fr, "list")

    def mkseq(self, n, fr, kind):
        if len(n.elts) > 8 and all(isinstance(e, ast.Constant) for e in n.elts):
            return self.eng.own(ListV([("i", e.value) for e in n.elts], kind))
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr)
                if isinstance(v, ListV):
                    items.extend(v.items)
                elif isinstance(v, BytesV):
                    items.append(("b", v))
                else:
                    l = models.to_list(self, v)
                    if l is None:
                        raise Undecided("starred")
                    items.extend(("i", x) for x in l)
            else:
                items.append(("i", self.eval(e, fr)))
        return self.eng.own(ListV(items, kind))

    def e_Set(self, n, fr):
        return self.eng.own(SetV([self.eval(e, fr) for e in n.elts]))

    def e_Dict(self, n, fr):
        d = self.eng.own(DictV())
        if len(n.keys) > 8 and all(isinstance(k, ast.Constant) for k in n.keys) and all(isinstance(v, ast.Constant) for v in n.values):
            d.d = {k.value: v.value for k, v in zip(n.keys, n.values)}
            d.order = [("k", k) for k in d.d]
            return d
        for k, v in zip(n.keys, n.values):
            if k is None:
                models.dict_update(self, d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                models.dict_set(self, d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, fr))
        return scat(*parts)

    def e_FormattedValue(self, v, fr):
        x = self.eval(v.value, fr)
        spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
        if v.conversion == ord("r"):
            x = models.repr_of(self, x)
        elif v.conversion == ord("s"):
            x = models.str_of(self, x)
        return models.format_value(self, x, spec)

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        return models.binop(self, type(op).__name__, a, b)

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        return models.unop(self, type(n.op).__name__, v)

    def not_(self, v):
        b = self.boolval(v)
        if type(b) is bool:
            return not b
        if b.op == "not":
            return b.args[0]
        return T("not", (b,), "bool")

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_IfExp(self, n, fr):
        c = self.boolval(self.eval(n.test, fr))
        if type(c) is not bool:
            if isinstance(n.body, ast.Constant) and isinstance(n.orelse, ast.Constant) and type(n.body.value) in (int, bool) and type(n.orelse.value) in (int, bool):
                r = self.eng.res(c)
                if type(r) is not bool:
                    d = None
                    if isinstance(c, T) and c.op == "cmp":
                        d = self.eng.cmp_decide(*c.args)
                    if d is None:
                        return T("ite", (c, n.body.value, n.orelse.value), "int")
                    c = d
                else:
                    c = r
        return self.eval(n.body if self.truth(c) else n.orelse, fr)

    def e_Compare(self, n, fr):
        l = self.eval(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c, fr)
            v = self.compare(type(op).__name__, l, r)
            if len(n.ops) == 1:
                return v
            if not self.truth(v):
                return False
            l = r
            res = True
        return res

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return self.not_(self.is_(a, b))
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            if isinstance(a, InstanceV):
                f = a.cls.lookup("__ne__")
                if f is not None:
                    return self.call(BoundV(f, a), [b], {})
            return self.not_(self.eq(a, b))
        if op == "In":
            return models.contains(self, b, a)
        if op == "NotIn":
            return self.not_(models.contains(self, b, a))
        return models.order_cmp(self, op, a, b)

    def eq(self, a, b):
        return models.eq(self, a, b)

    def is_(self, a, b):
        return models.is_(self, a, b)

    def boolval(self, v):
        """Boolean abstraction of a value: bool or T of type bool."""
        return models.boolval(self, v)

    def truth(self, v):
        b = self.boolval(v)
        if type(b) is bool:
            return b
        return self.eng.force(b)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return self.getitem(o, self.eval_index(n.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(
                self.eval(s.lower, fr) if s.lower is not None else None,
                self.eval(s.upper, fr) if s.upper is not None else None,
                self.eval(s.step, fr) if s.step is not None else None,
            )
        return self.eval(s, fr)

    def e_Slice(self, s, fr):
        return self.eval_index(s, fr)

    def getitem(self, o, k):
        return models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return models.setitem(self, o, k, v)

    def delitem(self, o, k):
        return models.delitem(self, o, k)

    def getattr(self, o, name):
        return models.get_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, InstanceV):
            if o.gen0 and not self.eng.gen0:
                self.eng.event("global-mutation", obj=o, what="attribute " + name)
            if self.eng.loops:
                for lf in self.eng.loops:
                    if not self.eng.inside(o, lf) and (o, name) not in lf.attrs:
                        lf.attrs[(o, name)] = o.attrs.get(name)
            o.attrs[name] = v
        elif isinstance(o, ClassV):
            if not self.eng.gen0:
                self.eng.event("global-mutation", obj=o, what="class attribute %s.%s" % (o.name, name))
            o.attrs[name] = v
        elif isinstance(o, ModuleV):
            self.eng.event("global-mutation", obj=o, what="module attribute %s.%s" % (o.name, name))
            o.attrs[name] = v
        elif isinstance(o, NS):
            o.attrs[name] = v
        elif isinstance(o, FuncV):
            self.eng.event("global-mutation", obj=o, what="function attribute %s" % name)
        elif isinstance(o, ExcV):
            o.attrs[name] = v
        else:
            raise Undecided("setattr on %r" % (o,))

    def e_Lambda(self, n, fr):
        return self.mkfunc(n, fr, "<lambda>")

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.bind(n.target.id, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Undecided("starred expression")

    def e_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        if fr.hook is not None:
            return fr.hook(v)
        if fr.yields is None:
            raise Undecided("yield")
        models.list_append(self, fr.yields, v)
        return None

    def e_YieldFrom(self, n, fr):
        models.list_extend(self, fr.yields, self.eval(n.value, fr))
        return None

    # comprehensions -------------------------------------------------------
    def comp(self, n, fr, emit):
        cf = Frame(fr.func, fr, fr.module, fr.qual)
        cf.line = n.lineno
        cf.func = fr.func if fr.func is not None else n

        def go(i):
            if i == len(n.generators):
                emit(cf)
                return
            g = n.generators[i]
            it = self.eval(g.iter, fr if i == 0 else cf)
            if isinstance(it, IterV) and it.kind == "callsent":
                conds = ast.BoolOp(op=ast.And(), values=[ast.Constant(value=True)] + list(g.ifs))

                def body_of():
                    e = EmitStmt()
                    ast.copy_location(e, n)
                    t = ast.copy_location(ast.If(test=conds, body=[e], orelse=[]), n)
                    ast.copy_location(conds, n)
                    ast.copy_location(conds.values[0], n)
                    return [t]

                self.emitters.append(lambda: go(i + 1))
                try:
                    self.desugar_iter(it, n, cf, g.target, body_of)
                finally:
                    self.emitters.pop()
                return
            chunks = self.plan(it)
            self.interleaved(it, [n.elt] if hasattr(n, "elt") else [n.key, n.value])
            for c in chunks:
                if c[0] in ("one", "lazyone"):
                    self.assign(g.target, c[1] if c[0] == "one" else c[1](), cf)
                    if all(self.truth(self.eval(x, cf)) for x in g.ifs):
                        go(i + 1)
                else:

                    def body(lf, c=c):
                        self.assign(g.target, c[2](lf), cf)
                        if all(self.truth(self.eval(x, cf)) for x in g.ifs):
                            go(i + 1)
                        return None

                    self.generic_loop(("comp", fr.module.name, n.lineno, n.col_offset, i), cf, c[1], c[3], set(), body)

        go(0)

    def each(self, it, emit, tag):
        """emit(v) for every element; a generic loop for elements known only generically."""
        fr = self.stack[-1]
        for c in self.plan(it):
            if c[0] in ("one", "lazyone"):
                emit(c[1] if c[0] == "one" else c[1]())
            else:

                def body(lf, c=c):
                    emit(c[2](lf))
                    return None

                self.generic_loop((tag, fr.module.name if fr.module else "", fr.line), fr, c[1], c[3], set(), body)

    def e_ListComp(self, n, fr):
        out = self.eng.own(ListV())
        self.comp(n, fr, lambda cf: models.list_append(self, out, self.eval(n.elt, cf)))
        return out

    def s_EmitStmt(self, n, fr):
        self.emitters[-1]()

    def e_GeneratorExp(self, n, fr):
        return self.lazy(lambda stop: self.run_genexp(n, fr, stop))

    def run_genexp(self, n, fr, stop):
        if stop is None:
            return self.e_ListComp(n, fr)
        out = self.eng.own(ListV())
        depth = len(self.eng.loops)

        def emit(cf):
            v = self.eval(n.elt, cf)
            if len(self.eng.loops) == depth and stop(v):
                raise StopGen()
            models.list_append(self, out, v)

        self.comp(n, fr, emit)
        return out

    def lazy(self, thunk):
        g = self.eng.own(LazyGen(thunk))
        g.loops = tuple(lf.id for lf in self.eng.loops)
        g.moved = False
        return g

    def e_SetComp(self, n, fr):
        l = self.e_ListComp(n, fr)
        if l.concrete():
            return self.eng.own(SetV(l.values()))
        raise Undecided("set comprehension")

    def e_DictComp(self, n, fr):
        out = self.eng.own(DictV())

        def emit(cf):
            k = self.eval(n.key, cf)
            models.dict_set(self, out, k, self.eval(n.value, cf))

        self.comp(n, fr, emit)
        return out

    # calls ----------------------------------------------------------------
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return models.make_super(self, fr)
        fn = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                l = models.to_list(self, self.eval(a.value, fr))
                if l is None:
                    raise Undecided("star args")
                args.extend(l)
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if not isinstance(v, DictV) or v.reps:
                    raise Undecided("star kwargs")
                for kk in v.d:
                    kw[kk] = v.d[kk]
            else:
                kw[k.arg] = v
        fr.line = n.lineno
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, BoundV):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, (BuiltinV, TypeV)):
            if fn.name not in LAZY_ARGS:
                args = [models.force_gen(self, a) if isinstance(a, LazyGen) else a for a in args]
            return fn.fn(self, args, kw)
        if isinstance(fn, EnumV):
            return models.enum_call(self, fn, args)
        if isinstance(fn, StaticV):
            return self.call(fn.fn, args, kw)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ExcClassV):
            return self.eng.own(ExcV(fn, list(args)))
        if isinstance(fn, InstanceV):
            f = fn.cls.lookup("__call__")
            if f is not None:
                return self.call(BoundV(f, fn), args, kw)
        if isinstance(fn, T):
            raise Undecided("call of %r" % (fn,))
        if fn is None or isinstance(fn, (int, str, bytes, ListV, DictV)):
            self.raise_("TypeError", "object is not callable")
        raise Undecided("call of %r" % (fn,))

    def instantiate(self, cls, args, kw):
        for b in cls.mro():
            if isinstance(b, ExcClassV):
                e = self.eng.own(ExcV(cls, list(args)))
                return e
        nt = next((b.namedtuple for b in cls.mro() if getattr(b, "namedtuple", None) is not None), None)
        if nt is not None:
            vals = []
            kw = dict(kw)
            if len(args) > len(nt):
                self.raise_("TypeError", "too many arguments")
            for i, (f, dflt) in enumerate(nt):
                if i < len(args):
                    vals.append(args[i])
                elif f in kw:
                    vals.append(kw.pop(f))
                elif dflt is not MISSING:
                    vals.append(dflt)
                else:
                    self.raise_("TypeError", "missing argument %r" % f)
            if kw:
                self.raise_("TypeError", "unexpected argument %r" % sorted(kw)[0])
            return self.eng.own(NTupleV(vals, cls))
        o = self.eng.own(InstanceV(cls))
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundV(init, o), args, kw)
        elif cls.dataclass is not None:
            fields = cls.dataclass
            vals = dict(zip([f for f, _ in fields], args))
            vals.update(kw)
            for f, dflt in fields:
                if f in vals:
                    o.attrs[f] = vals[f]
                elif dflt is not MISSING:
                    o.attrs[f] = dflt
                else:
                    self.raise_("TypeError", "missing argument %r" % f)
        elif args or kw:
            if any(isinstance(b, (TypeV, NS)) for b in cls.bases):
                o.attrs["__ctor__"] = (list(args), dict(kw))
            else:
                self.raise_("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def call_func(self, fn, args, kw, hook=None):
        key = (fn.module.name, fn.qual)
        self.calls[key] = self.calls.get(key, 0) + 1
        cut = self.cuts.get(key)
        if cut is not None:
            r = cut(self, fn, args, kw)
            if r is not NotImplemented:
                return r
        w = self.wraps.get(key)
        if w is not None:
            w(self, fn, args, kw)
        if self.depth > MAX_DEPTH:
            raise Undecided("recursion depth in %s" % (key,))
        fr = Frame(fn, fn.closure, fn.module, fn.qual, fn.locs)
        self.bind_args(fn, fr, args, kw)
        fr.line = fn.node.lineno
        if fn.is_gen and hook is None:
            return self.lazy(lambda stop: self.run_gen(fn, fr))
        fr.hook = hook
        self.stack.append(fr)
        self.depth += 1
        try:
            sig = self.exec_block(fn.body, fr)
        finally:
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()
            self.depth -= 1
        r = sig[1] if sig is not None and sig[0] == RET else None
        post = self.posts.get(key)
        if post is not None:
            post(self, fn, args, kw, r)
        return r

    def run_gen(self, fn, fr):
        fr.yields = self.eng.own(ListV())
        self.stack.append(fr)
        self.depth += 1
        try:
            self.exec_block(fn.body, fr)
        finally:
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()
            self.depth -= 1
        return fr.yields

    def bind_args(self, fn, fr, args, kw):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        v = fr.vars
        for i, nm in enumerate(pos):
            if i < len(args):
                v[nm] = args[i]
            elif nm in kw:
                v[nm] = kw.pop(nm)
            else:
                j = i - (len(pos) - len(fn.defaults))
                if j >= 0:
                    v[nm] = fn.defaults[j]
                else:
                    self.raise_("TypeError", "%s() missing argument %r" % (fn.name, nm))
        for nm in pos[: len(args)]:
            if nm in kw:
                self.raise_("TypeError", "%s() got multiple values for argument %r" % (fn.name, nm))
        rest = args[len(pos) :]
        if a.vararg:
            v[a.vararg.arg] = self.eng.own(mklist(rest, "tuple"))
        elif rest:
            self.raise_("TypeError", "%s() takes %d positional arguments" % (fn.name, len(pos)))
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                v[x.arg] = kw.pop(x.arg)
            elif d is not MISSING:
                v[x.arg] = d
            else:
                self.raise_("TypeError", "%s() missing keyword argument %r" % (fn.name, x.arg))
        if a.kwarg:
            d = self.eng.own(DictV())
            for k, x in kw.items():
                d.set(k, x)
            v[a.kwarg.arg] = d
        elif kw:
            self.raise_("TypeError", "%s() got an unexpected keyword argument %r" % (fn.name, sorted(kw)[0]))

"""Parsing and name resolution of a Python source tree (never imported/executed)."""
import ast
import os


class Mod:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}  # local name -> ("ext", dotted) | ("fn", Fn) | ("cls", Cls) | ("const", expr)
        self._bound = None

    def bound(self, n):
        """may n be bound in this module (outside the frames the evaluator knows)?"""
        if self._bound is None:
            b = set()
            for x in ast.walk(self.tree):
                if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names):
                    b.add("*")
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    b.update(x.names)
            todo = list(self.tree.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    b.add(x.name)
                    continue
                if isinstance(x, ast.alias):
                    b.add((x.asname or x.name).split(".")[0])
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    b.add(x.id)
                todo += list(ast.iter_child_nodes(x))
            self._bound = b
        return n in self._bound or "*" in self._bound or n.startswith("__")


class Fn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = (cls.name + "." if cls else "") + node.name
        decs = []
        for d in node.decorator_list:
            if isinstance(d, ast.Name):
                decs.append(d.id)
            elif isinstance(d, ast.Attribute):
                decs.append(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                decs.append(f.id if isinstance(f, ast.Name) else getattr(f, "attr", "?"))
        self.decs = decs
        self.is_prop = "property" in decs or "cached_property" in decs
        self.static = "staticmethod" in decs
        self.clsm = "classmethod" in decs
        self.setter = "setter" in decs
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.line = node.lineno

    def sig(self):
        """parameters without self"""
        ps = self.params
        if self.cls and not self.static and ps:
            ps = ps[1:]
        return ps, self.kwonly, self.vararg, self.kwarg


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.consts = {}
        self.bases = []


def tail_loops(tree):
    """a bare return inside a loop that ends its function is a break"""
    def sub(body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
                s = ast.copy_location(ast.Break(), s)
            elif isinstance(s, ast.If):
                s.body, s.orelse = sub(s.body), sub(s.orelse)
            out.append(s)
        return out
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            last = f.body[-1]
            if isinstance(last, (ast.For, ast.While)) and not last.orelse:
                last.body = sub(last.body)


class Program:
    """All modules of a package directory."""

    def __init__(self, root, pkg, label, tests=False, prep=None):
        self.root, self.pkg, self.label = root, pkg, label
        self.mods = {}
        self.classes = {}
        self.funcs = {}
        for f in sorted(os.listdir(root)):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                m = Mod(f[:-3], p, ast.parse(src, p), src)
                self.mods[m.name] = m
        for d in sorted(os.listdir(root)):
            p = os.path.join(root, d)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")) and d not in ("tests",):
                for f in sorted(os.listdir(p)):
                    if f.endswith(".py"):
                        q = os.path.join(p, f)
                        with open(q, encoding="utf-8") as fh:
                            src = fh.read()
                        m = Mod(d + "." + f[:-3], q, ast.parse(src, q), src)
                        self.mods[m.name] = m
        for m in self.mods.values():
            tail_loops(m.tree)
        self.renamed = prep(self.mods) if prep is not None else None
        for m in self.mods.values():
            self._collect(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                nm = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
                if nm in self.classes:
                    c.bases.append(self.classes[nm])

    def _collect(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Fn(m, n)
                m.names[n.name] = ("fn", f)
                self.funcs.setdefault(n.name, f)
            elif isinstance(n, ast.ClassDef):
                c = Cls(m, n)
                for s in n.body:
                    if isinstance(s, ast.FunctionDef):
                        f = Fn(m, s, c)
                        if not f.setter:
                            c.methods[s.name] = f
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[s.targets[0].id] = c.methods[s.value.id]
                        else:
                            c.consts[s.targets[0].id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                        c.consts[s.target.id] = s.value
                m.names[n.name] = ("cls", c)
                self.classes[n.name] = c
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = self._mod_or_ext(a.name)
                    else:
                        top = a.name.split(".")[0]
                        m.names[top] = self._mod_or_ext(top)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                for a in n.names:
                    if n.level or base.split(".")[0] == self.pkg:
                        b = base.split(".")
                        if b and b[0] == self.pkg:
                            b = b[1:]
                        m.names[a.asname or a.name] = ("rel", ".".join(b), a.name)
                    else:
                        m.names[a.asname or a.name] = ("ext", base + "." + a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("const", n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(
                            t.elts) == len(n.value.elts):
                        for tt, vv in zip(t.elts, n.value.elts):
                            if isinstance(tt, ast.Name):
                                m.names[tt.id] = ("const", vv)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.names[n.target.id] = ("const", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(m, n.body)

    def _mod_or_ext(self, name):
        if name.split(".")[0] == self.pkg:
            return ("pkg", name)
        return ("ext", name)

    def lookup(self, m, name, depth=0):
        r = m.names.get(name)
        while r is not None and r[0] == "rel" and depth < 8:
            depth += 1
            mm = self.mods.get(r[1]) or self.mods.get(r[1].split(".")[-1])
            if mm is None:
                mm2 = self.mods.get(r[2])
                return ("mod", mm2) if mm2 is not None else None
            if r[2] in mm.names:
                m, name = mm, r[2]
                r = m.names.get(name)
                if r is not None and r[0] == "const":
                    return ("const", r[1], m)
                continue
            sub = self.mods.get((r[1] + "." if r[1] else "") + r[2]) or self.mods.get(r[2])
            return ("mod", sub) if sub is not None else None
        if r is not None and r[0] == "const":
            return ("const", r[1], m)
        return r

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo.extend(x.bases)
        return out

    def method(self, c, name, after=None):
        seq = self.mro(c)
        if after is not None and after in seq:
            seq = seq[seq.index(after) + 1:]
        for x in seq:
            if name in x.methods:
                return x.methods[name]
        return None

    def cconst(self, c, name):
        for x in self.mro(c):
            if name in x.consts:
                return x.consts[name], x
        return None

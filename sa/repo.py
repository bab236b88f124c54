"""Source model: parse every non-test module of /repo/openmdao, resolve names,
classes, inheritance and methods.  Nothing of the analysed code is executed."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis cannot decide: an anchor vanished, or the source does not parse."""


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.imports = {}     # local name -> dotted origin
        self.functions = {}   # name -> FunctionDef
        self.classes = {}     # name -> ClassInfo
        self.assigns = {}     # name -> value expr (last toplevel assign)


class ClassInfo(object):
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods = {}
        self.attrs = {}
        self.base_exprs = node.bases
        self.bases = []       # resolved ClassInfo
        self.ext_bases = []   # unresolved base names

    def __repr__(self):
        return '<class %s.%s>' % (self.module.name, self.name)


class Func(object):
    """A function with its context."""
    @property
    def name(self):
        return self.node.name

    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls

    @property
    def qualname(self):
        return (self.cls.name + '.' if self.cls else '') + self.node.name

    @property
    def where(self):
        return '%s:%d' % (relpath(self.module.path), self.node.lineno)

    def __repr__(self):
        return '<func %s>' % self.qualname


def relpath(p):
    return os.path.relpath(p, REPO)


SKIP_DIRS = {'test', 'tests', 'docs', 'examples', '__pycache__', 'benchmarks'}


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else None
    return None


def walk_defs(body):
    """top-level definitions, descending into if/try blocks."""
    for st in body:
        yield st
        if isinstance(st, ast.If):
            for s in walk_defs(st.body + st.orelse):
                yield s
        elif isinstance(st, ast.Try):
            blocks = st.body + st.orelse + st.finalbody
            for h in st.handlers:
                blocks = blocks + h.body
            for s in walk_defs(blocks):
                yield s
        elif isinstance(st, (ast.With,)):
            for s in walk_defs(st.body):
                yield s


class Repo(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.parents_cache = {}
        base = os.path.join(self.root, 'openmdao')
        if not os.path.isdir(base):
            raise AnalysisBroken('no openmdao package under %s' % self.root)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (p, e))
                self.modules[rel] = self._index(rel, p, tree, src)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_name(m, dotted(b))
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                    else:
                        c.ext_bases.append(dotted(b) or '?')
        self._by_class = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self._by_class.setdefault(c.name, []).append(c)

    def _index(self, name, path, tree, src):
        m = Module(name, path, tree, src)
        for st in ast.walk(tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    m.imports[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = name.split('.')
                    is_pkg = path.endswith('__init__.py')
                    parts = parts[:len(parts) - st.level + (1 if is_pkg else 0)]
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in st.names:
                    m.imports[a.asname or a.name] = mod + '.' + a.name
        for st in walk_defs(tree.body):
            if isinstance(st, (ast.FunctionDef,)):
                m.functions[st.name] = st
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(st.name, m, st)
                for s in walk_defs(st.body):
                    if isinstance(s, ast.FunctionDef):
                        c.methods[s.name] = s
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                m.classes[st.name] = c
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = st.value
        for n in ast.walk(tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        return m

    # ---- resolution -------------------------------------------------
    def resolve_name(self, module, name, _seen=None):
        """dotted local name -> ClassInfo | Func | Module | dotted string | None"""
        if not name:
            return None
        head, _, rest = name.partition('.')
        if head in module.classes and not rest:
            return module.classes[head]
        if head in module.functions and not rest:
            return Func(module.functions[head], module)
        if head in module.imports:
            full = module.imports[head] + ('.' + rest if rest else '')
            return self.resolve_dotted(full, _seen)
        if not rest and head in module.assigns:
            d = dotted(module.assigns[head])
            if d and d != head:
                return self.resolve_name(module, d, _seen)
        return None

    def resolve_dotted(self, full, _seen=None):
        _seen = _seen or set()
        if full in _seen:
            return None
        _seen.add(full)
        if full in self.modules:
            return self.modules[full]
        mod, _, last = full.rpartition('.')
        if mod in self.modules:
            r = self.resolve_name(self.modules[mod], last, _seen)
            if r is not None:
                return r
        return full

    def mro(self, cls):
        out = []

        def rec(c):
            if c in out:
                out.remove(c)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(cls)
        return out

    def method(self, cls, name, after=None):
        seq = self.mro(cls)
        if after is not None:
            seq = seq[seq.index(after) + 1:] if after in seq else self.mro(after)[1:]
        for c in seq:
            if name in c.methods:
                return Func(c.methods[name], c.module, c)
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c.attrs[name]
        return None

    def cls(self, name):
        cs = self._by_class.get(name, [])
        if not cs:
            raise AnalysisBroken('anchor class %s not found' % name)
        if len(cs) > 1:
            core = [c for c in cs if not c.module.name.endswith('__init__')]
            cs = core or cs
        return cs[0]

    def has_cls(self, name):
        return bool(self._by_class.get(name))

    def func(self, qual):
        """'Class.method' or 'module.func' anchors; raises if vanished."""
        if '.' in qual:
            a, b = qual.rsplit('.', 1)
            if self.has_cls(a):
                f = self.method(self.cls(a), b)
                if f:
                    return f
            for m in self.modules.values():
                if m.name == a or m.name.endswith('.' + a):
                    if b in m.functions:
                        return Func(m.functions[b], m)
        raise AnalysisBroken('anchor function %s not found' % qual)

    def subclasses(self, cls, strict=False):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if cls in self.mro(c) and not (strict and c is cls):
                    out.append(c)
        return out

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def all_functions(self):
        """every function/method incl. nested ones, with context"""
        for m in self.modules.values():
            stack = [(m.tree, None)]
            while stack:
                n, cls = stack.pop()
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, ast.ClassDef):
                        stack.append((ch, m.classes.get(ch.name) or ClassInfo(ch.name, m, ch)))
                    elif isinstance(ch, ast.FunctionDef):
                        yield Func(ch, m, cls)
                        stack.append((ch, cls))
                    else:
                        stack.append((ch, cls))

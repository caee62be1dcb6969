"""Front end: parses the package under /repo (current working tree) and resolves classes, methods and imports."""
import ast
import os
from .values import *

PKG = 'bayesian_decision_tree'


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src, path)
        self.ns = {}


class Program:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        d = os.path.join(repo, PKG)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and f not in ('_version.py', '__init__.py'):
                self.modules[PKG + '.' + f[:-3]] = Module(PKG + '.' + f[:-3], os.path.join(d, f))
        for m in self.modules.values():
            self._load(m, m.tree.body)
        for m in self.modules.values():
            for k, v in list(m.ns.items()):
                if isinstance(v, tuple) and v and v[0] == 'import':
                    m.ns[k] = self._resolve(v[1], v[2])
        for c in self.classes.values():
            c.bases = [self._base(c, b) for b in c.node.bases]
        for c in self.classes.values():
            c.mro = self._mro(c)

    def _load(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    m.ns[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    base = m.name.split('.')[:-st.level]
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in st.names:
                    m.ns[a.asname or a.name] = ('import', mod, a.name)
            elif isinstance(st, ast.FunctionDef):
                m.ns[st.name] = FuncV(st, m, qual=m.name.split('.')[-1] + '.' + st.name)
            elif isinstance(st, ast.ClassDef):
                c = ClassV(st.name, st, m)
                m.ns[st.name] = c
                self.classes[st.name] = c
                for x in st.body:
                    if isinstance(x, ast.FunctionDef):
                        c.methods[x.name] = FuncV(x, m, cls=c, qual=c.name + '.' + x.name)
                        decos = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?') for d in x.decorator_list]
                        c.methods[x.name].decos = decos
                        for dname in decos:
                            if dname not in ('staticmethod', 'abstractmethod', 'classmethod', 'property'):
                                c.methods[x.name].bad_deco = dname
                    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        c.attrs[x.targets[0].id] = (x.value, m)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = ('const', st.value, m)
            elif isinstance(st, (ast.If, ast.Try)):
                self._load(m, st.body)

    def _resolve(self, mod, name):
        if mod in self.modules:
            v = self.modules[mod].ns.get(name)
            if isinstance(v, tuple) and v and v[0] == 'import':
                return self._resolve(v[1], v[2])
            if v is not None:
                return v
        if mod == PKG and PKG + '.' + name in self.modules:
            return ModuleV(PKG + '.' + name)
        return Ext((mod + '.' if mod else '') + name)

    def _base(self, c, b):
        if isinstance(b, ast.Name):
            v = c.module.ns.get(b.id)
            if isinstance(v, ClassV):
                return v
            if isinstance(v, Ext):
                return v
            return Ext(b.id)
        return Ext(ast.unparse(b))

    def _mro(self, c):
        seen = {}

        def mro(k):
            if isinstance(k, Ext):
                return [k]
            seqs = [mro(b) for b in k.bases] + [list(k.bases)]
            out = [k]
            while any(seqs):
                for s in seqs:
                    if s and not any(s[0] in t[1:] for t in seqs):
                        h = s[0]
                        break
                else:
                    raise Unsupported('inconsistent MRO for ' + k.name)
                out.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        del s[0]
                seqs = [s for s in seqs if s]
            return out
        return mro(c)

    def cls(self, name):
        if name not in self.classes:
            raise Unsupported('class %s is gone' % name)
        return self.classes[name]

    def method(self, cls, name):
        for k in cls.mro:
            if isinstance(k, ClassV) and name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, cls, name):
        for k in cls.mro:
            if isinstance(k, ClassV) and name in k.attrs:
                return k.attrs[name]
        return None

    def subclass(self, a, b):
        return b in a.mro

    def func(self, mod, name):
        m = self.modules.get(PKG + '.' + mod)
        v = m.ns.get(name) if m else None
        return v if isinstance(v, FuncV) else None

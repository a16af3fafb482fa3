"""Access to the current source of /repo (and to the sidecar contracts) as
ASTs; names are resolved through each module's own import statements."""
import ast
import os
from .values import (FuncVal, ClassVal, ModVal, Builtin, Unsupported)

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding='utf-8', errors='replace') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.names = {}
        self.stars = []
        for st in self.tree.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, ast.FunctionDef):
            self.names[st.name] = ('func', st)
        elif isinstance(st, ast.ClassDef):
            self.names[st.name] = ('class', st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.names[a.asname] = ('mod', a.name)
                else:
                    top = a.name.split('.')[0]
                    self.names[top] = ('mod', top)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name == '*':
                    self.stars.append(st.module)
                    continue
                self.names[a.asname or a.name] = ('from', st.module, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.names[t.id] = ('const', st.value)
                elif isinstance(t, ast.Attribute):
                    pass
        elif isinstance(st, (ast.If, ast.Try)):
            if isinstance(st, ast.If) and 'name' in ast.dump(st.test) and \
                    '__main__' in ast.dump(st.test):
                return
            for s in st.body:
                self._scan(s)


class Repo:
    def __init__(self):
        self.mods = {}
        self._index = None

    def path_of(self, name):
        if name.startswith('src.') or name == 'src':
            base = REPO
        elif name.startswith('contracts.') or name.startswith('dv.'):
            base = HERE
        else:
            return None
        p = os.path.join(base, *name.split('.')) + '.py'
        return p if os.path.exists(p) else None

    def load(self, name):
        if name not in self.mods:
            p = self.path_of(name)
            self.mods[name] = Module(name, p) if p else None
        return self.mods[name]

    def find_function(self, qual):
        "qual: 'src.guidelines.contiguity:is_contig' or ':Class.method'"
        mod, fn = qual.split(':')
        m = self.load(mod)
        if m is None:
            raise Unsupported('module %s not found' % mod)
        if '.' in fn:
            c, f = fn.split('.')
            ent = m.names.get(c)
            if not ent or ent[0] != 'class':
                raise Unsupported('class %s not found' % c)
            for st in ent[1].body:
                if isinstance(st, ast.FunctionDef) and st.name == f:
                    return FuncVal(st, mod, None, fn)
            raise Unsupported('method %s not found' % fn)
        ent = m.names.get(fn)
        if ent and ent[0] == 'func':
            return FuncVal(ent[1], mod, None, fn)
        if ent and ent[0] == 'from':
            return self.find_function('%s:%s' % (ent[1], ent[2]))
        raise Unsupported('function %s not found' % qual)

    def index(self):
        "attribute names: stored per class, stored elsewhere, methods"
        if self._index is None:
            per, other, meth = {}, set(), set()
            for d, _, fs in os.walk(os.path.join(REPO, 'src')):
                for f in fs:
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(d, f)
                    mod = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
                    try:
                        with open(p, encoding='utf-8',
                                  errors='replace') as h:
                            tree = ast.parse(h.read())
                    except SyntaxError:
                        continue
                    for st in tree.body:
                        own = None
                        if isinstance(st, ast.ClassDef):
                            own = per.setdefault((mod, st.name), set())
                            for q in st.body:
                                if isinstance(q, ast.FunctionDef):
                                    meth.add(q.name)
                        for n in ast.walk(st):
                            if isinstance(n, ast.Attribute) and isinstance(
                                    n.ctx, ast.Store):
                                if own is not None and isinstance(
                                        n.value, ast.Name) and \
                                        n.value.id == 'self':
                                    own.add(n.attr)
                                else:
                                    other.add(n.attr)
            self._index = per, other, meth
        return self._index

    def attributes_of(self, cls):
        """attributes objects of the class (module, name) may have; of any
        class when None"""
        per, other, meth = self.index()
        if cls is None:
            return set().union(other, meth, *per.values())
        return per.get(cls, set()) | other

    def resolve(self, modname, name, depth=0):
        m = self.load(modname)
        if m is None:
            return None
        if name not in m.names:
            for s in m.stars:
                r = self.resolve(s, name, depth + 1) if depth < 8 else None
                if r is not None:
                    return r
            return None
        ent = m.names[name]
        if ent[0] == 'func':
            return FuncVal(ent[1], modname, None, name)
        if ent[0] == 'class':
            return ClassVal(ent[1], modname, name)
        if ent[0] == 'mod':
            return ModVal(ent[1])
        if ent[0] == 'const':
            return ('const', ent[1], modname)
        if ent[0] == 'from':
            _, mod, nm = ent
            if mod and (mod.startswith('src.') or
                        mod.startswith('contracts.')):
                if self.load(mod) is None:
                    return Builtin('ext:%s.%s' % (mod, nm))
                if depth > 8:
                    return None
                r = self.resolve(mod, nm, depth + 1)
                if r is None:
                    sub = self.load(mod + '.' + nm)
                    if sub is not None:
                        return ModVal(mod + '.' + nm)
                return r
            if mod and self.path_of('%s.%s' % (mod, nm)) and \
                    mod.split('.')[0] in ('src', 'contracts'):
                return ModVal('%s.%s' % (mod, nm))
            if mod and mod.startswith('dv.'):
                return Builtin('spec.' + nm)
            return Builtin('%s.%s' % (mod, nm))
        return None

"""
Loads the source of /repo (on every run) into modules with syntax trees.
"""
import ast
import os

REPO = os.environ.get('ALCHECK_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor vanished or the source cannot be analysed: error exit."""


class Module:
    __slots__ = ('name', 'path', 'tree', 'is_pkg', 'rel', 'src')

    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.rel = os.path.relpath(os.path.realpath(path), os.path.realpath(
            REPO))
        with open(path, 'rb') as fp:
            self.src = fp.read()
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse {}: {}'.format(path, e))
        for node in ast.walk(self.tree):
            node._mod = self

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Loader:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.paths = {}     # modname -> (path, is_pkg)
        self.modules = {}
        self._scan('asterisklint')
        for sub in ('web', 'contrib', 'contrib/commands'):
            d = os.path.join(repo, sub)
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    if f.endswith('.py') and not f.startswith('test'):
                        self.paths[sub.replace('/', '.') + '.' + f[:-3]] = (
                            os.path.join(d, f), False)
        script = os.path.join(repo, 'scripts', 'asterisklint')
        if os.path.isfile(script):
            self.paths['scripts.asterisklint'] = (script, False)

    def _scan(self, pkg):
        top = os.path.join(self.repo, pkg)
        for root, dirs, files in os.walk(top):
            dirs[:] = sorted(d for d in dirs
                             if d != '__pycache__' and d != 'tests')
            rel = os.path.relpath(root, self.repo).replace(os.sep, '.')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(root, f)
                if not os.path.exists(path):
                    continue        # dangling symlink, C08 reports these
                if f == '__init__.py':
                    self.paths[rel] = (path, True)
                    self.paths[rel + '.__init__'] = (path, False)
                else:
                    self.paths[rel + '.' + f[:-3]] = (path, False)
        if pkg not in self.paths:
            raise AnalysisBroken('no package {} in {}'.format(pkg, self.repo))

    def has(self, name):
        return name in self.paths

    def is_namespace(self, name):
        """A directory without __init__."""
        return any(i.startswith(name + '.') for i in self.paths)

    def get(self, name):
        if name not in self.modules:
            path, is_pkg = self.paths[name]
            self.modules[name] = Module(name, path, is_pkg)
        return self.modules[name]

    def all(self, distinct=True):
        """All modules; every real file once if distinct."""
        seen = set()
        for name in sorted(self.paths):
            path = os.path.realpath(self.paths[name][0])
            if distinct and path in seen:
                continue
            seen.add(path)
            yield self.get(name)

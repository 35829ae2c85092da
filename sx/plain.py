"""Fresh, uninstrumented imports of a package from its current source."""
import importlib.abc
import importlib.util
import os
import sys


class PlainFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.codes = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] != self.package:
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        p = os.path.join(base, '__init__.py')
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(
                fullname, p, loader=self, submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.origin
        if p not in self.codes:
            self.codes[p] = self.compile(p, module.__name__)
        self.prepare(module)
        exec(self.codes[p], module.__dict__)

    def compile(self, path, modname):
        with open(path, encoding='utf-8') as f:
            return compile(f.read(), path, 'exec')

    def prepare(self, module):
        pass

    def install(self):
        sys.meta_path.insert(0, self)
        self.purge()

    def purge(self):
        for n in [n for n in sys.modules
                  if n.split('.')[0] == self.package]:
            del sys.modules[n]

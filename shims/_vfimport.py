"""Import hook for keri.*: the project targets Python 3.14, where annotations are
evaluated lazily (PEP 649).  The installed interpreter is older, so signature
annotations (never consulted at run time) are dropped when a keri module is
compiled; dataclass field annotations are kept.  Modules are always compiled
from the working tree; no .pyc is read or written."""
import ast
import sys
import importlib.machinery as m


class _Strip(ast.NodeTransformer):
    def _fn(self, node):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                x.annotation = None
        node.returns = None
        self.generic_visit(node)
        return node
    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn


class _Loader(m.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = _Strip().visit(ast.parse(data, path))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def set_data(self, *pa, **kwa):
        pass

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(m.PathFinder):
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != "keri" and not name.startswith("keri."):
            return None
        spec = super().find_spec(name, path, target)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(name, spec.origin)
        return spec


def install():
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)

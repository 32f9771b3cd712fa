"""Import set-up: pysad always from /repo's sources, hypothesis from the tools venv."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VT_NAMES = {"hypothesis", "_hypothesis_globals", "_hypothesis_ftz_detector",
            "_hypothesis_pytestplugin", "sortedcontainers"}


class _SourceOnly(importlib.machinery.SourceFileLoader):
    """Compiles the source on every import: no .pyc can hide an edit."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _PysadFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pysad" and not fullname.startswith("pysad."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_SourceOnly(fullname, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_SourceOnly(fullname, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


class _VTFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname in VT_NAMES:
            return importlib.machinery.PathFinder.find_spec(fullname, [VT])
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _PysadFinder())
    sys.meta_path.insert(1, _VTFinder())
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)

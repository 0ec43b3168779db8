"""
Private copies of modules for simulated processes: a freshly started program has
none of the module state of the program that launched it.
"""
import importlib.util
import importlib.machinery
import os
import sys
import types

from . import kernel

REPO = "/repo"
_code = {}


class CachedLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = _code.get(fullname)
        if c is None:
            c = _code[fullname] = self.source_to_code(
                self.get_data(self.path), self.path)
        return c


class CachedFinder(object):
    """/repo's python sources, compiled once"""
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "xboa" and not fullname.startswith("xboa."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            file = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, file, loader=CachedLoader(fullname, file),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=CachedLoader(fullname, base + ".py"))
        return None


def names_below(prefix):
    return [n for n in sys.modules if n == prefix or n.startswith(prefix + ".")]


class Overlay(object):
    """module table of one process for the modules below prefix"""
    base = {}

    def __init__(self, prefix):
        self.prefix = prefix
        head, _, self.leaf = prefix.rpartition(".")
        self.parent = sys.modules[head]
        if prefix not in Overlay.base:
            Overlay.base[prefix] = dict((n, sys.modules[n]) for n in names_below(prefix))
        self.names = list(Overlay.base[prefix])
        self.mods = {}

    def save(self):
        self.mods = dict((n, sys.modules[n]) for n in self.names if n in sys.modules)

    def remove(self):
        for n in self.names:
            sys.modules.pop(n, None)
        sys.modules.update(Overlay.base[self.prefix])
        setattr(self.parent, self.leaf, Overlay.base[self.prefix][self.prefix])

    def install(self):
        for n in self.names:
            sys.modules.pop(n, None)
        sys.modules.update(self.mods)
        if self.prefix in self.mods:
            setattr(self.parent, self.leaf, self.mods[self.prefix])

    def drop(self):
        self.mods = {}


WORKER = os.path.join(REPO, "xboa/tracking/tracking_process/xboa_tracking_process.py")


def worker_command(sim, proc, argv):
    """the real worker script as the program of a simulated process"""
    with kernel.harness(sim):
        if "worker" not in _code:
            with open(WORKER) as fin:
                _code["worker"] = compile(fin.read(), WORKER, "exec")
        overlay = Overlay("xboa.tracking")
        overlay.install()
        proc.modules = overlay
        import xboa.tracking.tracking_process
        overlay.save()
    ns = {"__name__": "__main__", "__file__": WORKER, "__builtins__": __builtins__}
    try:
        exec(_code["worker"], ns)
    finally:
        ns.clear()

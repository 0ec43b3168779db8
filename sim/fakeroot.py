"""
A stand-in for the ROOT library and the classes of MAUS, neither of which can read a file
under the simulator.  A "ROOT file" is a text file on the simulated disk: its first line
gives the places of the entries, each of which is a line of json.  What fails, fails as in
ROOT 6: a file that cannot be opened raises OSError, a missing tree is a null object
without methods, GetEntry returns 0 or -1 and leaves the data alone if there is nothing to
read, and every use of a null pointer raises ReferenceError.

install() has to run before xboa is imported.
"""
import json
import sys
import types


class Null(object):
    """a null pointer to an object of a known class"""
    def __init__(self, known):
        object.__setattr__(self, "_known", known)

    def __getattribute__(self, name):
        if name.startswith("__"):
            return object.__getattribute__(self, name)
        if object.__getattribute__(self, "_known"):
            raise ReferenceError("attempt to access a null-pointer")
        raise AttributeError("'TObject' object has no attribute %r" % name)

    def __bool__(self):
        return False


class Vec(object):
    def __init__(self, xyz):
        self._xyz = xyz

    def x(self):
        return self._xyz[0]

    def y(self):
        return self._xyz[1]

    def z(self):
        return self._xyz[2]


class Obj(object):
    """an object of MAUS: its fields, under the names of the functions that give them"""
    def __init__(self, fields):
        self._fields = fields

    def __getattr__(self, name):
        if name.startswith("_") or name not in self._fields:
            raise AttributeError("no such member %r" % name)
        return lambda: wrap(self._fields[name])


def wrap(value):
    if isinstance(value, list):
        if len(value) == 3 and all(isinstance(v, float) for v in value):
            return Vec(value)
        return [wrap(v) for v in value]
    if isinstance(value, dict):
        return Obj(value)
    return value


class Data(object):
    def __init__(self):
        self._spill = Null(True)

    def GetSpill(self):
        return self._spill


class Tree(object):
    def __init__(self, file, places):
        self._file = file
        self._places = places
        self._data = None

    def SetBranchAddress(self, name, data):
        self._data = data if name in ("data", "data.") else None
        return 0

    def GetEntries(self):
        return len(self._places)

    GetEntriesFast = GetEntries

    def GetEntry(self, entry, getall=0):
        self._gets = getattr(self, "_gets", 0) + 1
        if self._gets > 1000 + 20 * len(self._places):
            from sim.kernel import Violation
            raise Violation("endless", "the entries of a tree are read again and again")
        if not 0 <= entry < len(self._places):
            return 0
        start, size = self._places[entry]
        try:
            self._file.seek(start)
            text = self._file.read(size)
        except OSError:
            return -1
        if len(text) < size:
            return -1
        if self._data is not None:
            self._data._spill = wrap(json.loads(text.decode("utf-8")))
        return size


class TFile(object):
    def __init__(self, name, mode="READ", *args):
        self._f = None
        try:
            self._f = open(name, "rb")
            head = json.loads(self._f.readline().decode("utf-8"))
        except (OSError, ValueError):
            self.Close()
            raise OSError("Failed to open file " + str(name))
        self._trees = head

    def Get(self, name):
        if name not in self._trees:
            return Null(False)
        return Tree(self._f, self._trees[name])

    def IsZombie(self):
        return False

    IsOpen = lambda self: self._f is not None

    def Close(self):
        if self._f is not None:
            self._f.close()
            self._f = None


def render(entries, trees):
    """the bytes of a file; entries: fields of spills"""
    lines = [json.dumps(e).encode("utf-8") + b"\n" for e in entries]
    size = 0
    while True:
        places, at = [], size
        for line in lines:
            places.append([at, len(line)])
            at += len(line)
        head = json.dumps(dict((t, places) for t in trees)).encode("utf-8") + b"\n"
        if len(head) == size:
            return head + b"".join(lines)
        size = len(head)


class Anything(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *args, **kw):
        return Anything()


def install():
    assert "xboa" not in sys.modules
    root = types.ModuleType("ROOT")
    root.TFile = TFile
    root.MAUS = types.SimpleNamespace(Data=Data)
    root.gStyle = root.gROOT = root.gErrorIgnoreLevel = Anything()
    sys.modules["ROOT"] = root
    sys.modules["libMausCpp"] = types.ModuleType("libMausCpp")

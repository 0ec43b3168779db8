"""
The C++ extension modules: the built ones in /repo/xboa/core are used if they
were built from the sources that are there now; otherwise they are built from
/repo's working tree into a scratch directory.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = "/repo"
EXTENSIONS = {
    "_hitcore": ["pylib/PyHitcore.cc", "cpplib/Hitcore.cc", "utils/SmartPointer.cc"],
    "_weight_context": ["pylib/PyWeightContext.cc", "cpplib/WeightContext.cc"],
    "_bunchcore": ["pylib/PyBunchcore.cc", "cpplib/Bunchcore.cc",
                   "cpplib/Hitcore.cc", "utils/SmartPointer.cc"],
}


def key():
    """as key() in /opt/vp/build.sh"""
    files = []
    for top in ("xboa/core", "setup.py"):
        path = os.path.join(REPO, top)
        if os.path.isfile(path):
            files.append(top)
        for d, _, names in os.walk(path):
            for n in names:
                if n.endswith((".cc", ".hh", ".hpp", ".h", ".cpp", ".so")):
                    files.append(os.path.relpath(os.path.join(d, n), REPO))
    files = [f for f in files if os.path.isfile(os.path.join(REPO, f))]
    files.sort(key=lambda f: f.encode())
    text = ""
    for f in files:
        with open(os.path.join(REPO, f), "rb") as fin:
            text += hashlib.sha256(fin.read()).hexdigest() + "  " + f + "\n"
    return hashlib.sha256(text.encode()).hexdigest()


def built():
    try:
        with open(os.path.join(REPO, "build", "vp_stamp")) as fin:
            stamp = fin.read().split()[0]
    except (OSError, IndexError):
        return False
    return stamp == key()


def build(directory):
    """build the extensions into directory; returns a list of error messages"""
    core = os.path.join(REPO, "xboa", "core")
    inc = ["-I" + core, "-I" + sysconfig.get_paths()["include"]]
    objs = {}
    jobs = []
    for srcs in EXTENSIONS.values():
        for s in srcs:
            if s not in objs:
                objs[s] = os.path.join(directory, s.replace("/", "_") + ".o")
                cmd = ["g++", "-O1", "-fPIC", "-w", "-fno-strict-aliasing"] + inc + \
                    ["-c", os.path.join(core, s), "-o", objs[s]]
                jobs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                                   stderr=subprocess.STDOUT)))
    errors = []
    for cmd, p in jobs:
        out = p.communicate()[0]
        if p.returncode:
            errors.append(" ".join(cmd) + "\n" + out.decode(errors="replace"))
    if errors:
        return errors
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    for name, srcs in EXTENSIONS.items():
        cmd = ["g++", "-shared"] + [objs[s] for s in srcs] + \
            ["-o", os.path.join(directory, name + suffix)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            errors.append(p.stdout.decode(errors="replace"))
    return errors


class ExtFinder(object):
    """finds xboa.core._* in a scratch directory"""
    def __init__(self, directory):
        self.directory = directory

    def find_spec(self, fullname, path=None, target=None):
        head, _, name = fullname.rpartition(".")
        if head != "xboa.core" or name not in EXTENSIONS:
            return None
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        file = os.path.join(self.directory, name + suffix)
        loader = importlib.machinery.ExtensionFileLoader(fullname, file)
        return importlib.util.spec_from_file_location(fullname, file, loader=loader)


def use(directory):
    if directory:
        sys.meta_path.insert(0, ExtFinder(directory))

"""F06: template substitution is exact, or reports failure."""
import itertools

from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa import common

KINDS = ("enospc", "eio", "eacces", "emfile")
KEYS = ["__x__", "__energy__", "$P", "@seed@", "K L", "E", "PARAM_ONE", 17, 4.25,
        "%s", "\u03bcQ", ".*", "\\n", "{0}", "a.b", "Z" * 40]
VALUES = ["", "1.5", 2, -3.25, None, True, "with words", "\u03c0", "\\1", "$$", "%d",
          "line\nbreak", "cr\r\n", "y" * 300, [1, 2], 1e-30]
WORDS = ["text", "0.1", "beam", "#", "-", "", "  ", "\t", "_", "\u00e4", "=", "long" * 30,
         "\x00", "\u2028", "\x0b"]
ENDS = ["\n", "\n", "\r\n", "\r"]


class Key(object):
    """prints as a keyword, but may fail to"""
    def __init__(self, word, error=None):
        self.word = word
        self.error = error

    def __str__(self):
        if self.error is not None:
            raise self.error
        return self.word


class Unprintable(Exception):
    pass


def expected(text, pairs):
    """the text after the substitution, None if it depends on the order"""
    if any("\n" in k or "\r" in k or not k for k, v in pairs):
        return None
    outs = set()
    for order in itertools.permutations(pairs):
        out = text
        for k, v in order:
            out = out.replace(k, v)
        outs.add(out)
    return outs.pop() if len(outs) == 1 else None


class F06(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.fs.short = ch.chance(0.4)
        sim.fs.block = ch.pick([16, 64, 256, 8192])
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.texts = {}
        sim.fs.h_mkdir("/data")
        for i in range(ch.between(1, 3)):
            self.template(sim, "/data/in%d" % i)
        self.ways = 0
        faults = Faults(sim, ch.subset(KINDS, 0.6), 2)
        faults.scale = ch.pick([2, 4, 10, 30])
        faults._arm()
        together = ch.chance(0.5)
        tasks = []
        for k in range(ch.wpick([(1, 4), (2, 3), (3, 1)])):
            proc = sim.current.proc if together else sim.new_proc(
                "program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda k=k: self.program(sim, k),
                                      "client%d" % k))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        fired = len(faults.fired)
        faults.stop()
        self.one(sim, "/data/final", calm=True)
        sim.nontrivial = bool(fired) or self.ways > 2

    def template(self, sim, name):
        ch = sim.ch
        while True:
            keys = []
            for _ in range(ch.wpick([(0, 1), (1, 4), (2, 4), (3, 3), (4, 2)])):
                k = ch.pick(KEYS)
                if k not in keys:
                    keys.append(k)
            words = [str(k) for k in keys]
            part = [w[:-1] for w in words] + [w[1:] for w in words] + \
                [w.lower() for w in words]
            lines = []
            for _ in range(ch.wpick([(0, 1), (1, 2), (3, 3), (12, 2), (40, 1)])):
                line = ""
                for _ in range(ch.n(6)):
                    line += ch.pick(words) if words and ch.chance(0.5) else \
                        ch.pick(part) if words and ch.chance(0.2) else ch.pick(WORDS)
                    line += ch.pick(["", " "])
                lines.append(line + ch.pick(ENDS))
            text = "".join(lines)
            if text and ch.chance(0.3):
                text = text.rstrip("\r\n")
            values = [ch.pick(VALUES) for _ in keys]
            if expected(text, [(str(k), str(v)) for k, v in zip(keys, values)]) is not None:
                break
        with harness(sim):
            sim.fs.h_write(name, text.encode("utf-8"))
        self.texts[name] = (text, keys)

    def program(self, sim, k):
        for r in range(sim.ch.between(1, 3)):
            self.one(sim, "/data/out%d_%d" % (k, sim.ch.n(2)))

    def one(self, sim, out, calm=False):
        ch = sim.ch
        self.ways += 1
        name = ch.pick(sorted(self.texts))
        text, keys = self.texts[name]
        proc = sim.current.proc
        if ch.chance(0.15):
            # in its own file
            with harness(sim):
                sim.fs.h_write(out, text.encode("utf-8"))
            name = out
        elif ch.chance(0.1) and not calm:
            name = "/data/missing"
        for _ in range(20):
            values = [ch.pick(VALUES) for _ in keys]
            pairs = [(str(k), str(v)) for k, v in zip(keys, values)]
            want = expected(text, pairs)
            if want is not None:
                break
        else:
            return
        broken = None
        switch = {}
        for k, v in zip(keys, values):
            if ch.chance(0.2):
                k = Key(str(k))
            if ch.chance(0.2):
                v = Key(str(v))
                if ch.chance(0.3) and str(k) in text and not calm:
                    v.error = broken = Unprintable("no text")
            switch[k] = v
        copy = list(switch.items())
        before = len(sim.faults.fired)
        opened = set(id(f) for f in sim.fs.h_open_by(proc))
        what = "substitute %s into %s, %s" % (name, out, [k for k, v in pairs])
        try:
            common.substitute(name, out, switch)
            error = None
        except Exception as exc:
            exc.__traceback__ = None
            error = exc
            exc = None
        with harness(sim):
            mine = [f for f in sim.faults.fired[before:] if f[4] is sim.current]
            full = sim.fs.full is not None
            sim.summary.append("%s: %s, %d faults" % (what, error or "returned", len(mine)))
            held = [f.path for f in sim.fs.h_open_by(proc)
                    if id(f) not in opened and f.path in (name, out)]
            if list(switch.items()) != copy:
                raise Violation("values", "%s: the values were changed" % what)
            if name != out and name in self.texts and \
                    sim.fs.h_read(name) != text.encode("utf-8"):
                raise Violation("input", "%s: the input was changed" % what)
            if error is not None:
                if not (mine or full or broken or name not in self.texts and name != out):
                    raise Violation("error", "%s: raised %r without a reason" % (what, error))
                if broken and not mine and not full and name in self.texts and \
                        not isinstance(error, Unprintable):
                    raise Violation("error", "%s: raised %r instead of %r" % (
                        what, error, broken))
            else:
                got = sim.fs.h_read(out)
                if got is None or name == "/data/missing" or broken:
                    raise Violation("output", "%s: returned normally %s" % (
                        what, "although a value has no text" if broken else
                        "without an input" if got is not None else "without an output"))
                if got != want.encode("utf-8"):
                    raise Violation("output", "%s: %s of\n%r\nis\n%r\nand not\n%r" % (
                        what, pairs, text[:400], got.decode("utf-8", "replace")[:400],
                        want[:400]))
            if out in held or held and self.alone(sim, proc, name):
                raise Violation("handles", "%s: left open: %s" % (what, sorted(held)))

    def alone(self, sim, proc, name):
        """no other task of the program may have these files open"""
        return not any(t is not sim.current and t.proc is proc and not t.done and
                       t.name.startswith("client") for t in sim.tasks)


CHECK = F06()

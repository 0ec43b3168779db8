"""Fault injection: which operation fails, and how, is drawn from the Choices."""
import errno
import os

from .kernel import SimKilled

ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES,
         "emfile": errno.EMFILE, "spawn": errno.EAGAIN}


class Faults(object):
    def __init__(self, sim, kinds, max_faults=2, scope=None):
        self.sim = sim
        sim.faults = self
        self.kinds = set(kinds)
        self.scope = scope
        self.enabled = True
        self.fired = []            # (kind, op, path, proc, task)
        self.last_torn = 0
        self.budget = sim.ch.n(max_faults + 1) if self.kinds else 0
        self.scale = sim.ch.pick([6, 20, 60, 200]) if self.budget else 1
        self.sticky = bool(self.budget) and sim.ch.chance(0.25)
        self.ops = 0
        self._arm()

    def _arm(self):
        self.countdown = 1 + self.sim.ch.n(self.scale) if self.budget else 0

    def stop(self):
        """faults stop; a disk that stays full has room again"""
        self.enabled = False
        self.sim.fs.full = None

    def at_op(self, op, path, kinds):
        sim = self.sim
        if not self.enabled or not self.budget or sim.harness_depth:
            return
        proc = sim.current.proc
        if proc.killed:
            return
        if path == "/dev/null":
            return
        if self.scope is not None and not self.scope(proc, op, path):
            return
        self.ops += 1
        self.countdown -= 1
        if self.countdown > 0:
            return
        avail = [k for k in kinds if k in self.kinds]
        if "kill" in self.kinds and proc.tags.get("killable"):
            avail.append("kill")
        if not avail:
            return                  # stays due
        kind = avail[sim.ch.n(len(avail))] if len(avail) > 1 else avail[0]
        self.budget -= 1
        self._arm()
        self.last_torn = sim.noise(2)
        self.fired.append((kind, op, path, proc, sim.current))
        proc.tags["faulted"] = True
        sim.count("%s@%s" % (kind, op))
        sim.log("FAULT %s at %s %s" % (kind, op, path))
        if kind == "kill":
            sim.kill(proc, -9)
            raise SimKilled()
        if kind == "enospc" and self.sticky:
            sim.fs.full = errno.ENOSPC
        code = ERRNO[kind]
        raise OSError(code, os.strerror(code), path)

"""One simulated run of a check, and what it found."""
import gc
import os
import random
import sys
import time
import traceback

from . import kernel, simfs, faults
from .choices import Choices
from .kernel import Sim, Violation, HarnessError


CHECKS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                      "checks") + os.sep


class Check(object):
    """base class of the checks"""
    id = None
    runs = {"quick": 2000, "thorough": 40000}
    cap = {"quick": 45.0, "thorough": 600.0}
    rule = ""
    real = []
    stubs = []
    assumptions = []

    def prepare(self):
        """once per process, before the first run"""

    def scenario(self, sim):
        raise NotImplementedError


class Result(object):
    pass


def blame(exc):
    """does the traceback pass through the code under test?"""
    tb = exc.__traceback__
    seen = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith("/repo/xboa"):
            seen = True
        tb = tb.tb_next
    if exc.__context__ is not None and not seen and exc.__context__ is not exc:
        return blame(exc.__context__)
    return seen


def unusable(exc):
    """has a check tripped over what it got from the code under test?"""
    if not isinstance(exc, (TypeError, AttributeError, LookupError, ValueError)):
        return False
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(CHECKS)


def run_once(check, ch, record=False):
    sim = Sim(ch, record)
    simfs.SimFS(sim)
    res = Result()
    res.sim = sim
    res.violation = None
    res.error = None
    noise = ch.n(1 << 30)
    sim.noise_state = noise
    random.seed(noise)
    numpy = sys.modules.get("numpy")
    if numpy is not None:
        numpy.random.seed(noise)
    argv, out, err = sys.argv, sys.stdout, sys.stderr
    try:
        sim.run(lambda: check.scenario(sim))
        if sim.limit_hit:
            raise Violation("liveness", "no end in sight: " + sim.limit_hit)
    except Violation as exc:
        res.violation = (exc.kind, exc.message)
    except HarnessError as exc:
        res.error = "".join(traceback.format_exception(exc))
    except BaseException as exc:
        text = "".join(traceback.format_exception(exc))
        if isinstance(exc, KeyboardInterrupt):
            raise
        if blame(exc):
            res.violation = ("unexpected " + type(exc).__name__, text[-3000:])
        elif unusable(exc):
            res.violation = ("unusable " + type(exc).__name__, text[-3000:])
        else:
            res.error = text
    finally:
        sys.argv, sys.stdout, sys.stderr = argv, out, err
    res.choices = list(ch.log)
    res.sig = sim.sig
    res.log = sim.events_log
    # break cycles so that garbage of this run cannot disturb the next one
    sim.main.exc = None
    return res

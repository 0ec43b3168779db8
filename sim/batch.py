"""
A batch queue (LSF) with its commands bsub, bjobs and bkill.  Jobs wait, run as
simulated processes with the real worker script, may be suspended or unknown for
a while, and end; a finished job stays listed.
"""
import re

from . import isolate, procs

WAITING = ("PEND", "PROV", "WAIT", "PSUSP")
RUNNING = ("RUN", "USUSP", "SSUSP", "UNKWN")


class Job(object):
    def __init__(self, number, queue, args):
        self.number = number
        self.queue = queue
        self.args = args
        self.status = "PEND"
        self.exitcode = None
        self.proc = None
        self.end_time = None
        self.asked_to_die = False

    @property
    def alive(self):
        return self.status in WAITING + RUNNING


class Cluster(object):
    def __init__(self, sim, worker):
        self.sim = sim
        self.worker = worker
        self.jobs = {}
        self.next = sim.ch.pick([1, 17, 90000])
        self.submissions = []      # argv of each accepted bsub
        self.kills = []
        self.flaky = 0.0           # commands that fail
        self.latency = sim.ch.pick([0.5, 0.1, 2.0])
        self.verbose = sim.ch.chance(0.5)
        for name in ("bsub", "bjobs", "bkill"):
            sim.commands[name] = getattr(self, name)

    def _flake(self, what):
        if self.flaky and self.sim.ch.chance(self.flaky):
            self.sim.count(what + "_failed")
            return True
        return False

    # ---- the commands; each is the program of a process
    def bsub(self, sim, proc, argv):
        args = argv[1:]
        if "-h" in args[:1]:
            print("Synopsis: bsub [options] command", file=proc.stdout)
            return
        sim.sleep(self.latency)
        if self._flake("bsub"):
            raise SystemExit(255)
        options = {}
        while args and args[0].startswith("-"):
            options[args[0]] = args[1]
            args = args[2:]
        if not args:
            raise SystemExit(255)
        number = self.next
        self.next += 1 + sim.noise(3)
        job = Job(number, options.get("-q", "normal"), args)
        job.options = options
        self.jobs[number] = job
        self.submissions.append(job)
        job.by = proc
        proc.stdout.write("Job <%d> is submitted to %squeue <%s>.\n" % (
            number, "" if "-q" in options else "default ", job.queue))
        self.plan(job)

    def bjobs(self, sim, proc, argv):
        sim.sleep(self.latency)
        if self._flake("bjobs"):
            raise SystemExit(255)
        number = int(argv[-1])
        job = self.jobs.get(number)
        if job is None:
            proc.stdout.write("Job <%d> is not found\n" % number)
            raise SystemExit(255)
        out = "\nJob <%d>, User <me>, Project <default>, Status <%s>, Queue <%s>, " \
            "Command <%s>\n" % (number, job.status, job.queue, " ".join(job.args))
        if self.verbose:
            out += "Mon Jan 12 11:23:12: Submitted from host <node%d>, CWD </home>, " \
                "Output File <job.out>;\n" % (number % 7)
            if job.proc is not None:
                out += "Mon Jan 12 11:24:02: Started on <node3>, Execution Home </home>;\n"
        if job.status == "EXIT" and job.exitcode is not None:
            out += "Mon Jan 12 11:25:42: Exited with exit code %d. The CPU time used is " \
                "0.3 seconds.\n" % job.exitcode
        elif job.status == "EXIT":
            out += "Mon Jan 12 11:25:42: Exited; job has been forced to exit.\n"
        elif job.status == "DONE":
            out += "Mon Jan 12 11:25:42: Done successfully. The CPU time used is 0.3 " \
                "seconds.\n"
        if self.verbose:
            out += "\n SCHEDULING PARAMETERS:\n           r15s   r1m  r15m   ut\n " \
                "loadSched   -     -     -     -\n"
        proc.stdout.write(out)

    def bkill(self, sim, proc, argv):
        sim.sleep(self.latency)
        number = int(argv[-1])
        self.kills.append((number, argv[1:]))
        if self._flake("bkill"):
            raise SystemExit(255)
        job = self.jobs.get(number)
        if job is None or not job.alive:
            proc.stdout.write("Job <%d>: Job has already finished\n" % number)
            raise SystemExit(255)
        proc.stdout.write("Job <%d> is being terminated\n" % number)
        job.asked_to_die = True
        sim.at(sim.now + self.kill_delay(), lambda: self.end(job, 130))

    # ---- the life of a job
    def kill_delay(self):
        return [0.0, 0.2, 3.0][self.sim.noise(3)]

    def plan(self, job):
        """what will happen to the job, drawn from the choices"""
        sim, ch = self.sim, self.sim.ch
        t = sim.now
        for _ in range(ch.n(3)):
            t += ch.pick([0.0, 0.1, 5.0, 60.])
            status = ch.pick(WAITING)
            sim.at(t, lambda status=status: self.become(job, status, WAITING))
        t += ch.pick([0.0, 0.1, 5.0, 60.])
        if ch.chance(0.1):
            sim.at(t, lambda: self.end(job, ch.pick([1, 140, 255])))   # never started
            return
        sim.at(t, lambda: self.launch(job))
        for _ in range(ch.n(3)):
            t += ch.pick([0.0, 0.1, 5.0, 60.])
            status = ch.pick(RUNNING)
            sim.at(t, lambda status=status: self.become(job, status, RUNNING))
        if ch.chance(0.15):
            sim.at(t + 1.0, lambda: self.end(job, ch.pick([1, 137, 140, 143])))

    def become(self, job, status, among):
        if job.status in among:
            job.status = status
            self.sim.probe("status_" + status)

    def launch(self, job):
        if job.status not in WAITING:
            return
        sim = self.sim
        job.status = "RUN"
        proc = job.proc = sim.new_proc(self.worker, None, sim.base_parent,
                                       start_task=False)
        proc.role = self.worker
        proc.argv = list(job.args)
        proc.cwd = "/home"
        for hook in sim.spawn_hooks:
            hook(proc, job.args)

        def ended(p):
            if job.alive:
                code = p.exitcode if p.exitcode >= 0 else 128 - p.exitcode
                job.status = "DONE" if code == 0 else "EXIT"
                job.exitcode = code
                job.end_time = sim.now
        proc.exit_hooks.append(ended)
        sim.new_task(proc, lambda: procs.run_program(
            sim, proc, lambda: isolate.worker_command(sim, proc, proc.argv)), "batch")

    def end(self, job, code):
        if not job.alive:
            return
        job.status = "EXIT"
        job.exitcode = code
        job.end_time = self.sim.now
        if code == 130 and self.sim.noise(4) == 0:
            job.exitcode = None    # killed before it started, or no code listed
        if job.proc is not None and not job.proc.dead:
            self.sim.kill(job.proc, -9)


def number_in(text):
    m = re.search(r"\d+", text)
    return int(m.group(0)) if m else None

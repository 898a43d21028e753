"""A joblib backend run by the simulator: seeded order of execution and
completion, tasks shipped by pickling, workers that crash and are replaced."""
import os
import pickle
import random

from joblib._parallel_backends import ParallelBackendBase

from . import kernel, sim, util
from .kernel import SimAbort, SimKill, Violation

CURRENT = None


class Job:
    def __init__(self, func, callback, ship):
        import cloudpickle

        self.func = None if ship else func
        self.image = cloudpickle.dumps(func) if ship else None
        self.callback = callback
        self.done = False
        self.delivered = False
        self.value = None
        self.error = None
        self.tries = 0

    def get(self, timeout=None):
        f = CURRENT
        while not self.done:
            f.wait(self)
        f.deliver()
        if self.error is not None:
            raise self.error
        return self.value


class Farm:
    """plan: workers, ship (pickle the tasks), fork (run them in other processes), crash
    (list of [task number, worker step or None]), seed."""

    def __init__(self, plan, stats):
        self.plan, self.stats = plan, stats
        self.rng = random.Random(plan["seed"])
        self.queue = []
        self.finished = []
        self.open = True
        self.running = 0
        self.count = 0
        self.crash = {tuple(c)[0]: c[1] for c in plan.get("crash", [])}
        self.kernel = None

    # called by the main task
    def submit(self, func, callback):
        j = Job(func, callback, self.plan["ship"])
        j.number = self.count
        self.count += 1
        self.queue.append(j)
        return j

    def wait(self, job):
        k = kernel.ACTIVE
        k.block_until(lambda: job.done or self.finished)
        self.deliver()

    def deliver(self):
        while self.finished:
            i = self.rng.randrange(len(self.finished))
            j = self.finished.pop(i)
            if not j.delivered:
                j.delivered = True
                j.callback(j)

    # a worker task
    def work(self):
        k = kernel.ACTIVE
        me = kernel.current_task()
        while True:
            k.block_until(lambda: self.queue or not self.open)
            if not self.queue:
                return
            j = self.queue.pop(self.rng.randrange(len(self.queue)))
            j.tries += 1
            me.crash_at = kill = None
            if j.number in self.crash and j.tries == 1:
                me.crash_at = me.steps + self.crash[j.number]
                kill = k.faults[(me.id, "point", me.crash_at)] = {"exc": "SimKill"}
            try:
                if self.plan["fork"]:
                    out = util.in_child(self.run_child, j.image)
                    if out[0] == "error":
                        raise pickle.loads(out[1])
                    j.value = pickle.loads(out[1])
                else:
                    f = pickle.loads(j.image) if j.image is not None else j.func
                    v = f()
                    j.value = pickle.loads(pickle.dumps(v)) if j.image is not None else v
            except SimAbort:
                raise
            except SimKill:
                self.stats.probe("worker crashed")
                self.queue.append(j)
                continue
            except Violation:
                raise
            except BaseException as e:
                j.error = e
            finally:
                if me.crash_at is not None:
                    k.faults.pop((me.id, "point", me.crash_at), None)
            if kill is not None and kill.get("_done"):
                # somebody caught what nobody survives
                self.stats.probe("worker crashed")
                j.error = j.value = None
                self.queue.append(j)
                continue
            if self.rng.random() < self.plan.get("dup", 0.0) and j.image is not None and j.error is None and j.tries == 1:
                # the result got lost on the way: the task is done again
                self.stats.fault("result lost")
                j.value = None
                self.queue.append(j)
                continue
            j.done = True
            self.finished.append(j)

    @staticmethod
    def run_child(image):
        try:
            return ("ok", pickle.dumps(pickle.loads(image)()))
        except Exception as e:
            try:
                return ("error", pickle.dumps(e))
            except Exception:
                return ("error", pickle.dumps(RuntimeError(repr(e))))


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = False
    uses_threads = False
    supports_sharedmem = False

    def effective_n_jobs(self, n_jobs):
        if n_jobs is None or n_jobs == 1:
            return 1
        return CURRENT.plan["workers"] if CURRENT else 1

    def submit(self, func, callback=None):
        return CURRENT.submit(func, callback or (lambda j: None))

    apply_async = submit

    def get_nested_backend(self):
        from joblib._parallel_backends import SequentialBackend

        return SequentialBackend(nesting_level=1), None

    def abort_everything(self, ensure_ready=True):
        if CURRENT:
            CURRENT.queue.clear()


def run(fn, plan, stats, sched):
    """fn() as main task with the farm's workers; returns (observation, kernel)."""
    global CURRENT
    import joblib

    joblib.register_parallel_backend("sim", SimBackend)
    farm = Farm(plan, stats)
    CURRENT = farm
    box = {}

    def main():
        try:
            with joblib.parallel_config(backend="sim", n_jobs=max(2, plan["workers"])):
                box["obs"] = util.observe(fn)
        finally:
            farm.open = False
            farm.queue.clear()

    try:
        k = sim.run_tasks([main] + [farm.work] * plan["workers"], sched, stats)
    finally:
        CURRENT = None
    return box["obs"], k, farm

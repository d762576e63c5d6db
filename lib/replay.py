"""Replaying behaviours of the specification on the code, while TLC still explores."""
import concurrent.futures
import threading

import impl

BATCH = 3000


class Replayer:
    """Cases are (request, expected, ...); differs(case, answer) says what is wrong with an answer, or None.
    raw: answers are not decoded."""

    def __init__(self, report, name, differs, batch=BATCH, keep=False, raw=False):
        self.report, self.name, self.differs = report, name, differs
        self.batch, self.cases, self.jobs = batch, [], []
        self.raw = raw
        self.exe = impl.harness()
        self.pool = concurrent.futures.ThreadPoolExecutor(impl.JOBS)
        self.room = threading.Semaphore(3 * impl.JOBS)
        self.bad, self.nbad, self.n = [], 0, 0
        self.samples = []
        self.keep = [] if keep else None
        self.error = None

    def add(self, case):
        self.cases.append(case)
        if len(self.cases) >= self.batch:
            self.flush()

    def flush(self):
        if self.cases:
            self.room.acquire()
            self.jobs.append(self.pool.submit(self.run, self.cases))
            self.cases = []

    def run(self, cases):
        try:
            answers = impl.talk(self.exe, [c[0] for c in cases], self.raw)
            for c, a in zip(cases, answers):
                why = self.differs(c, a)
                if why:
                    self.nbad += 1
                    if len(self.bad) < 40:
                        self.bad.append((c, a, why))
            if self.keep is not None:
                self.keep += zip(cases, answers)
            self.n += len(cases)
            if len(self.samples) < 20:
                self.samples.append((cases[0], answers[0]))
        finally:
            self.room.release()

    def close(self):
        """Waits for the answers, and reports the differences."""
        self.flush()
        self.pool.shutdown()
        for j in self.jobs:
            j.result()
        self.report.replayed += self.n
        for case, answer in self.samples[:3]:
            self.report.sample({"request": case[0], "specification": case[1], "code": answer})
        for case, answer, why in self.bad:
            again = impl.talk(self.exe, [case[0]], self.raw)[0]
            alone = self.differs(case, again)
            self.report.violation("replay", {
                "part": self.name, "request": case[0], "code": again if alone else answer, "specification": case[1],
                "difference": why if alone else why + " (after other calls in the same process)"})
        return self.n

"""Controlled threads: real threads of which exactly one runs, switched at source lines of chosen files."""
import sys
import threading


class Control:
    """One schedule: the decisions on the tape, then always the first option (which is to continue)."""

    def __init__(self, tape, bound, files, functions=None):
        self.tape, self.pos, self.bound = tape, 0, bound
        self.files, self.functions = tuple(files), functions
        self.alts = []  # (position, remaining options) for every decision beyond the tape
        self.points = 0
        self.used = 0
        self.cache = {}

    def choose(self, options):
        if self.pos < len(self.tape):
            i = self.tape[self.pos]
        else:
            i = 0
            self.alts.append((self.pos, list(range(1, len(options)))))
            self.tape = self.tape + [0]
        self.pos += 1
        return options[i]

    def run(self, tasks, resume=lambda j: None):
        """Results of the callables, each on its own thread; resume(j) is called when task j gets to run."""
        n = len(tasks)
        self.resume = resume
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        res, err = [None] * n, [None] * n
        main = threading.Semaphore(0)

        def body(i):
            self.locks[i].acquire()
            try:
                sys.settrace(self.tracer(i))
                res[i] = tasks[i]()
            except BaseException as e:  # pylint: disable=broad-except
                err[i] = e
            finally:
                sys.settrace(None)
                self.done[i] = True
                left = [j for j in range(n) if not self.done[j]]
                if left:
                    self.switch(self.choose(left) if len(left) > 1 else left[0])
                else:
                    main.release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.switch(self.choose(list(range(n))) if n > 1 else 0)
        if not main.acquire(timeout=60):
            raise RuntimeError("the tasks did not finish")
        for t in ts:
            t.join()
        for e in err:
            if e is not None:
                raise e
        return tuple(res)

    def switch(self, j):
        self.resume(j)
        self.locks[j].release()

    def point(self, i):
        self.points += 1
        if self.used >= self.bound:
            return
        others = [j for j in range(len(self.done)) if j != i and not self.done[j]]
        if not others:
            return
        nxt = self.choose([i] + others)
        if nxt != i:
            self.used += 1
            self.switch(nxt)
            self.locks[i].acquire()

    def watched(self, code):
        r = self.cache.get(code)
        if r is None:
            r = code.co_filename.endswith(self.files) and (self.functions is None or code.co_name in self.functions)
            self.cache[code] = r
        return r

    def tracer(self, i):
        def local(frame, event, arg):
            if self.used >= self.bound:
                return None  # no further decisions: stop tracing this frame
            if event == "line":
                self.point(i)
            return local

        return lambda frame, event, arg: local if self.watched(frame.f_code) else None


def successors(ctl):
    """Tapes of the schedules that branch off this one."""
    for pos, alts in ctl.alts:
        for a in alts:
            yield ctl.tape[:pos] + [a]

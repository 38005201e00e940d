"""Deterministic interleaving of threads inside the code of a package.

Only the thread that holds the turn runs.  At each traced event (line or
instruction) inside the package the turn may be handed to another thread, as
decided by a seeded random number generator and a strategy, so that the same
seed gives the same interleaving.
"""
import hashlib
import sys
import threading
import time


class Scheduler:
    def __init__(self, rng, folder, strategy, opcodes=False):
        self.rng, self.folder = rng, folder
        self.kind, self.p = strategy
        self.opcodes = opcodes
        self.events = self.switches = 0
        self.digest = hashlib.sha256()
        self.places = set()
        self.free = self.paused = False
        self.codes = {}

    # ------------------------------------------------------------- tracing
    def tracer(self, i):
        if self.kind == "pause" and i:
            return None

        def local(frame, event, arg):
            if self.paused:
                return None
            if event == "line" and not self.opcodes or event == "opcode":
                self.point(i, frame)
            return local

        def start(frame, event, arg):
            if self.paused:
                return None
            code = frame.f_code
            inside = self.codes.get(code)
            if inside is None:
                inside = self.codes[code] = \
                    code.co_filename.startswith(self.folder)
            if not inside:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return start

    def point(self, i, frame):
        if self.free:
            return
        self.events += 1
        if self.kind == "turns":
            others = self.alive
            j = others[(others.index(i) + 1) % len(others)] \
                if self.events % int(self.p) == 0 else i
        elif self.kind == "pause":
            # the first thread is stopped once, at the given place
            where = (frame.f_code, frame.f_lineno)
            if i or where in self.places:
                return
            self.places.add(where)
            if len(self.places) != self.p or len(self.alive) == 1:
                return
            j = self.alive[1]
            self.paused = True
        elif self.kind == "places":
            # each line is a good place for one switch by each thread
            where = (i, frame.f_code, frame.f_lineno)
            if where in self.places or self.rng.random() > self.p:
                return
            self.places.add(where)
            j = self.rng.choice(self.alive)
        else:
            if self.rng.random() >= self.p:
                return
            j = self.rng.choice(self.alive)
        if j != i:
            self.switches += 1
            self.digest.update(f"{self.events}:{i}>{j};".encode())
            self.current = j
            self.turn[j].release()
            self.wait(i)

    def wait(self, i):
        while not self.turn[i].acquire(timeout=1.5):
            if self.free:
                return
            with self.guard:
                if self.stuck():
                    # the running thread waits for a lock of a waiting one
                    self.free = True
                    for t in self.turn:
                        t.release()
                    return

    def stuck(self):
        """Did the running thread sleep since the last call?"""
        t = self.threads[self.current]
        try:
            with open(f"/proc/self/task/{t.native_id}/stat") as f:
                x = f.read().rsplit(")", 1)[1].split()
        except OSError:
            return False
        # (state, user and system time)
        now = self.current, self.events, x[0], x[11], x[12]
        if now != self.seen:
            self.seen, self.since = now, time.monotonic()
            return False
        return x[0] == "S" and time.monotonic() - self.since > 4

    # ------------------------------------------------------------- running
    def run(self, functions):
        n = len(functions)
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.seen, self.since = None, 0
        self.guard = threading.Lock()
        errors = []

        def work(i):
            self.wait(i)
            try:
                sys.settrace(self.tracer(i))
                try:
                    functions[i]()
                finally:
                    sys.settrace(None)
            except BaseException as e:       # noqa: BLE001
                errors.append(e)
            finally:
                self.alive.remove(i)
                if self.alive:
                    self.current = self.rng.choice(self.alive)
                    self.turn[self.current].release()
        self.threads = threads = [threading.Thread(target=work, args=(i,), daemon=True)
                   for i in range(n)]
        self.current = 0 if self.kind == "pause" else self.rng.randrange(n)
        for t in threads:
            t.start()
        self.turn[self.current].release()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]

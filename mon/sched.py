"""A seeded scheduler for threads: exactly one runs at a time, and they switch only at lines or bytecodes of the library."""
import random
import sys
import threading
import time


class Scheduler:
    """Runs bodies in threads; at every traced event of the library the next thread to run is drawn at random."""

    PATIENCE = 2.0  # Seconds after which a waiting thread goes on by itself (the running one is blocked).

    def __init__(self, seed, prefix, opcodes=False, switch=0.3):
        self.r = random.Random(seed)
        self.prefix, self.opcodes, self.switch = prefix, opcodes, switch
        self.alive, self.current, self.trail, self.blocked = [], None, [], 0
        self.gates = {}

    def run(self, bodies):
        threads = []
        for i, body in enumerate(bodies):
            self.gates[i] = threading.Semaphore(0)
            threads.append(threading.Thread(target=self.main, args=(i, body), daemon=True))
        self.alive = list(range(len(bodies)))
        for t in threads:
            t.start()
        self.current = self.r.choice(self.alive)
        self.gates[self.current].release()
        end = time.monotonic() + 60
        for t in threads:
            t.join(max(0, end - time.monotonic()))
        return not any(t.is_alive() for t in threads)

    def main(self, i, body):
        self.wait(i)
        sys.settrace(lambda frame, event, arg: self.enter(i, frame))
        try:
            body()
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                self.current = self.r.choice(self.alive)
                self.gates[self.current].release()

    def wait(self, i):
        if not self.gates[i].acquire(timeout=60 if self.current is None else self.PATIENCE):
            self.blocked += 1
            Scheduler.PATIENCE = max(0.05, 0.7 * Scheduler.PATIENCE)  # Code that waits for locks must not make the check slow.

    def enter(self, i, frame):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return lambda frame, event, arg: self.step(i, frame, event)

    def step(self, i, frame, event):
        if event in ('opcode' if self.opcodes else 'line', 'return'):
            self.point(i)
        return lambda frame, event, arg: self.step(i, frame, event)

    def point(self, i):
        if len(self.alive) > 1 and self.r.random() < self.switch:
            j = self.r.choice(self.alive)
            if j != i:
                self.trail.append(j)
                self.current = j
                self.gates[j].release()
                self.wait(i)

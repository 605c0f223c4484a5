"""Processes that take turns: before each file operation inside a directory (mc/shim.c) a process asks, and the explorer decides who goes on."""
import os
import signal

from . import cli, shim
from .explore import Cost


class Process:
    """a punx command that stops before each file operation below the prefix"""

    def __init__(self, argv, prefix, before=None, private=None, **kw):
        self.argv, self.prefix, self.private = argv, prefix, private
        ask_r, ask_w = os.pipe()
        grant_r, grant_w = os.pipe()

        def armed():
            if before:
                before()
            os.close(ask_r)
            os.close(grant_w)
            shim.arm(prefix, shim.SCHED, classes=shim.MUTATE | shim.READ, ask=ask_w, grant=grant_r)
        self.end = cli.start(argv, before=armed, **kw)
        os.close(ask_w)
        os.close(grant_r)
        self.ask, self.grant = ask_r, grant_w
        self.pending, self.done, self.outcome, self.steps = None, False, None, 0
        self.rest = b""
        self.looks = False

    def wait(self):
        """until the process asks or ends; operations in its own work directory are granted at once"""
        while self.pending is None and not self.done:
            while b"\n" not in self.rest:
                got = os.read(self.ask, 65536)
                if not got:
                    self.done = True
                    self.outcome = self.end()
                    os.close(self.ask)
                    os.close(self.grant)
                    return
                self.rest += got
            line, self.rest = self.rest.split(b"\n", 1)
            self.steps += 1
            op = line.decode("utf8", "backslashreplace").split(" ", 2)
            if self.private and self.private(op[0], op[2]):
                os.write(self.grant, b"g")
            else:
                self.pending = (op[0], op[2])

    def go(self):
        self.pending = None
        os.write(self.grant, b"g")

    def kill(self):
        os.kill(self.end.pid, signal.SIGKILL)
        self.pending = None
        self.rest = b""
        while os.read(self.ask, 65536):
            pass
        self.done = True
        self.outcome = self.end()
        os.close(self.ask)
        os.close(self.grant)


LOOKS = ("stat", "open", "list")


def matters(op, others):
    """the operation may interact with one of another process: not if both only look (a switch before it equals a later one)"""
    return op[0] not in LOOKS or any(not p.looks for p in others)


def run(ch, processes, watch=None, kill=None):
    """let the processes take turns as the explorer says: going on with the same one is free, another one while it could go on
    costs 1, and killing one (if its index is in kill) costs 1.  watch(process, operation) is called after operations.
    A process with .looks changes nothing that another one sees (until it does)."""
    current, trace, step = None, [], 0
    for p in processes:
        p.wait()
    try:
        while True:
            ready = [i for i, p in enumerate(processes) if not p.done]
            if not ready:
                return trace
            if current in ready:
                options = [Cost(0, ("go", current))]
                if matters(processes[current].pending, [processes[i] for i in ready if i != current]):
                    options += [Cost(1, ("go", i)) for i in ready if i != current]
            else:
                options = [Cost(0, ("go", i)) for i in ready]
            if kill:
                options += [Cost(1, ("kill", i)) for i in ready if i in kill and i == (current if current in ready else ready[0])]
            what, i = ch.choose("step %d" % step, options) if len(options) > 1 else options[0].value
            step += 1
            p = processes[i]
            op = p.pending
            if op[0] not in LOOKS + ("mkdir",):
                p.looks = False
            if what == "kill":
                p.kill()
                op = ("kill", "")
            else:
                p.go()
                p.wait()
            current = i
            trace.append((i,) + op)
            if watch:
                watch(p, op)
    finally:
        for p in processes:
            if not p.done:
                p.kill()



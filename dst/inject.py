"""Seams into the Python side: act at the k-th trace event inside batoid's own code.

Events are line (or opcode) and call events of frames whose code lives in the batoid package; they
are counted, so 'event k' is the same instant in every execution of the same plan.
"""
import os, sys


class Tracer:
    """Runs a function with actions {event number: callable}; an action may raise."""

    def __init__(self, B, actions, opcodes=False, also=()):
        self.dir = os.path.dirname(os.path.realpath(B.__file__)) + os.sep
        self.also = also
        self.actions, self.opcodes = dict(actions), opcodes
        self.n, self.fired, self.where = 0, 0, None
        self._mine = {}

    def mine(self, code):
        f = code.co_filename
        m = self._mine.get(f)
        if m is None:
            m = self._mine[f] = f.startswith(self.dir) or os.path.realpath(f).startswith(self.dir) or f.startswith(self.also or ("\0",))
        return m

    def hit(self, frame):
        k = self.n
        self.n += 1
        a = self.actions.get(k)
        if a is not None:
            self.fired += 1
            self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            a()

    def glob(self, frame, event, arg):
        if event != "call" or not self.mine(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.hit(frame)
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.hit(frame)
        return self.local

    def run(self, f, *a, **k):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return f(*a, **k)
        finally:
            sys.settrace(old)

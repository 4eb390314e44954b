"""Standard output behind a seam: captured, and failing from a chosen write on."""
import contextlib
import sys

from .core import SimulatedFault


class StdoutError(SimulatedFault, OSError):
    pass


class Capture:
    def __init__(self, fail_at=None, ctx=None, match=None):
        self.parts = []
        self.n = 0
        self.fail_at = fail_at
        self.match = match
        self.failed = False
        self.ctx = ctx
        self.encoding = "utf-8"

    def write(self, s):
        self.n += 1
        if not self.failed and (self.fail_at is not None and self.n > self.fail_at or self.match is not None and self.match in s):
            self.failed = True
            if self.ctx is not None:
                self.ctx.fault("stdout_error")
            raise StdoutError(28, "No space left on device (simulated)")
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    @property
    def text(self):
        return "".join(self.parts)


@contextlib.contextmanager
def captured(fail_at=None, ctx=None, match=None):
    c = Capture(fail_at, ctx, match)
    old = sys.stdout
    sys.stdout = c
    try:
        yield c
    finally:
        sys.stdout = old

"""Failures at a chosen point of a call: an interrupt by the user or a failing
allocation at the n-th source line or instruction of the library, or at the
n-th function call it makes (its own, xarray's, numpy's)."""
import sys

MODES = ('line', 'op', 'pycall', 'ccall')
EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}
OURS = '/dst/'
# the interpreter reports instructions only once this was set somewhere
sys._getframe().f_trace_opcodes = True


class Point(object):
    """with Point(mode, n, exc): ...; n None: only count"""

    def __init__(self, mode, n=None, exc='interrupt'):
        self.mode, self.n, self.exc = mode, n, exc
        self.count = 0
        self.fired = None

    def hit(self, frame):
        if self.n is not None and self.fired is None and self.count == self.n:
            self.fired = '%s:%d' % (frame.f_code.co_filename.split('/')[-1], frame.f_lineno)
            raise EXCS[self.exc]('injected')
        self.count += 1

    def local(self, frame, ev, arg):
        if ev == 'line' and self.mode == 'line' or ev == 'opcode' and self.mode == 'op':
            self.hit(frame)
        return self.local

    def trace(self, frame, ev, arg):
        fn = frame.f_code.co_filename
        if OURS in fn or fn.startswith('<frozen'):
            return None
        if self.mode == 'pycall':
            # (how often a generator is entered to be closed depends on what
            # the interpreter has specialised so far)
            if frame.f_code.co_name != '__del__' and not frame.f_code.co_flags & 0x20:
                self.hit(frame)
            return None
        if '/dolfyn/' in fn:
            if self.mode == 'op':
                frame.f_trace_opcodes = True
            return self.local
        return None

    def prof(self, frame, ev, arg):
        if ev == 'c_call':
            fn = frame.f_code.co_filename
            if OURS in fn or fn.startswith('<frozen'):
                return
            self.hit(frame)

    def __enter__(self):
        if self.mode == 'ccall':
            sys.setprofile(self.prof)
        else:
            sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        sys.settrace(None)
        return False


def run(fn, point):
    """('ok', value) | ('exc', exception), and whether the failure was injected"""
    from .core import Hang, quiet
    with quiet():
        try:
            with point:
                out = fn()
            return 'ok', out
        except Hang:
            raise
        except BaseException as e:
            e.__traceback__ = None
            return 'exc', e

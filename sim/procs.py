"""Simulated child processes and pipes."""

import errno
import io
import os
import signal as _signal
import subprocess

from .core import Sim, Deadlock, SimAbort


class Pipe:
    def __init__(self, sim, name, capacity):
        self.sim = sim
        self.name = name
        self.capacity = capacity
        self.buf = bytearray()
        self.writer_open = True
        self.reader_open = True
        self.total = 0
        self.closed_at = None

    # blocking variants for processes running as thread tasks
    def b_read(self, limit=65536):
        self.sim.yield_point("proc read")
        if not self.buf and self.writer_open:
            self.sim.block(lambda: bool(self.buf) or not self.writer_open, None, "read of %s" % self.name)
        data = bytes(self.buf[:limit])
        del self.buf[:limit]
        return data

    def b_write(self, data):
        data = memoryview(bytes(data))
        self.sim.yield_point("proc write")
        while len(data):
            if not self.reader_open:
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            room = self.capacity - len(self.buf)
            if room <= 0:
                self.sim.probe("pipe_full " + self.name)
                self.sim.block(lambda: len(self.buf) < self.capacity or not self.reader_open, None, "write of %s" % self.name)
                continue
            n = min(room, len(data))
            self.buf += data[:n]
            self.total += n
            data = data[n:]


class PipeReader(io.RawIOBase):
    """the parent's end of the child's stdout"""

    def __init__(self, pipe, eintr=0):
        self.pipe = pipe
        self.last = b"\n"
        self.eintr = eintr
        self.name = "<simpipe>"

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        p = self.pipe
        sim = p.sim
        if Sim.current is not sim or sim.aborting:
            if Sim.current is sim and sim.running is not sim.main:
                raise SimAbort()
            return 0
        sim.yield_point("pipe read")
        if self.eintr and self.last[-1:] == b"\n" and sim.choices.chance(self.eintr):
            sim.fault("EINTR")
            raise OSError(errno.EINTR, "Interrupted system call")
        if not p.buf and p.writer_open:
            sim.block(lambda: bool(p.buf) or not p.writer_open or self.closed, None, "read of %s" % p.name)
        if self.closed:
            raise ValueError("read of closed file")
        n = min(len(b), len(p.buf))
        if n > 1:
            # a pipe may deliver any non-empty prefix
            c = sim.choices.pick(4, [6, 1, 1, 1])
            if c == 1:
                n = 1
                sim.probe("read_one_byte")
            elif c == 2:
                n = 1 + sim.choices.pick(n)
            elif c == 3:
                n = max(1, n - 1)
        data = bytes(p.buf[:n])
        del p.buf[:n]
        b[:n] = data
        if data:
            self.last = data
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.pipe.reader_open = False


class PipeWriter(io.RawIOBase):
    """the parent's end of the child's stdin"""

    def __init__(self, pipe):
        self.pipe = pipe
        self.name = "<simpipe>"

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, b):
        p = self.pipe
        sim = p.sim
        data = memoryview(bytes(b))
        total = len(data)
        if Sim.current is not sim or sim.aborting:
            return total
        sim.yield_point("pipe write")
        e = getattr(p, "write_error", None)
        while len(data):
            if not p.reader_open:
                sim.fault("EPIPE")
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            room = p.capacity - len(p.buf)
            if room <= 0:
                sim.probe("stdin_full")
                t0 = sim.now
                sim.blocked_write = (p, total)
                sim.block(lambda: len(p.buf) < p.capacity or not p.reader_open, None, "write of %s" % p.name)
                sim.blocked_write = None
                sim.stdin_blocked = getattr(sim, "stdin_blocked", 0) + sim.now - t0
                continue
            n = min(room, len(data))
            p.buf += data[:n]
            p.total += n
            data = data[n:]
        return total

    def close(self):
        if not self.closed:
            super().close()
            self.pipe.writer_open = False
            sim = self.pipe.sim
            self.pipe.closed_at = sim.now
            if Sim.current is sim and not sim.aborting and sim.in_sim_thread():
                sim.yield_point("pipe close")


class Signalled(BaseException):
    pass


class SimPopen:
    """subprocess.Popen for programs of the World's program table"""

    def __init__(self, world, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False,
                 pass_fds=(), *, text=None, encoding=None, errors=None, **kwargs):
        sim = world.sim
        self.world = world
        self.sim = sim
        self.args = args
        if isinstance(args, (str, bytes)):
            args = [args]
        args = list(args)
        prog = os.path.basename(args[0])
        sim.log("spawn", *[world.short(a) for a in args])
        errs = world.spawn_errors.get(prog)
        if errs:
            e = errs.pop(0)
            if e is not None:
                sim.fault("spawn:%s" % errno.errorcode[e.errno], prog)
                raise e
        if prog not in world.programs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", args[0])
        self.pid = 10000 + len(world.processes)
        self.returncode = None
        self.exited = False
        self.started_at = self.died_at = sim.steps
        self.exitcode = None
        self.reaped = False
        self.ignore = set()           # signals the process ignores
        self.signals = []
        self.cwd = cwd
        self.env = env
        cap = getattr(world, "pipe_capacity", 65536)
        self.in_pipe = self.out_pipe = self.err_pipe = None
        self.stdin = self.stdout = self.stderr = None
        if stdin == subprocess.PIPE:
            self.in_pipe = Pipe(sim, "stdin of %s" % prog, cap)
            self.stdin = PipeWriter(self.in_pipe)
            if bufsize != 0:
                self.stdin = io.BufferedWriter(self.stdin, 8192)
        if stdout == subprocess.PIPE:
            self.out_pipe = Pipe(sim, "stdout of %s" % prog, cap)
            self.stdout = PipeReader(self.out_pipe, getattr(world, "eintr", 0))
            if bufsize != 0:
                self.stdout = io.BufferedReader(self.stdout, 8192)
        if stderr == subprocess.PIPE:
            self.err_pipe = Pipe(sim, "stderr of %s" % prog, cap)
            self.stderr = PipeReader(self.err_pipe)
            if bufsize != 0:
                self.stderr = io.BufferedReader(self.stderr, 8192)
        self.stderr_to_stdout = stderr == subprocess.STDOUT
        if universal_newlines or text or encoding:
            if self.stdin:
                self.stdin = io.TextIOWrapper(self.stdin, encoding=encoding or "utf-8", errors=errors)
            if self.stdout:
                self.stdout = io.TextIOWrapper(self.stdout, encoding=encoding or "utf-8", errors=errors)
            if self.stderr:
                self.stderr = io.TextIOWrapper(self.stderr, encoding=encoding or "utf-8", errors=errors)
        self.prog = prog
        world.processes.append(self)
        self.body = world.programs[prog](self, args)
        self.task = sim.spawn_thread("proc:%s" % prog, self._run)

    def _run(self):
        try:
            code = self.body()
        except BrokenPipeError:
            code = -_signal.SIGPIPE
        self._die(code or 0)

    def _die(self, code):
        if self.exited:
            return
        self.exited = True
        self.died_at = self.sim.steps
        self.exitcode = code
        if self.in_pipe:
            self.in_pipe.reader_open = False
        if self.out_pipe:
            self.out_pipe.writer_open = False
        if self.err_pipe:
            self.err_pipe.writer_open = False
        self.sim.log("exit of", self.prog, code)

    # -- parent side -----------------------------------------------------
    def poll(self):
        self.sim.yield_point("poll")
        if self.exited:
            self.reaped = True
            self.returncode = self.exitcode
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            sim = self.sim
            if Sim.current is not sim or sim.aborting:
                return 0
            sim.block(lambda: self.exited, timeout, "wait for %s" % self.prog)
            if not self.exited:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self.exitcode
            self.reaped = True
        return self.returncode

    def communicate(self, input=None, timeout=None):
        """writes and reads whatever is possible, as the real one does"""
        sim = self.sim
        text = isinstance(self.stdout or self.stderr or self.stdin, io.TextIOWrapper)
        end = None if timeout is None else sim.now + timeout
        if self.stdin and input:
            if text:
                input = input.encode("utf-8")
            try:
                self.stdin.flush()
            except BrokenPipeError:
                pass
            left = memoryview(input)
        else:
            left = b""
        p = self.in_pipe
        outs = {}
        for name, f, pipe in (("out", self.stdout, self.out_pipe), ("err", self.stderr, self.err_pipe)):
            if f and not f.closed:
                outs[name] = (pipe, bytearray())
        writing = bool(self.stdin)
        while writing or any(q.buf or q.writer_open for q, b in outs.values()):
            sim.yield_point("communicate")
            if writing:
                if len(left) and not p.reader_open:
                    sim.fault("EPIPE")
                    left = b""
                room = p.capacity - len(p.buf)
                n = min(room, len(left))
                if n > 0:
                    p.buf += left[:n]
                    p.total += n
                    left = left[n:]
                if not len(left):
                    writing = False
                    try:
                        self.stdin.close()
                    except BrokenPipeError:
                        pass
            for q, b in outs.values():
                b += q.buf
                del q.buf[:]
            if writing or any(q.writer_open for q, b in outs.values()):
                sim.block(lambda: writing and (len(p.buf) < p.capacity or not p.reader_open) or any(q.buf for q, b in outs.values())
                          or not writing and not any(q.writer_open for q, b in outs.values()),
                          None if end is None else max(0, end - sim.now), "communicate with %s" % self.prog)
                if end is not None and sim.now >= end:
                    raise subprocess.TimeoutExpired(self.args, timeout)
        for f in (self.stdout, self.stderr):
            if f:
                f.close()
        self.wait(None if end is None else max(0, end - sim.now))
        r = [bytes(outs[k][1]) if k in outs else None for k in ("out", "err")]
        return tuple(x if x is None or not text else x.decode("utf-8") for x in r)

    def send_signal(self, sig):
        self.sim.yield_point("signal")
        if self.returncode is not None or self.exited:
            return
        self.sim.log("signal", int(sig), "to", self.prog)
        self.signals.append((self.sim.now, int(sig)))
        self.sim.probe("signal_%d" % int(sig))
        if sig in self.ignore and sig != _signal.SIGKILL:
            return
        self.sim.kill_task(self.task)
        self._die(-int(sig))

    def terminate(self):
        self.send_signal(_signal.SIGTERM)

    def kill(self):
        self.send_signal(_signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        for f in (self.stdout, self.stderr, self.stdin):
            if f:
                f.close()
        self.wait()

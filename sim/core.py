"""The simulator: one process, one seed, one exactly repeatable execution.

Every source of nondeterminism the properties depend on is behind a seam owned here:

* files written from Python    -- builtins.open / io.open  -> SimRaw (raw writes, buffering in user space)
* files written from C++       -- GridFunction.Save/Load, VTKOutput.Do (real short writes through RLIMIT_FSIZE)
* directories and renames      -- os.mkdir, os.replace, os.rename, os.unlink, os.remove
* time                         -- time.sleep advances a virtual clock
* the nonlinear solver         -- BilinearForm.AssembleLinearization and BaseMatrix.Inverse (NaN, failing allocation)
* the compiler of forms        -- SumOfIntegrals.Compile (never started; may be missing)
* memory addresses             -- Condition.__hash__ (see props/c13.py)

install() has to run before dream is imported.  Nothing in this module reads a real clock or draws a random number.
"""
from __future__ import annotations

import builtins
import collections
import errno
import hashlib
import io
import json
import os
import resource
import signal
import sys
import time as _time

REPO = os.environ.get("SIM_REPO", "/repo")


# --------------------------------------------------------------------------- outcomes

class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, msg: str):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Invalid(Exception):
    """The (shrunk) scenario is not a legal one."""


class SimCrash(BaseException):
    """The simulated process was killed."""


class SimInterrupt(KeyboardInterrupt):
    """An injected Ctrl-C."""


class SimHang(BaseException):
    """The CPU budget of a run is used up."""


class SimAbort(Exception):
    """An injected exception of the user's own code"""


def require(cond, kind: str, msg):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else str(msg))


# --------------------------------------------------------------------------- seams

_real = {}


class SimRaw(io.FileIO):
    """A file as the kernel sees it: every write() is one durable event."""

    def __init__(self, path, mode, world, rel):
        self._w, self._epoch, self._rel = world, world.epoch, rel
        super().__init__(path, mode)

    def _dead(self):
        return W is not self._w or self._w.epoch != self._epoch or self._w.crashed

    def write(self, b):
        if self._dead():
            return len(b)
        b = bytes(b)
        w = self._w
        if w.write_error is not None:
            # a full disk first takes a part of the data, and refuses the rest with the next call
            f, w.write_error = w.write_error, None
            w.note("write", self._rel, 0)
            w.fail(f, self._rel)
        f = w.op("write", self._rel, len(b))
        if f is None:
            return super().write(b)
        kind = f["kind"]
        k = min(len(b), int(f.get("frac", 0.0) * len(b)))
        if kind == "short":
            return super().write(b[:max(1, min(k, len(b) - 1))] if len(b) > 1 else b)
        if kind in FAULT_ERRNO and 0 < k < len(b):
            w.write_error = f
            return super().write(b[:k])
        if kind == "crash" and k:
            super().write(b[:k])
        # a signal is delivered before anything was written (EINTR), or after the call
        w.fail(f, self._rel)

    def close(self):
        if not self.closed and not self._dead():
            self._w.note("close", self._rel)
        super().close()


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    if w is None or isinstance(file, int) or opener is not None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    rel = w.rel(file)
    if rel is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not set(mode) & set("wax+"):
        if not w.crashed:
            f = w.op("ropen", rel, 0)
            if f is not None:
                w.fail(f, rel)
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)

    if w.crashed:
        file = "/dev/null"
    else:
        f = w.op("open", rel, 0)
        if f is not None:
            if f["kind"] in ("crash", "interrupt") and f.get("frac", 0) >= 0.5 and "w" in mode:
                _real["open"](file, "wb").close()       # created and truncated, then killed
            w.fail(f, rel)
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwax+")
    raw = SimRaw(file, rawmode, w, rel)
    w.handles.append(raw)
    line = False
    if buffering == 1 and not binary:
        buffering, line = -1, True
    if buffering < 0 or buffering == 1:
        buffering = w.bufsize
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    buf = io.BufferedRandom(raw, buffering) if "+" in mode else io.BufferedWriter(raw, buffering)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line)
    text.mode = mode
    return text


def _path_op(name, kind, create=True):
    real = getattr(os, name)
    _real["os." + name] = real

    def call(path, *args, **kwargs):
        w = W
        target = args[0] if name in ("rename", "replace") and args else path
        rel = None if w is None else w.rel(target)
        if rel is None:
            return real(path, *args, **kwargs)
        if w.crashed:
            return None
        f = w.op(kind, rel, 0)
        if f is not None and f["kind"] in ("crash", "interrupt") and f.get("frac", 0) >= 0.5:
            real(path, *args, **kwargs)
            w.fail(f, rel)
            return None
        if f is not None and f["kind"] == "race":
            # another process was faster
            try:
                real(path, *args, **kwargs)
            except OSError:
                pass
            return real(path, *args, **kwargs)
        if f is not None:
            w.fail(f, rel)
        return real(path, *args, **kwargs)

    call.__name__ = name
    setattr(os, name, call)


def _limited(limit, call):
    """Let the kernel cut every file written by call() at limit bytes (a full disk, as seen by C++ code)."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        return call()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def _patch_ngsolve():
    import ngsolve as ngs

    ngs.SetNumThreads(1)
    ngs.ngsglobals.msg_level = 0

    save, load = ngs.GridFunction.Save, ngs.GridFunction.Load
    _real["gf.Save"], _real["gf.Load"] = save, load

    def Save(self, filename, *args, **kwargs):
        w = W
        rel = None if w is None else w.rel(filename)
        if rel is None:
            return save(self, filename, *args, **kwargs)
        if w.crashed:
            return None
        f = w.op("save", rel, 8 * self.vec.size)
        if w.on_save is not None:
            w.on_save(self, filename, lambda: save(self, filename, *args, **kwargs))
        if f is None:
            return save(self, filename, *args, **kwargs)
        kind, frac = f["kind"], f.get("frac", 0.0)
        if kind == "interrupt":
            if frac >= 0.5:
                save(self, filename, *args, **kwargs)
            w.fail(f, rel)
        elif kind in ("emfile", "eacces"):
            # the file can not be opened, which NGSolve does not report: nothing happens to it
            w.note("cut", rel, 0)
            return None
        elif kind in ("enospc", "eio", "short", "crash"):
            # a real truncated file: NGSolve itself gets the short write
            full = 8 * self.vec.size
            size = min(int(frac * full) // 8 * 8, full - 8)
            if not (kind == "crash" and frac == 0.0):
                _limited(size, lambda: save(self, filename, *args, **kwargs))
            w.note("cut", rel, size)
            if kind == "crash":
                w.fail(f, rel)
            return None
        else:
            w.fail(f, rel)
        return None

    def Load(self, filename, *args, **kwargs):
        w = W
        rel = None if w is None else w.rel(filename)
        if rel is not None and not w.crashed:
            w.note("load", rel)
        return load(self, filename, *args, **kwargs)

    ngs.GridFunction.Save, ngs.GridFunction.Load = Save, Load

    do = ngs.VTKOutput.Do
    _real["vtk.Do"] = do

    def Do(self, *args, **kwargs):
        w = W
        if w is None:
            return do(self, *args, **kwargs)
        if w.crashed:
            return ""
        t = args[0] if args else kwargs.get("time", -1)
        f = w.op("vtk", f"{t!r}", 0)
        if f is not None:
            if f["kind"] in ("crash", "interrupt") and f.get("frac", 0) >= 0.5:
                do(self, *args, **kwargs)
            w.fail(f, "vtk")
        if w.on_vtk is not None:
            w.on_vtk(self, t)
        return do(self, *args, **kwargs)

    ngs.VTKOutput.Do = Do

    lin = ngs.BilinearForm.AssembleLinearization
    _real["blf.lin"] = lin

    def AssembleLinearization(self, *args, **kwargs):
        w = W
        if w is not None:
            w.lin_calls += 1
            if w.on_linearize is not None:
                w.on_linearize(self, *args)
        return lin(self, *args, **kwargs)

    ngs.BilinearForm.AssembleLinearization = AssembleLinearization

    app = ngs.BilinearForm.Apply
    _real["blf.app"] = app

    def Apply(self, *args, **kwargs):
        w = W
        if w is not None and w.on_apply is not None:
            w.on_apply(self, *args)
        return app(self, *args, **kwargs)

    ngs.BilinearForm.Apply = Apply

    inverse = ngs.la.BaseMatrix.Inverse
    _real["mat.Inverse"] = inverse

    def Inverse(self, *args, **kwargs):
        w = W
        if w is not None and w.on_inverse is not None:
            w.on_inverse(self)
        return inverse(self, *args, **kwargs)

    ngs.la.BaseMatrix.Inverse = Inverse

    compile_ = ngs.comp.SumOfIntegrals.Compile
    _real["Compile"] = compile_

    def Compile(self, *args, **kwargs):
        """No compiler is started: what it would translate is evaluated as a compiled expression tree"""
        w = W
        if w is not None:
            w.compiled.append((args, kwargs))
            if w.on_compile is not None:
                w.on_compile(len(w.compiled) - 1)
        return compile_(self)

    ngs.comp.SumOfIntegrals.Compile = Compile


def install():
    """Patch the seams and import the code under test from REPO."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    _real["open"] = builtins.open
    builtins.open = io.open = _sim_open
    for name, kind in (("mkdir", "mkdir"), ("rename", "rename"), ("replace", "rename"),
                       ("unlink", "unlink"), ("remove", "unlink"), ("truncate", "truncate")):
        _path_op(name, kind)
    _real["sleep"] = _time.sleep

    def sleep(seconds):
        if W is None:
            return _real["sleep"](seconds)
        W.clock += seconds
        W.note("sleep", seconds)
        if W.on_sleep is not None:
            W.on_sleep(seconds)

    _time.sleep = sleep
    _patch_ngsolve()
    sys.path.insert(0, REPO)
    import dream
    assert os.path.realpath(os.path.dirname(dream.__file__)) == os.path.realpath(os.path.join(REPO, "dream")), dream.__file__


# --------------------------------------------------------------------------- the world of one run

W: "World | None" = None

FAULT_ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE}


class World:
    """State of one simulated execution: disk, clock, fault plan and the recorded history."""

    def __init__(self, root: str):
        self.root = os.path.realpath(root)
        self.epoch = 0
        self.crashed = False
        self.n = 0                  # durable operations of this life
        self.plan = []              # faults of this life
        self.events = []            # the history
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.handles = []
        self.bufsize = 4096
        self.clock = 0.0
        self.simtime = 0.0
        self.steps = 0
        self.lin_calls = 0
        self.states = set()
        self.compiled = []
        self.on_save = self.on_vtk = self.on_linearize = self.on_apply = self.on_inverse = self.on_sleep = self.on_compile = None
        self.suspended = 0
        self.write_error = None

    # -- history
    def note(self, *event):
        self.events.append(event)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        """Record a distinct situation that was reached"""
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return hashlib.sha1(json.dumps(self.events, default=repr).encode()).hexdigest()

    # -- disk
    def rel(self, path):
        try:
            path = os.path.abspath(os.fspath(path))
        except (TypeError, OSError):
            return None
        if isinstance(path, bytes) or self.suspended:
            return None
        if path.startswith(self.root + os.sep):
            return path[len(self.root) + 1:]
        return None

    def arm(self, faults):
        """Begin a new fault plan; operations are counted from here."""
        self.plan = [dict(f) for f in faults]
        self.n = 0

    def op(self, kind, rel, size):
        """One durable operation is about to happen: returns the fault planned for it."""
        self.n += 1
        self.events.append((kind, rel, size))
        for f in self.plan:
            if f.get("done"):
                continue
            if "on" in f and f["on"] != kind:
                continue
            if "on" in f:
                f["seen"] = f.get("seen", 0) + 1
                hit = f["seen"] == f["op"]
            else:
                hit = f["op"] == self.n
            if hit:
                if f["kind"] in ("short",) and kind not in ("write", "save"):
                    f["done"] = True
                    continue
                f["done"] = not f.get("sticky")
                if f.get("sticky") and "on" in f:
                    f["seen"] -= 1
                self.fired[f"{f['kind']}@{kind}"] += 1
                self.events.append(("fault", f["kind"], kind, rel))
                return f
        return None

    def fail(self, f, rel):
        kind = f["kind"]
        if kind == "crash":
            self.crashed = True
            raise SimCrash()
        if kind == "interrupt":
            raise SimInterrupt()
        if kind in FAULT_ERRNO:
            raise OSError(FAULT_ERRNO[kind], os.strerror(FAULT_ERRNO[kind]) + " (injected)", rel)
        if kind == "short":
            return
        raise AssertionError(kind)

    def kill(self):
        """The process dies here, in between two operations."""
        self.crashed = True
        self.fired["crash@idle"] += 1
        self.events.append(("fault", "crash", "idle", ""))

    def reboot(self):
        """A new process starts on what the dead one left on disk"""
        import gc
        import logging
        self.crashed = True         # whatever the old objects still do while they are dropped, is lost
        logger = logging.getLogger("dream")
        for h in list(logger.handlers):
            logger.removeHandler(h)
        gc.collect()
        for h in list(logger.handlers):
            logger.removeHandler(h)
        self.handles.clear()
        self.epoch += 1
        self.crashed = False
        self.plan = []
        self.n = 0
        self.write_error = None
        self.on_save = self.on_vtk = self.on_linearize = self.on_apply = self.on_inverse = self.on_sleep = self.on_compile = None
        self.events.append(("reboot", self.epoch))

    # -- the checker looks at the disk without leaving a trace
    def quiet(self):
        return _Quiet(self)

    def open_handles(self):
        return [h for h in self.handles if not h.closed and h._epoch == self.epoch]


class _Quiet:
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w.suspended += 1

    def __exit__(self, *a):
        self.w.suspended -= 1


def enter(world):
    global W
    W = world


def leave():
    global W
    W = None


def from_repo(tb) -> bool:
    """Did an exception pass through the code under test?"""
    base = os.path.realpath(os.path.join(REPO, "dream")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(base):
            return True
        tb = tb.tb_next
    return False

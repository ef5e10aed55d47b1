"""Runs the batch scripts of the repository with simulated ranks inside a scratch directory.

The scripts delete files through the shell. Here nothing reaches a shell: deletions are
carried out by a stand-in that refuses (and reports) every target outside the scratch directory.
"""

import contextlib
import io
import os
import subprocess
import sys
import warnings
from unittest import mock

from . import env, stubs
from .core import Violation

SCRIPTS = os.path.join(env.REPO, "scripts", "fitting_scripts")
_code = {}


CHECKED = (subprocess.check_call, subprocess.check_output)
_run = subprocess.run


def expand(cmd):
    """Words of a command as the shell sees them, without carrying it out"""
    if not cmd.lstrip().startswith(("rm ", "/bin/rm ")):
        return []
    # a shell without programs, in which rm only shows what it is given
    text = "rm() { printf '%s\\0' rm \"$@\"; }\n" + cmd.replace("/bin/rm ", "rm ", 1)
    out = _run(["/bin/sh", "-c", text], env={"PATH": "/nonexistent"}, capture_output=True).stdout
    return [os.fsdecode(w) for w in out.split(b"\0")[:-1]]


class Deletions:
    def __init__(self, scratch):
        self.scratch = os.path.realpath(scratch)
        self.removed = []
        self.bad = []
        self._remove, self._unlink = os.remove, os.unlink

    def inside(self, path):
        p = os.path.realpath(os.path.join(os.getcwd(), path))
        return p.startswith(self.scratch + os.sep)

    def remove(self, path, **kw):
        path = os.fspath(path)
        if not self.inside(path):
            self.bad.append(path)
            return
        self._remove(path)
        self.removed.append(os.path.realpath(path))

    def command(self, cmd):
        """-> exit code"""
        if isinstance(cmd, str):
            words = expand(cmd)
        else:
            words = [str(w) for w in cmd]
        if not words or words[0] not in ("rm", "/bin/rm"):
            self.bad.append(f"command {cmd!r}")
            return 127
        code = 0
        for w in words[1:]:
            if w.startswith("-"):
                continue
            if os.path.lexists(w) or not self.inside(w):
                self.remove(w)
            else:
                code = 1
        return code

    def stand_in(self, real, result):
        """Takes the place of a function that runs commands, for calls made by the repository"""

        def call(cmd, *args, **kw):
            if not sys._getframe(1).f_code.co_filename.startswith(env.REPO + os.sep):
                return real(cmd, *args, **kw)
            code = self.command(cmd)
            if code and (kw.get("check") or real in CHECKED):
                raise subprocess.CalledProcessError(code, cmd)
            return result(cmd, code)

        return call

    def patches(self):
        done = lambda cmd, rc: subprocess.CompletedProcess(cmd, rc, b"", b"")  # noqa: E731
        for mod, name, result in (
                (os, "system", lambda c, rc: rc), (subprocess, "call", lambda c, rc: rc),
                (subprocess, "check_call", lambda c, rc: 0), (subprocess, "run", done),
                (subprocess, "check_output", lambda c, rc: b"")):
            yield mock.patch.object(mod, name, self.stand_in(getattr(mod, name), result))
        yield mock.patch.object(os, "remove", self.remove)
        yield mock.patch.object(os, "unlink", self.remove)


def code(fn):
    if fn not in _code:
        with open(fn) as f:
            _code[fn] = compile(f.read(), fn, "exec")
    return _code[fn]


@contextlib.contextmanager
def confined(scratch):
    """Deletions requested by the repository are carried out inside the scratch directory only"""
    rm = Deletions(scratch)
    with contextlib.ExitStack() as stack:
        for patch in rm.patches():
            stack.enter_context(patch)
        yield rm
    if rm.bad:
        raise Violation(f"the script would delete outside its output directory: {rm.bad[:3]}")


def run_script(name, argv, size, scratch, folder=SCRIPTS):
    """Runs the script on `size` ranks (threads) -> Deletions"""
    mpi = sys.modules["mpi4py"].MPI
    fn = os.path.join(folder, name)
    world = stubs.World(size)

    def rank(comm):
        mpi.local.comm = comm
        exec(code(fn), {"__name__": "__main__", "__file__": fn})  # noqa: S102

    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        with contextlib.ExitStack() as stack:
            en = stack.enter_context
            en(mock.patch.object(sys, "argv", [fn] + [str(a) for a in argv]))
            en(mock.patch.object(sys, "path", [folder] + sys.path))
            rm = en(confined(scratch))
            en(contextlib.redirect_stdout(io.StringIO()))
            en(warnings.catch_warnings())
            warnings.simplefilter("ignore")
            try:
                world.run(rank)
            except SystemExit as e:
                raise Violation(f"the script refused its documented arguments (exit {e.code})")
    finally:
        os.chdir(cwd)
    return rm

"""Stop or fail a real process at a chosen file-system operation.

`run(fn, root, at, mode)` forks, executes `fn()` in the child under ptrace and counts
the child's file-system operations below `root` (creating opens, writes, truncations,
renames, mkdirs, unlinks, links).  At operation number `at` the plan is applied:

    before       the process is killed, the operation does not happen
    after        the operation happens, then the process is killed
    torn:<n>/<d> a write transfers only that share of its bytes, then the process is killed
    error        the operation fails with ENOSPC, later operations work
    errors       this and all later operations fail with ENOSPC
    short        a write is cut in half (a legal short write), later operations fail

Only own children are traced and only paths below `root` are ever touched by a plan.
"""

from __future__ import annotations

import ctypes
import os
import signal
import struct

_libc = ctypes.CDLL(None, use_errno=True)
_libc.ptrace.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p]
_libc.ptrace.restype = ctypes.c_long

TRACEME, GETREGS, SETREGS, SYSCALL, SETOPTIONS = 0, 12, 13, 24, 0x4200
TRACESYSGOOD, EXITKILL = 1, 0x100000
ENOSPC = 28
_R = 27
ORIG_RAX, RAX, RDI, RSI, RDX, R10 = 15, 10, 14, 13, 12, 7
AT_FDCWD = -100

# number -> (name, kind)
CALLS = {
    1: ("write", "fd"), 18: ("pwrite64", "fd"), 20: ("writev", "fd"), 296: ("pwritev", "fd"), 328: ("pwritev2", "fd"),
    77: ("ftruncate", "fd"), 285: ("fallocate", "fd"), 40: ("sendfile", "fd"), 326: ("copy_file_range", "fd3"),
    2: ("open", "open"), 257: ("openat", "openat"), 437: ("openat2", "openat2"), 85: ("creat", "path"),
    76: ("truncate", "path"), 82: ("rename", "path"), 83: ("mkdir", "path"), 84: ("rmdir", "path"), 86: ("link", "path"),
    87: ("unlink", "path"), 88: ("symlink", "path2"), 258: ("mkdirat", "pathat"), 263: ("unlinkat", "pathat"),
    264: ("renameat", "pathat"), 316: ("renameat2", "pathat"), 265: ("linkat", "pathat"), 266: ("symlinkat", "path3"),
}
WRITES = {1, 18}
_MUTATE = os.O_CREAT | os.O_TRUNC


class Traced(Exception):
    pass


def _ptrace(req: int, pid: int, addr: int = 0, data: object = 0) -> None:
    if _libc.ptrace(req, pid, addr, data) < 0:
        err = ctypes.get_errno()
        raise Traced(f"ptrace {req}: {os.strerror(err)}")


def _regs(pid: int) -> list[int]:
    buf = ctypes.create_string_buffer(_R * 8)
    _ptrace(GETREGS, pid, 0, ctypes.cast(buf, ctypes.c_void_p))
    return list(struct.unpack(f"{_R}q", buf.raw))


def _set(pid: int, regs: list[int]) -> None:
    buf = ctypes.create_string_buffer(struct.pack(f"{_R}q", *regs), _R * 8)
    _ptrace(SETREGS, pid, 0, ctypes.cast(buf, ctypes.c_void_p))


def _string(mem: int, addr: int) -> str:
    out = b""
    while b"\0" not in out and len(out) < 4096:
        out += os.pread(mem, 64, addr + len(out))
    return os.fsdecode(out.split(b"\0")[0])


def _absolute(pid: int, dirfd: int, path: str) -> str:
    if path.startswith("/"):
        return path
    base = os.readlink(f"/proc/{pid}/cwd" if dirfd == AT_FDCWD else f"/proc/{pid}/fd/{dirfd}")
    return os.path.join(base, path)


def _target(pid: int, mem: int, regs: list[int]) -> tuple[str, str] | None:
    """Name and path of a mutating file-system operation, None for anything else."""
    nr = regs[ORIG_RAX]
    if nr not in CALLS:
        return None
    name, kind = CALLS[nr]
    s32 = lambda v: ctypes.c_int32(v & 0xFFFFFFFF).value
    if kind == "fd" or kind == "fd3":
        fd = s32(regs[RDI] if kind == "fd" else regs[RDX])
        try:
            return name, os.readlink(f"/proc/{pid}/fd/{fd}")
        except OSError:
            return None
    if kind == "open":
        return (name, _absolute(pid, AT_FDCWD, _string(mem, regs[RDI]))) if regs[RSI] & _MUTATE else None
    if kind == "openat":
        return (name, _absolute(pid, s32(regs[RDI]), _string(mem, regs[RSI]))) if regs[RDX] & _MUTATE else None
    if kind == "openat2":
        flags = struct.unpack("Q", os.pread(mem, 8, regs[RDX]))[0]
        return (name, _absolute(pid, s32(regs[RDI]), _string(mem, regs[RSI]))) if flags & _MUTATE else None
    if kind == "path":
        return name, _absolute(pid, AT_FDCWD, _string(mem, regs[RDI]))
    if kind == "path2":
        return name, _absolute(pid, AT_FDCWD, _string(mem, regs[RSI]))
    if kind == "path3":
        return name, _absolute(pid, s32(regs[RSI]), _string(mem, regs[RDX]))
    return name, _absolute(pid, s32(regs[RDI]), _string(mem, regs[RSI]))


def _kill(pid: int) -> str:
    os.kill(pid, signal.SIGKILL)
    while True:
        _, status = os.waitpid(pid, 0)
        if not os.WIFSTOPPED(status):
            return "killed"


def run(fn, root: str, at: int = -1, mode: str = "none") -> tuple[list[str], str]:
    """Returns the operations seen and 'done', 'raised' or 'killed'."""
    root = os.path.realpath(root)
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            signal.alarm(0)
            _ptrace(TRACEME, 0)
            os.kill(os.getpid(), signal.SIGSTOP)
            try:
                fn()
                code = 0
            except BaseException:  # noqa: BLE001
                code = 3
        except BaseException:  # noqa: BLE001
            code = 9
        os._exit(code)

    log: list[str] = []
    mem = -1
    try:
        _, status = os.waitpid(pid, 0)
        if not os.WIFSTOPPED(status):
            raise Traced(f"child ended early: {status}")
        _ptrace(SETOPTIONS, pid, 0, TRACESYSGOOD | EXITKILL)
        mem = os.open(f"/proc/{pid}/mem", os.O_RDONLY)
        entering = True
        pending = ""
        inject = 0
        while True:
            _ptrace(SYSCALL, pid, 0, inject)
            inject = 0
            _, status = os.waitpid(pid, 0)
            if os.WIFEXITED(status):
                code = os.WEXITSTATUS(status)
                if code == 9:
                    raise Traced("child failed outside of the operation")
                return log, "done" if code == 0 else "raised"
            if os.WIFSIGNALED(status):
                if os.WTERMSIG(status) != signal.SIGKILL:
                    raise Traced(f"child died from signal {os.WTERMSIG(status)}")
                return log, "killed"
            sig = os.WSTOPSIG(status)
            if sig != signal.SIGTRAP | 0x80:
                inject = sig if sig != signal.SIGTRAP else 0
                continue
            if not entering:
                entering = True
                if pending == "kill":
                    return log, _kill(pid)
                elif pending == "fail":
                    regs = _regs(pid)
                    regs[RAX] = -ENOSPC
                    _set(pid, regs)
                pending = ""
                continue
            entering = False
            regs = _regs(pid)
            op = _target(pid, mem, regs)
            if op is None or not (op[1] == root or op[1].startswith(root + "/")):
                continue
            index = len(log)
            log.append(f"{op[0]} {os.path.relpath(op[1], root)}")
            hit = index == at
            late = index > at >= 0 and mode in ("errors", "short")
            if not hit and not late:
                continue
            is_write = regs[ORIG_RAX] in WRITES
            if hit and mode == "before":
                regs[ORIG_RAX] = -1
                _set(pid, regs)
                return log, _kill(pid)
            elif hit and mode == "after":
                pending = "kill"
            elif hit and mode.startswith("torn:"):
                n, d = map(int, mode[5:].split("/"))
                if is_write:
                    regs[RDX] = max(0, regs[RDX] - 1) if n == d else regs[RDX] * n // d
                    _set(pid, regs)
                pending = "kill"
            elif hit and mode == "short":
                if is_write and regs[RDX] > 1:
                    regs[RDX] //= 2
                    _set(pid, regs)
            else:
                regs[ORIG_RAX] = -1
                _set(pid, regs)
                pending = "fail"
    finally:
        if mem >= 0:
            os.close(mem)
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass


def modes(op: str) -> list[str]:
    """All plans that differ from each other for an operation."""
    out = ["before", "after", "error", "errors"]
    if op.startswith(("write ", "pwrite64 ")):
        out += ["torn:1/4", "torn:1/2", "torn:3/4", "torn:1/1", "short"]
    return out

"""Runs file-writing code in a child process that dies at a chosen point.

Every effect on files below one scratch directory is an event: opening for
writing, the (buffered) data reaching the file, mkdir, rename, remove, rmdir.
The child can die before any event, and while data is being written, leaving a
prefix of it.  Death is os._exit: no finalizer, no clean-up, no flush."""
import builtins
import io
import os
import sys

from mc.explore import _recv, _send

EVENTS = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate",
          "os.link", "os.symlink", "shutil.move"}
TORN = (1, 2, 3)  # how much of the data arrived: a byte, half, all but one


class Points:
    """Counts events; dies at the chosen one."""

    def __init__(self, root, die_at):
        self.root = os.path.realpath(root)
        self.die_at = die_at
        self.count = 0
        self.labels = []
        self.off = False

    def inside(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return True  # relative to an open directory
        if isinstance(path, bytes):
            path = path.decode("utf-8", "replace")
        return not os.path.isabs(path) or os.path.realpath(path).startswith(
            self.root
        )

    def event(self, label):
        """True when the child has to die now."""
        if self.off:
            return False
        num = self.count
        self.count += 1
        self.labels.append(label)
        return num == self.die_at

    def audit(self, name, args):
        if self.off:
            return
        if name == "open":
            path, mode, flags = args
            if isinstance(path, int) or not self.inside(path):
                return
            writing = (
                any(c in mode for c in "wax+")
                if mode
                else bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            )
            if writing and self.event(f"open {os.path.basename(str(path))}"):
                os._exit(77)
        elif name in EVENTS and self.inside(args[0]):
            if self.event(f"{name} {os.path.basename(str(args[0]))}"):
                os._exit(77)


class File:
    """A file opened for writing, whose data arrives when it is flushed."""

    def __init__(self, points, real):
        self._points = points
        self._real = real
        self._parts = []

    def __getattr__(self, name):
        return getattr(self._real, name)

    def write(self, data):
        self._parts.append(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def _arrive(self):
        if not self._parts:
            return
        parts = [p if isinstance(p, str) else bytes(p) for p in self._parts]
        data = ("" if isinstance(parts[0], str) else b"").join(parts)
        self._parts = []
        size = len(data)
        for torn in TORN:
            cut = {1: 1, 2: size // 2, 3: size - 1}[torn]
            if self._points.event(f"write {cut} of {size}"):
                self._real.write(data[:cut])
                self._real.flush()
                os._exit(77)
        self._real.write(data)

    def flush(self):
        self._arrive()
        self._real.flush()

    def close(self):
        if not self._real.closed:
            self._arrive()
        self._real.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def __iter__(self):
        return iter(self._real)


def run(root, func, die_at=None):
    """Run func(points) in a child. -> (died, result, labels)"""
    r_fd, w_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r_fd)
            points = Points(root, die_at)
            real_open = io.open

            def opener(file, mode="r", *args, **kwargs):
                real = real_open(file, mode, *args, **kwargs)
                if (
                    any(c in mode for c in "wax+")
                    and not isinstance(file, int)
                    and points.inside(file)
                ):
                    return File(points, real)
                return real

            io.open = opener
            builtins.open = opener
            sys.addaudithook(points.audit)
            try:
                res = ("ok", func(points))
            except Exception as exc:  # pylint: disable=broad-except
                res = ("raised", f"{type(exc).__name__}: {exc}")
            points.off = True
            _send(w_fd, (res, points.labels))
        except BaseException:  # pylint: disable=broad-except
            code = 78
        os._exit(code)
    os.close(w_fd)
    try:
        res, labels = _recv(r_fd)
    except EOFError:
        res, labels = None, []
    os.close(r_fd)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    assert code in (0, 77), code
    return code == 77, res, labels

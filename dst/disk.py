"""The disk simulator. Nodes are processes of their own; every file-system call one of them makes on a file in
scope parks it until the controller (the seeded scheduler) lets it proceed, fails the call, shortens the transfer
or kills the process on the spot. At any moment at most one node is running."""
import ctypes
import errno
import os
import pickle
import signal
import struct
import sys

from .kernel import HarnessError

ERRNO = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EINTR": errno.EINTR, "ENOENT": errno.ENOENT,
         "EMFILE": errno.EMFILE, "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "EPIPE": errno.EPIPE, "ENOMEM": errno.ENOMEM,
         "ESTALE": errno.ESTALE, "EPERM": errno.EPERM}
GO = (0, 0)
MAX_STEPS = 4000


def lib():
    return ctypes.CDLL(None)


class Node:
    """A process that runs `fn` with the shim switched on."""

    def __init__(self, name, fn, scope, watch=(), watch_out=False):
        self.name, self.steps, self.result, self.died = name, 0, None, False
        self.op_counts = {}
        self.request = None
        req_r, req_w = os.pipe()
        rsp_r, rsp_w = os.pipe()
        res_r, res_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(req_r), os.close(rsp_w), os.close(res_r)
                # descriptors far away from the ones the code under test will get
                req2, rsp2, res2 = (fcntl_dup(fd, 700 + i) for i, fd in enumerate((req_w, rsp_r, res_w)))
                os.close(req_w), os.close(rsp_r), os.close(res_w)
                shim = lib()
                for path in watch:
                    shim.simdisk_watch(os.fsencode(path))
                shim.simdisk_on(req2, rsp2, os.fsencode(scope), int(watch_out))
                try:
                    out = ("ok", fn())
                except BaseException as e:
                    out = ("exc", e)
                shim.simdisk_off()
                try:
                    data = pickle.dumps(out)
                except Exception:
                    data = pickle.dumps((out[0], repr(out[1])))
                while data:
                    data = data[os.write(res2, data):]
            except BaseException:
                code = 70
            finally:
                os._exit(code)
        os.close(req_w), os.close(rsp_r), os.close(res_w)
        self.req, self.rsp, self.res = req_r, rsp_w, res_r
        self.buf = b""
        self.park()

    def park(self):
        """Wait until the node has announced its next call, or is gone."""
        while b"\n" not in self.buf:
            part = os.read(self.req, 65536)
            if not part:
                self.finish()
                return
            self.buf += part
        line, self.buf = self.buf.split(b"\n", 1)
        op, fd, length, off, flags, path, path2 = line.decode(errors="replace").split("\t")
        self.request = {"op": op, "fd": int(fd), "len": int(length), "off": int(off), "flags": int(flags), "path": path, "path2": path2}

    def finish(self):
        self.request = None
        data = b""
        while True:
            part = os.read(self.res, 1 << 20)
            if not part:
                break
            data += part
        _, status = os.waitpid(self.pid, 0)
        for fd in (self.req, self.rsp, self.res):
            os.close(fd)
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
            self.died, self.result = True, ("died", None)
        elif data:
            self.result = pickle.loads(data)
        else:
            raise HarnessError("node %s ended without a result (status %s)" % (self.name, status))

    @property
    def alive(self):
        return self.request is not None

    def answer(self, verdict):
        self.steps += 1
        self.op_counts[self.request["op"]] = self.op_counts.get(self.request["op"], 0) + 1
        os.write(self.rsp, struct.pack("ii", *verdict))
        self.request = None
        self.park()


def fcntl_dup(fd, target):
    import fcntl
    return fcntl.fcntl(fd, fcntl.F_DUPFD, target)


class Inode:
    def __init__(self):
        self.dirty = False


class Disk:
    """Runs nodes under a schedule and a list of faults, and keeps the model of what has reached the disk."""

    def __init__(self, ctx, scope, faults=(), schedule=(), space=None, names=()):
        self.ctx, self.scope = ctx, scope
        self.faults = [dict(f) for f in faults]
        self.schedule = list(schedule)
        self.space = space              # bytes that still fit on the simulated disk (None: any number)
        self.inodes = {}
        self.labels = {os.path.join(scope, n): n for n in names}
        self.fired, self.fired_at = [], []      # the faults, and at which entry of the trace each happened
        self.trace = []

    def label(self, path):
        if path not in self.labels:
            self.labels[path] = "file%d" % len(self.labels) if path.startswith(self.scope) else os.path.basename(path)
        return self.labels[path]

    def inode(self, path):
        return self.inodes.setdefault(path, Inode())

    def choose(self, runnable):
        """The scheduler: the plan's next entry picks among the runnable nodes (0 when the plan has run out)."""
        pick = self.schedule.pop(0) if self.schedule else 0
        return runnable[pick % len(runnable)]

    def verdict(self, node):
        r = node.request
        nth = node.op_counts.get(r["op"], 0)
        for f in self.faults:
            if f.get("node", node.name) != node.name or f.get("path", self.label(r["path"])) != self.label(r["path"]):
                continue
            sticky = f.get("sticky") and f.get("errno") != "EINTR"      # a signal doesn't interrupt every call for ever
            if "at" in f:
                hit = node.steps == f["at"] or (sticky and node.steps > f["at"])
            else:
                hit = f["op"] == r["op"] and (nth == f["nth"] or (sticky and nth > f["nth"]))
            if not hit:
                continue
            if f["action"] == "die":
                self.note("crash:" + r["op"], f)
                return (3, 0)
            if f["action"] == "short":
                if r["op"] in ("read", "write") and r["len"] > 1:
                    self.note("short-" + r["op"], f)
                    return (2, max(1, int(r["len"] * f.get("keep", 0.5))))
                continue
            if not allowed(r["op"], f["errno"]):
                continue
            self.note("%s:%s" % (f["errno"], r["op"]), f)
            return (1, ERRNO[f["errno"]])
        if self.space is not None and r["op"] in ("write", "truncate"):
            if r["op"] == "write" and r["path"].startswith(self.scope):
                if self.space <= 0:
                    self.note("disk-full:write", None)
                    return (1, errno.ENOSPC)
                if r["len"] > self.space:
                    fits, self.space = self.space, 0
                    self.note("disk-full:short-write", None)
                    return (2, fits)
                self.space -= r["len"]
        return GO

    def note(self, kind, f):
        self.fired.append((kind, f))
        self.fired_at.append(len(self.trace))
        self.ctx.fault(kind)

    def track(self, r):
        """What the call means for the durable state, once it has succeeded."""
        op, path = r["op"], r["path"]
        if op in ("write", "truncate"):
            self.inode(path).dirty = True
        elif op == "open" and r["flags"] & (os.O_TRUNC | os.O_CREAT):
            if r["flags"] & os.O_TRUNC or path not in self.inodes:
                self.inode(path)
        elif op == "fsync":
            self.inode(path).dirty = False
        elif op in ("rename", "link"):
            self.inodes[r["path2"]] = self.inode(path)

    def run(self, nodes, max_steps=MAX_STEPS):
        steps = 0
        while True:
            runnable = [n for n in nodes if n.alive]
            if not runnable:
                break
            node = self.choose(runnable)
            r = dict(node.request)
            v = self.verdict(node)
            entry = (node.name, r["op"], self.label(r["path"]), self.label(r["path2"]) if r["path2"] else "", v[0],
                     v[1] if v[0] != 3 else 0)
            self.trace.append(entry)
            self.ctx.event("fs", *entry)
            if v[0] in (0, 2):
                self.track(r)
            node.answer(v)
            steps += 1
            if steps > max_steps:
                for n in nodes:
                    if n.alive:
                        os.kill(n.pid, signal.SIGKILL)
                        os.waitpid(n.pid, 0)
                        n.request, n.result = None, ("stuck", None)
                return False
        self.ctx.sim_time += steps * 1e-3
        self.ctx.state(*[(t[0], t[1], t[4]) for t in self.trace])
        return True

    def power_loss(self, keep):
        """The machine loses power: data that was never synced may be missing. keep in [0, 1]."""
        done = set()
        for path, ino in list(self.inodes.items()):
            if ino.dirty and os.path.isfile(path) and not os.path.islink(path):
                key = os.stat(path).st_ino
                if key in done:
                    continue
                done.add(key)
                size = os.path.getsize(path)
                if size:
                    with open(path, "r+b") as f:
                        f.truncate(int(size * keep))
                    self.ctx.fault("power-loss:unsynced-data-lost")


def allowed(op, err):
    """Errors that the call can really return."""
    if err == "EINTR":
        return op in ("read", "write", "fsync")
    if err in ("ENOSPC", "EDQUOT"):
        return op in ("write", "open", "truncate", "link", "rename", "fsync", "close", "mkdir")
    if err in ("EACCES", "EROFS", "EPERM"):
        return op in ("open", "rename", "link", "unlink") and not (err == "EPERM" and op == "link")
    if err == "ENOENT":
        return op in ("open", "stat")
    if err in ("EMFILE", "ENOMEM"):
        return op == "open"
    if err == "EIO":
        return op in ("open", "read", "write", "fsync", "close", "truncate", "rename", "link", "stat", "unlink")
    return op in ("open", "read", "write", "stat")


def solo(ctx, scope, fn, name="n", **kw):
    """Run one node alone; returns (result, disk)."""
    watch, watch_out = kw.pop("watch", ()), kw.pop("watch_out", False)
    disk = Disk(ctx, scope, **kw)
    node = Node(name, fn, scope, watch, watch_out)
    disk.run([node])
    return node.result, disk


class MarkedDisk(Disk):
    """A disk on which faults are aimed at a part of a node's life: the node stats `mark-<name>` between the parts.
    Faults: {"mark", "file", "op", "nth", "action", "errno", "keep", "sticky"} or {"mark", "missing": file}."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.mark, self.seen, self.hits = None, {}, {}

    def verdict(self, node):
        r = node.request
        base = os.path.basename(r["path"])
        if base.startswith("mark-"):
            self.mark, self.seen = base[5:], {}
            return GO
        nth = self.seen.get((base, r["op"]), 0)
        self.seen[(base, r["op"])] = nth + 1
        for f in self.faults:
            if f["mark"] != self.mark:
                continue
            if f.get("missing"):
                if f["missing"] == base and r["op"] in ("open", "stat"):
                    return self.hit(f, (1, errno.ENOENT), "missing-file:" + r["op"])
                continue
            sticky = f.get("sticky") and f.get("errno") != "EINTR" and f.get("keep", 1) > 0.1
            if f.get("file", base) != base or f["op"] != r["op"] or not (nth == f["nth"] or (sticky and nth > f["nth"])):
                continue
            if f["action"] == "short":
                if r["op"] == "read" and r["len"] > 1:
                    return self.hit(f, (2, max(1, int(r["len"] * f["keep"]))), "short-read")
            elif allowed(r["op"], f["errno"]):
                return self.hit(f, (1, ERRNO[f["errno"]]), "%s:%s" % (f["errno"], r["op"]))
        return GO

    def hit(self, f, verdict, kind):
        self.note(kind, f)
        self.hits.setdefault(self.mark, []).append(f)
        return verdict

    def benign(self, mark):
        """Whether the faults that hit this part must be invisible (a short read or an interrupted call)."""
        return all(f.get("action") == "short" or f.get("errno") == "EINTR" for f in self.hits.get(mark, []))


def set_mark(scope, name):
    try:
        os.stat(os.path.join(scope, "mark-" + name))
    except OSError:
        pass

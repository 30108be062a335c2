"""Process-tree exploration with a job server."""
import json
import os
import signal
import sys
import time
import traceback


def adopt_orphans():
    import ctypes

    PR_SET_CHILD_SUBREAPER = 36
    ctypes.CDLL(None, use_errno=True).prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0)


def low_memory(least=2 << 20):
    try:
        with open("/proc/meminfo") as f:
            for line in f:
                if line.startswith("MemAvailable:"):
                    return int(line.split()[1]) < least
    except (OSError, ValueError):
        pass
    return False


class Explorer:
    """fork() returns True in the child that takes the other outcome."""

    def __init__(self, jobs, outdir, max_paths, deadline):
        self.outdir = outdir
        self.deadline = deadline
        self.max_paths = max_paths
        # run slots, and the right to leave a process waiting for one
        self.r, self.w = os.pipe()
        os.write(self.w, b"t" * max(0, jobs - 1))
        self.pr, self.pw = os.pipe()
        os.write(self.pw, b"p" * (16 * jobs))
        os.set_blocking(self.pr, False)
        self.out = os.open(
            os.path.join(outdir, "records.jsonl"),
            os.O_WRONLY | os.O_APPEND | os.O_CREAT,
            0o600,
        )
        self.cnt = os.path.join(outdir, "count")
        self.holding = True
        self.depth = 0

    def _slot(self):
        os.read(self.r, 1)
        self.holding = True

    def _release(self):
        if self.holding:
            os.write(self.w, b"t")
            self.holding = False

    def fork(self):
        from . import core

        sys.stdout.flush()
        sys.stderr.flush()
        try:
            pending = os.read(self.pr, 1) == b"p"
        except BlockingIOError:
            pending = False
        if low_memory():
            if pending:
                os.write(self.pw, b"p")
            # one outcome stays unexplored
            self.record({"kind": "crash", "where": "out of memory"})
            return False
        pid = os.fork()
        if pid == 0:
            self.depth += 1
            core.ST.queries = 0
            core.ST.solver_time = 0.0
            core.ST.branches = 0
            core.ST.functions = {}
            core.ST.concretised = {}
            core.ST.truncated = []
            if pending:
                self.holding = False
                self._slot()
                os.write(self.pw, b"p")
            return True
        if not pending:
            # the child runs in our slot; go on when its path is done
            self.holding = False
            self._wait(pid)
            self._slot()
        return False

    def _wait(self, pid):
        _, status = os.waitpid(pid, 0)
        if status != 0:
            os.write(self.w, b"t")
            self.record(
                {"kind": "crash", "status": status, "where": "path process"}
            )

    def record(self, rec):
        data = (json.dumps(rec) + "\n").encode()
        os.write(self.out, data)

    def finish(self):
        """Called at the end of every path process."""
        self._release()

    def _kill(self, pid):
        for _ in range(100):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                while os.waitpid(-pid, os.WNOHANG)[0]:
                    pass
            except ChildProcessError:
                return
            time.sleep(0.05)

    def run(self, body, enough=None):
        """Runs body() in a fresh process tree; returns the records.

        enough(record): true when nothing more has to be explored."""
        adopt_orphans()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                body()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                try:
                    self.finish()
                except BaseException:
                    traceback.print_exc()
                    code = 4
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        timed_out = False
        bad = []
        seen, look, stop_at = 0, 0.0, None
        while True:
            # path processes whose parent is done come back to this process
            try:
                p, st = os.waitpid(-pid, os.WNOHANG)
            except ChildProcessError:
                break
            if p:
                if st:
                    bad.append(st)
                    try:
                        os.write(self.w, b"t")
                    except OSError:
                        pass
                continue
            now = time.time()
            if enough and stop_at is None and now > look:
                look = now + 0.5
                with open(os.path.join(self.outdir, "records.jsonl"), "rb") as f:
                    f.seek(seen)
                    for line in f:
                        if not line.endswith(b"\n"):
                            break
                        seen += len(line)
                        if enough(json.loads(line)):
                            stop_at = now + 3
            if now > self.deadline + 20 or (stop_at and now > stop_at):
                timed_out = not stop_at
                self._kill(pid)
                bad = []
                break
            time.sleep(0.01)
        recs = []
        path = os.path.join(self.outdir, "records.jsonl")
        with open(path, "rb") as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    recs.append({"kind": "crash", "where": "record"})
        for fd in (self.r, self.w, self.pr, self.pw):
            os.close(fd)
        os.close(self.out)
        if timed_out:
            recs.append({"kind": "timeout"})
        for st in bad:
            recs.append({"kind": "crash", "status": st, "where": "path process"})
        return recs

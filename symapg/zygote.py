"""Runs the real, unmodified program: one forked process per request.

Started with the interpreter the repository's own tests use.  A request is a
JSON object {files, argv, timeout, hashseed}; the program runs in a fresh
scratch directory which is read back and removed.
"""
import base64
import io
import json
import os
import shutil
import signal
import socket
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True


def read_tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = base64.b64encode(
                    fh.read()
                ).decode()
    return out


def run_child(req, work):
    """In a forked child: run main() and exit with its status."""
    os.chdir(work)
    out = os.open(os.path.join(work, ".stdout"), os.O_CREAT | os.O_WRONLY)
    os.dup2(out, 1)
    os.dup2(out, 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0), write_through=True)
    sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", 0), write_through=True)
    sys.argv = ["main.py"] + req["argv"]
    code = 0
    try:
        import asn1_parser.main as m

        m.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (1 if e.code else 0)
    except BaseException:
        traceback.print_exc()
        code = 1
    os._exit(code & 255)


def serve(req):
    work = tempfile.mkdtemp(prefix="apgreal")
    try:
        for name, text in req["files"].items():
            p = os.path.join(work, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(text, dict):
                data = base64.b64decode(text["b64"])
            else:
                data = text.encode("utf-8")
            with open(p, "wb") as f:
                f.write(data)
        pid = os.fork()
        if pid == 0:
            signal.alarm(int(req.get("timeout", 20)))
            run_child(req, work)
        _, status = os.waitpid(pid, 0)
        res = {}
        if os.WIFSIGNALED(status):
            res["status"] = (
                "hang"
                if os.WTERMSIG(status) == signal.SIGALRM
                else "signal %d" % os.WTERMSIG(status)
            )
        else:
            res["status"] = os.WEXITSTATUS(status)
        outdir = os.path.join(work, "out")
        res["files"] = read_tree(outdir) if os.path.isdir(outdir) else {}
        try:
            with open(os.path.join(work, ".stdout"), errors="replace") as f:
                res["stdout"] = f.read()[-4000:]
        except OSError:
            res["stdout"] = ""
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    root, path = sys.argv[1], sys.argv[2]
    parent = os.getppid()
    sys.path.insert(0, root)
    import warnings

    warnings.simplefilter("ignore")
    import_error = None
    try:
        import asn1_parser.main  # noqa: F401
    except BaseException:
        import_error = traceback.format_exc()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    srv.settimeout(1.0)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print("ready", flush=True)
    while True:
        try:
            conn, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != parent:
                return
            continue
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            srv.close()
            conn.settimeout(None)
            f = conn.makefile("rwb")
            req = json.loads(f.readline())
            try:
                if import_error:
                    res = {"status": 1, "files": {}, "stdout": import_error}
                else:
                    res = serve(req)
            except BaseException:
                res = {"error": traceback.format_exc()}
            f.write((json.dumps(res) + "\n").encode())
            f.flush()
            conn.close()
            os._exit(0)
        conn.close()


if __name__ == "__main__":
    main()

"""Talks to a C++ harness that answers requests on standard input."""
import os
import select
import shutil
import subprocess
import tempfile
import time

from . import build, runner

_servers = {}


class Server:
    def __init__(self, name, variant="rel", np_=1):
        env = build.environment()
        self.tmp = tempfile.mkdtemp(prefix="t", dir=runner.scratch_root())
        env["TMPDIR"] = self.tmp
        env["OMPI_MCA_btl_vader_backing_directory"] = self.tmp
        env["OMPI_MCA_orte_tmpdir_base"] = self.tmp
        self.err = open(os.path.join(self.tmp, "stderr"), "w+")
        cmd = [os.path.join(runner.BDIR[variant], name)]
        if np_ > 1:
            cmd = ["mpiexec", "--bind-to", "none", "-np", str(np_)] + cmd
        self.p = subprocess.Popen(cmd, cwd=self.tmp, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)

    def ask(self, text, timeout):
        """The lines of the answer, which ends with a line "end"."""
        data = b""
        try:
            self.p.stdin.write(text.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        limit = time.time() + timeout
        while not data.endswith(b"end\n"):
            left = limit - time.time()
            if left <= 0:
                self.close()
                raise runner.Broken("no answer within %d s" % timeout)
            if select.select([self.p.stdout], [], [], left)[0]:
                part = self.p.stdout.read()
                if not part:
                    self.p.wait()
                    self.err.seek(0)
                    message = self.err.read()[-1500:]
                    code = self.p.returncode
                    self.close()
                    raise runner.Broken("the program ended with status %s\n%s" % (code, message))
                data += part
        return data.decode(errors="replace").split("\n")[:-2]

    def close(self):
        # the end of the input ends the program; whatever is left after that is stopped
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        for stop in (None, self.p.terminate, self.p.kill):
            if stop:
                stop()
            try:
                self.p.wait(3)
                break
            except subprocess.TimeoutExpired:
                pass
        self.p.stdout.close()
        self.err.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


def ask(name, text, timeout=60, variant="rel", which="", np_=1):
    """which tells apart several processes of the same harness."""
    key = (os.getpid(), name, variant, which, np_)
    s = _servers.get(key)
    if s is None or s.p.poll() is not None:
        s = _servers[key] = Server(name, variant, np_)
    try:
        return s.ask(text, timeout)
    except runner.Broken:
        _servers.pop(key, None)
        raise


def close():
    for key in [k for k in _servers if k[0] == os.getpid()]:
        _servers.pop(key).close()


runner.AT_END.append(close)

"""An interpreter started with another hash seed, idle after its imports; every
request runs in a fork of it, like a freshly started process."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_Z = {}


def get(hseed, module):
    """The zygote with that hash seed, started if need be."""
    z = _Z.get((hseed, module))
    if z is None or z.poll() is not None or z.owner != os.getpid():
        env = dict(os.environ, PYTHONHASHSEED=str(hseed), PYTHONDONTWRITEBYTECODE="1")
        z = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), module], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, bufsize=0
        )
        z.owner = os.getpid()
        _Z[(hseed, module)] = z
    return z


def kill_all():
    for z in _Z.values():
        z.kill()
        z.wait()
    _Z.clear()


def call(hseed, module, req):
    """Execute ``module.serve(req)`` in a fork of the zygote (status, value)."""
    import core

    z = _Z[(hseed, module)]
    core.Pristine._send(z.stdin.fileno(), req)
    r = core.Pristine._recv(z.stdout.fileno())
    if r is None:
        raise RuntimeError("zygote died")
    return r


def main():
    sys.path.insert(0, HERE)
    out = os.dup(1)
    os.dup2(2, 1)
    import importlib

    import core
    import world  # noqa

    mod = importlib.import_module(sys.argv[1])
    while True:
        req = core.Pristine._recv(0)
        if req is None:
            os._exit(0)
        core.Pristine._send(out, core.fork_call(lambda: mod.serve(req), timeout=200))


if __name__ == "__main__":
    main()

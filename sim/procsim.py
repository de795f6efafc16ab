"""Process-level simulation of scripts: each simulated process is a real fork that runs the script's real code and stops at
every traced line, at every solve and at every exit until the parent lets it go on, kills it or injects an error. Exactly one
process moves at any time. Clocks are simulated and shared; the disk-full and torn-write faults are real file-size limits."""
import errno
import gc
import io
import os
import pickle
import resource
import signal
import struct
import sys
import types

TOOL = 3


class Stop(Exception):
    pass


# ------------------------------------------------------------------- clocks
class Clock:
    """Shared between the processes: elapsed time and wall-clock offset."""

    def __init__(self, shm, tick=1e-6):
        self.shm = shm
        self.tick = tick

    def get(self):
        return struct.unpack("<dd", self.shm[:16])

    def put(self, mono, off):
        self.shm[:16] = struct.pack("<dd", mono, off)

    def advance(self, d):
        m, o = self.get()
        self.put(m + d, o)

    def jump(self, d):
        m, o = self.get()
        self.put(m, o + d)

    def mono(self):
        self.advance(self.tick)
        return self.get()[0]

    def wall(self):
        self.advance(self.tick)
        m, o = self.get()
        return m + o


def install_clock(clock):
    import datetime
    import time

    real = {k: getattr(time, k) for k in ("localtime", "gmtime", "strftime", "ctime", "asctime")}
    for name in ("perf_counter", "monotonic", "process_time", "thread_time"):
        setattr(time, name, clock.mono)
        setattr(time, name + "_ns", lambda: int(clock.mono() * 1e9))
    time.time = clock.wall
    time.time_ns = lambda: int(clock.wall() * 1e9)
    time.sleep = clock.advance
    time.localtime = lambda s=None: real["gmtime"](clock.wall() if s is None else s)
    time.gmtime = lambda s=None: real["gmtime"](clock.wall() if s is None else s)
    time.strftime = lambda f, t=None: real["strftime"](f, time.gmtime() if t is None else t)
    time.ctime = lambda s=None: real["asctime"](time.gmtime(s))
    time.asctime = lambda t=None: real["asctime"](time.gmtime() if t is None else t)
    D, T = datetime.date, datetime.datetime

    class SimDateTime(T):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(clock.wall(), tz or datetime.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    class SimDate(D):
        @classmethod
        def today(cls):
            return SimDateTime.now().date()

    datetime.datetime, datetime.date = SimDateTime, SimDate


# ------------------------------------------------------------ traced lines
def code_objects(obj, seen, module):
    if isinstance(obj, types.CodeType):
        if id(obj) not in seen:
            seen[id(obj)] = obj
            for c in obj.co_consts:
                if isinstance(c, types.CodeType):
                    code_objects(c, seen, module)
    elif isinstance(obj, types.FunctionType):
        if getattr(obj, "__module__", None) == module or obj.__code__.co_filename == sys.modules[module].__file__:
            code_objects(obj.__code__, seen, module)
        w = getattr(obj, "__wrapped__", None)
        if w is not None:
            code_objects(w, seen, module)
    elif isinstance(obj, (staticmethod, classmethod)):
        code_objects(obj.__func__, seen, module)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset):
            if f:
                code_objects(f, seen, module)
    elif isinstance(obj, type) and obj.__module__ == module:
        for v in vars(obj).values():
            code_objects(v, seen, module)


def module_code(names):
    seen = {}
    for n in names:
        for v in list(vars(sys.modules[n]).values()):
            code_objects(v, seen, n)
            impl = getattr(v, "_implementation", None)
            if impl is not None:
                code_objects(impl, seen, n)
    return list(seen.values())


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "MemoryError": lambda: MemoryError("injected"),
    "OSError": lambda: OSError(errno.ENOSPC, "No space left on device (injected)"),
}


class Child:
    """Inside the simulated process."""

    def __init__(self, rd, wr, clock):
        self.rd, self.wr, self.clock = rd, wr, clock
        self.finishing = False

    def send(self, obj):
        data = pickle.dumps(obj)
        os.write(self.wr, b"{" + struct.pack("<I", len(data)) + data)

    def point(self):
        os.write(self.wr, b".")
        self.wait()

    def wait(self):
        c = os.read(self.rd, 1)
        if c == b"g":
            return
        if c in (b"k", b""):
            os._exit(9)
        name = {b"i": "KeyboardInterrupt", b"m": "MemoryError", b"e": "OSError"}[c]
        raise EXC[name]()

    def line(self, code, lineno):
        self.point()

    def run(self, script, argv, cwd, modules, limit, setup):
        os.chdir(cwd)
        out = io.StringIO()
        sys.stdout = out
        sys.stderr = io.StringIO()
        sys.argv = [script] + argv
        install_clock(self.clock)
        setup(self)
        src = open(script).read()
        code = compile(src, script, "exec")
        seen = {}
        code_objects(code, seen, "builtins")
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "procsim")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        for c in list(seen.values()) + module_code(modules):
            mon.set_local_events(TOOL, c, mon.events.LINE)
        if limit is not None:
            nbytes, die = limit
            if die:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, resource.RLIM_INFINITY))
        end = ("exit", 0, "")
        try:
            self.wait()
            exec(code, {"__name__": "__main__", "__file__": script, "__builtins__": __builtins__})
        except SystemExit as e:
            c = e.code
            end = ("exit", c if isinstance(c, int) else (0 if c is None else 1), "")
        except BaseException as e:
            import traceback

            last = traceback.extract_tb(e.__traceback__)[-1]
            end = ("raised", type(e).__name__, f"{type(e).__name__}: {e} at {os.path.basename(last.filename)}:{last.lineno}")
        # like an interpreter that shuts down: finalisers run, files are closed
        try:
            gc.collect()
        except BaseException:
            pass
        mon.register_callback(TOOL, mon.events.LINE, None)
        gc.collect()
        self.send(("end", end, out.getvalue()))
        os._exit(0)


class Proc:
    """The parent's view of a simulated process."""

    def __init__(self, name, script, argv, cwd, clock, modules, limit, setup):
        self.name = name
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r1)
                os.close(w2)
                Child(r2, w1, clock).run(script, argv, cwd, modules, limit, setup)
            except BaseException:
                import traceback

                try:
                    os.write(w1, b"!" + traceback.format_exc().encode())
                finally:
                    os._exit(3)
            os._exit(4)
        os.close(w1)
        os.close(r2)
        self.r, self.w = r1, w2
        self.points = 0
        self.done = False
        self.end = None
        self.out = ""

    def _read(self, n):
        b = b""
        while len(b) < n:
            c = os.read(self.r, n - len(b))
            if not c:
                return b
            b += c
        return b

    def go(self, answer=b"g"):
        """Let it move to its next stop. Yields messages on the way."""
        os.write(self.w, answer)
        msgs = []
        while True:
            c = self._read(1)
            if c == b".":
                self.points += 1
                return msgs
            if c == b"{":
                n = struct.unpack("<I", self._read(4))[0]
                m = pickle.loads(self._read(n))
                if m[0] == "end":
                    self.end, self.out = m[1], m[2]
                    self.finish()
                    return msgs
                msgs.append(m)
                continue
            if c == b"!":
                t = b""
                while True:
                    x = os.read(self.r, 65536)
                    if not x:
                        break
                    t += x
                self.finish()
                raise RuntimeError("simulated process failed: " + t.decode())
            self.finish()
            if self.end is None:
                self.end = ("killed", self.status, "")
            return msgs

    def finish(self):
        if not self.done:
            self.done = True
            os.close(self.r)
            os.close(self.w)
            _, st = os.waitpid(self.pid, 0)
            self.status = os.waitstatus_to_exitcode(st)

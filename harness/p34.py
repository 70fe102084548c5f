"""P34: the temporary run-time environment."""
import os
import shutil
import sys
import tempfile


class Mkl:
    """the thread setting of the library"""

    def __init__(self, n):
        self.n = n

    def set_num_threads(self, n):
        old, self.n = self.n, n
        return old

    def get_max_threads(self):
        return self.n


class Failure(Exception):
    pass


def requested(ctx, tag, kind):
    return None if kind == "default" else ctx.int(tag, 1, 64)


def scratch(fn):
    d = tempfile.mkdtemp(prefix="p34")
    out = sys.stdout
    try:
        fn(d)
    finally:
        sys.stdout = out
        shutil.rmtree(d)


def logs(d):
    return [open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))]


def environment(ctx, threads, end):
    """end: how the body is left"""
    m = ctx.int("m", 1, 64)
    t = requested(ctx, "t", threads)
    mkl = Mkl(m)
    ctx.standin("mkl", mkl, "HamiltonianPy.tools.runtimeenv")
    from HamiltonianPy.tools.runtimeenv import RunTimeEnv
    rd = ctx.choice("rd", [None, False, True])
    deep = ctx.choice("deep", [False, True])

    def run(d):
        where = os.path.join(d, "a", "b") if deep else d
        out = sys.stdout

        def body():
            with RunTimeEnv(**({} if rd is None else {"rd": rd}), path=where, **({} if t is None else {"threads_num": t})):
                ctx.check(mkl.n == (m if t is None else t), "number of threads within")
                ctx.check((sys.stdout is not out) is bool(rd), "output redirected when asked for")
                if rd:
                    print("a line of the body")
                if end == "failure":
                    raise Failure("broken")
                if end == "exit":
                    raise SystemExit(3)
                if end == "interrupt":
                    raise KeyboardInterrupt
            return "done"
        r = None
        try:
            r = body()
        except (Failure, SystemExit, KeyboardInterrupt) as e:
            r = e
        same = sys.stdout is out
        sys.stdout = out
        ctx.check(same, "standard output restored")
        ctx.check(mkl.n == m, "number of threads restored")
        if end == "normal":
            ctx.check(r == "done", "the body is run")
        else:
            ctx.check(type(r) is {"failure": Failure, "exit": SystemExit, "interrupt": KeyboardInterrupt}[end], "exceptions pass through")
        ctx.check(os.path.isdir(where), "the directory is made")
        got = logs(where)
        if rd:
            ctx.check(len(got) == 1 and "a line of the body" in got[0].split("\n"), "output in the log")
            if end == "failure":
                ctx.check(len(got) == 1 and "Failure" in got[0] and "broken" in got[0], "exception in the log")
        else:
            ctx.check(not got, "no log")
    scratch(run)


def nested(ctx, outer, inner):
    m = ctx.int("m", 1, 64)
    t, u = requested(ctx, "t", outer), requested(ctx, "u", inner)
    mkl = Mkl(m)
    ctx.standin("mkl", mkl, "HamiltonianPy.tools.runtimeenv")
    from HamiltonianPy.tools.runtimeenv import RunTimeEnv
    made = ctx.choice("made", ["before", "inside"])
    rds = ctx.choice("rds", [(False, False), (True, False), (False, True), (True, True)])

    def run(d):
        out = sys.stdout
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        now = m if t is None else t
        e = RunTimeEnv(rd=rds[0], path=a, threads_num=t)
        f = RunTimeEnv(rd=rds[1], path=b, threads_num=u) if made == "before" else None
        ctx.check(mkl.n == m, "nothing changes before the environment is entered")
        with e:
            o1 = sys.stdout
            if made == "inside":
                f = RunTimeEnv(rd=rds[1], path=b, threads_num=u)
            ctx.check(mkl.n == now, "outer number of threads")
            if rds[0]:
                print("outer one")
            try:
                with f:
                    if u is not None:
                        ctx.check(mkl.n == u, "inner number of threads")
                    if rds[1]:
                        print("inner")
                    raise Failure
            except Failure:
                pass
            ctx.check(sys.stdout is o1, "outer output restored")
            ctx.check(mkl.n == now, "outer number of threads restored")
            if rds[0]:
                print("outer two")
        same = sys.stdout is out
        sys.stdout = out
        ctx.check(same, "standard output restored")
        ctx.check(mkl.n == m, "number of threads restored")
        for rd, where, lines in ((rds[0], a, ["outer one", "outer two"]), (rds[1], b, ["inner"])):
            got = logs(where)
            ctx.check(len(got) == int(rd), "one log for each redirection")
            if rd and got:
                mine = [l for l in got[0].split("\n") if l in ("outer one", "outer two", "inner")]
                ctx.check(mine == lines, "output in its own log")
    scratch(run)


class Output:
    """some other standard output"""

    def write(self, text):
        return len(text)

    def flush(self):
        pass


def again(ctx, threads):
    """one environment used several times, the output and the number of threads outside being others each time"""
    t = requested(ctx, "t", threads)
    mkl = Mkl(ctx.int("m", 1, 64))
    ctx.standin("mkl", mkl, "HamiltonianPy.tools.runtimeenv")
    from HamiltonianPy.tools.runtimeenv import RunTimeEnv
    rd = ctx.choice("rd", [False, True])
    fails = ctx.choice("fails", [(False, False, False), (True, False, False), (False, True, False)])
    inside = mkl.n if t is None else t

    def run(d):
        env = RunTimeEnv(rd=rd, path=d, threads_num=t)
        for k, fail in enumerate(fails):
            out = sys.stdout = Output()
            mkl.n = n = ctx.int("n%d" % k, 1, 64)
            try:
                with env:
                    ctx.check(mkl.n == inside, "number of threads within")
                    ctx.check((sys.stdout is not out) is rd, "output redirected when asked for")
                    if fail:
                        raise Failure
            except Failure:
                ctx.check(fail, "exceptions pass through")
            ctx.check(sys.stdout is out, "standard output of this time restored")
            ctx.check(mkl.n == n, "number of threads of this time restored")
    scratch(run)


def number(ctx, kind):
    """only positive integers are numbers of threads"""
    n = {"int": lambda: ctx.int("n", -99, 99), "real": lambda: ctx.real("n", 1, 9), "text": lambda: "2", "list": lambda: [2]}[kind]()
    mkl = Mkl(ctx.int("m", 1, 64))
    ctx.standin("mkl", mkl, "HamiltonianPy.tools.runtimeenv")
    from HamiltonianPy.tools.runtimeenv import RunTimeEnv

    def run(d):
        o = ctx.outcome(RunTimeEnv, path=d, threads_num=n)
        if o.ok:
            ctx.check(kind == "int" and n > 0, "other numbers are refused")
        else:
            ctx.check(o.raised(ValueError), "ValueError")
            ctx.check(kind != "int" or n <= 0, "positive numbers are accepted")
    scratch(run)


CASES = []
for t in ("default", "given"):
    for end in ("normal", "failure", "exit", "interrupt"):
        CASES.append(dict(name="environment-%s-%s" % (t, end), fn="environment", args=dict(threads=t, end=end), bounds="1..64 threads before and within"))
    for u in ("default", "given"):
        CASES.append(dict(name="nested-%s-%s" % (t, u), fn="nested", args=dict(outer=t, inner=u), bounds="1..64 threads before, in the outer and in the inner one"))
    CASES.append(dict(name="again-%s" % t, fn="again", args=dict(threads=t), bounds="one environment used three times, 1..64 threads each time"))
for k in ("int", "real", "text", "list"):
    CASES.append(dict(name="number-" + k, fn="number", args=dict(kind=k), bounds="-99..99 threads"))

"""silence(): random nested uses over real descriptors against a model."""
import os


class Stop(Exception):
    pass


class Check:
    id = "C13"
    quick_n = 12000
    thorough_n = 250000
    batch = 250
    rule = ("random programs of writes and nested silence() blocks over "
            "several descriptors of files and pipes (some aliases of one "
            "file, high numbers, standard output, where child processes "
            "write too, and standard error), blocks left normally or by "
            "an exception, invalid descriptors, reused decorators; "
            "non-trivial: something written while silenced and something "
            "after; distinct by program")
    assumptions = ["one thread; the body leaves its descriptors open"]

    def gen(self, rng, i, tier):
        n = rng.randint(1, 4)
        kinds = [rng.choice(["file", "file", "append", "pipe", "dup", "out",
                             "high", "err"]) for _ in range(n)]
        if kinds[0] == "dup":
            kinds[0] = "file"
        for x in ("out", "err"):
            kinds = ["file" if k == x and x in kinds[:j] else k
                     for j, k in enumerate(kinds)]
        cnt = [0]

        def block(depth):
            out = []
            for _ in range(rng.randint(1, 4)):
                c = rng.random()
                if c < 0.5 or depth >= 4:
                    cnt[0] += 1
                    k = rng.randrange(n)
                    w = "c" if kinds[k] == "out" and rng.random() < 0.15 \
                        else "w"
                    out.append([w, k, "<%d>" % cnt[0]])
                    if rng.random() < 0.02:
                        out.append(["big", k])
                elif c < 0.85:
                    out.append(["s", rng.randrange(n), block(depth + 1),
                                rng.choice(["with", "with", "default",
                                            "deco"])])
                elif c < 0.92:
                    out.append(["bad", rng.choice(["closed", "neg", "str",
                                                   "none", "big"]),
                                block(depth + 1)])
                elif depth:
                    out.append(["r", rng.choice(["Stop", "Kbd", "Exit",
                                                 "OS", "Iter", "Gen"])])
                    break
                if rng.random() < 0.3:
                    out.append(["try", block(depth + 1)])
            return out
        return dict(kinds=kinds, prog=block(0))

    def run(self, case, ctx):
        import fcntl
        from macposts.utils import silence
        EXC = {"Stop": Stop, "Kbd": KeyboardInterrupt, "Exit": SystemExit,
               "OS": OSError, "Iter": StopIteration, "Gen": GeneratorExit}
        ALL = tuple(EXC.values())
        d = ctx.newdir()
        fds, targets, drains, close = [], [], [], []
        got, want = {}, {}
        v = []
        keep = [(x, os.dup(x)) for x in (1, 2)]
        outs = [k for k in range(len(case["kinds"]))
                if case["kinds"][k] == "out"]
        try:
            for k, kind in enumerate(case["kinds"]):
                if kind == "pipe":
                    r, w = os.pipe()
                    close += [r, w]
                    os.set_blocking(r, False)
                    fds.append(w)
                    targets.append(k)
                    drains.append(("pipe", r))
                    continue
                if kind == "dup":
                    fds.append(os.dup(fds[0]))
                    close.append(fds[-1])
                    targets.append(targets[0])
                    drains.append(None)
                    continue
                p = os.path.join(d, "f%d" % k)
                fl = os.O_WRONLY | os.O_CREAT | (
                    os.O_APPEND if kind == "append" else 0)
                f = os.open(p, fl)
                if kind in ("out", "err", "high"):
                    g = dict(out=1, err=2, high=300 + 97 * k)[kind]
                    os.dup2(f, g, inheritable=False)
                    os.close(f)
                    f = g
                    if kind == "high":
                        close.append(f)
                    else:
                        os.set_inheritable(f, True)
                else:
                    close.append(f)
                fds.append(f)
                targets.append(k)
                drains.append(("file", p))
            depth = [0] * len(fds)
            seen = [False, False]

            def state():
                x = {}
                for n in os.listdir("/proc/self/fd"):
                    try:
                        x[int(n)] = os.readlink("/proc/self/fd/" + n)
                    except OSError:
                        pass
                return {k: y for k, y in x.items()
                        if not y.startswith("/proc/")}
            before = state()

            def bits():
                return [(fcntl.fcntl(f, fcntl.F_GETFL),
                         fcntl.fcntl(f, fcntl.F_GETFD)) for f in fds]
            flags = bits()

            def step(o):
                if o[0] in "wc":
                    k = o[1]
                    if o[0] == "w":
                        os.write(fds[k], o[2].encode())
                    elif os.system("printf '%%s' '%s' 2>/dev/null" % o[2]):
                        v.append("a child process cannot write to standard "
                                 "output")
                    if depth[k] == 0:
                        want.setdefault(targets[k], []).append(o[2])
                        seen[1] = seen[1] or seen[0]
                    else:
                        seen[0] = True
                elif o[0] == "big":
                    # more than a pipe holds
                    if depth[o[1]]:
                        b = b"x" * 90000
                        if os.write(fds[o[1]], b) != len(b):
                            v.append("a silenced write was cut short")
                elif o[0] == "s":
                    k = o[1]
                    arg = () if o[3] == "default" and fds[k] == 1 \
                        else (fds[k],)
                    if o[3] == "deco":
                        @silence(*arg)
                        def f(again):
                            depth[k] += 1
                            try:
                                run(o[2])
                            finally:
                                depth[k] -= 1
                            if again:
                                f(False)
                            return again
                        if f(len(o[2]) == 2) != (len(o[2]) == 2):
                            v.append("a decorated function lost its value")
                    else:
                        with silence(*arg):
                            depth[k] += 1
                            try:
                                run(o[2])
                            finally:
                                depth[k] -= 1
                elif o[0] == "bad":
                    if o[1] == "closed":
                        a = os.dup(fds[0])
                        os.close(a)
                        # keep the number free while the body runs
                        a = 900
                    else:
                        a = dict(neg=-1, str="x", none=None, big=10 ** 7)[o[1]]
                    with silence(a):
                        run(o[2])
                elif o[0] == "try":
                    try:
                        run(o[1])
                    except ALL as e:
                        if e is not cur[0]:
                            v.append("%r came out instead of %r"
                                     % (e, cur[0]))
                        cur[0] = None
                elif o[0] == "r":
                    cur[0] = EXC[o[1]]("body")
                    raise cur[0]

            def run(prog):
                for o in prog:
                    step(o)
                    if cur[0] is not None:
                        v.append("%r was lost" % cur[0])
                        cur[0] = None
            cur = [None]
            try:
                run(case["prog"])
            except ALL as e:
                if e is not cur[0]:
                    v.append("%r came out instead of %r" % (e, cur[0]))
            after = state()
            if after != before:
                v.append("open descriptors %s before, %s after" % (
                    sorted(set(before.items()) - set(after.items())),
                    sorted(set(after.items()) - set(before.items()))))
            if after == before and bits() != flags:
                v.append("descriptor flags changed: %s before, %s after"
                         % (flags, bits()))
            if after == before:
                for k, x in enumerate(drains):
                    if x is None:
                        continue
                    if x[0] == "pipe":
                        try:
                            b = os.read(x[1], 1 << 16)
                        except BlockingIOError:
                            b = b""
                    else:
                        with open(x[1], "rb") as f:
                            b = f.read()
                    w = "".join(want.get(k, [])).encode()
                    if b != w:
                        v.append("%s got %r, expected %r"
                                 % (case["kinds"][k], b, w))
        finally:
            for x, y in keep:
                os.dup2(y, x)
                os.close(y)
            for f in close:
                try:
                    os.close(f)
                except OSError:
                    pass
        return dict(viol=v[:4], nt=all(seen), key=str(case["prog"]),
                    labels=sorted(set(case["kinds"])),
                    count=dict(writes=str(case["prog"]).count("'w'")),
                    sample="%s %s" % (case["kinds"], str(case["prog"])[:160]))

    def shrink(self, case):
        def sub(prog):
            for k, o in enumerate(prog):
                yield prog[:k] + prog[k + 1:]
                for j, x in enumerate(o):
                    if isinstance(x, list):
                        yield prog[:k] + x + prog[k + 1:]
                        for y in sub(x):
                            yield prog[:k] + [o[:j] + [y] + o[j + 1:]] \
                                + prog[k + 1:]
        for p in sub(case["prog"]):
            yield dict(case, prog=p)


CHECK = Check()

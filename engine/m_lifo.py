from modules import module, split


def program(init, pre, threads, how):
    out = ["init " + " ".join(str(x) for x in init)]
    out += ["pre " + " ".join(str(x) for x in o) for o in pre]
    for k, ops in enumerate(threads, 1):
        out += ["t %d %s" % (k, " ".join(str(x) for x in o)) for o in ops]
    out.append(how)
    return out


def mc_convert(s):
    n, own, prog = s[0]
    return program([n] + own, [["push"]] * n, prog, "explore 2 20000")


def rnd_ops(rng, n):
    return [rng.choice([["pop"], ["pop"], ["push", rng.randrange(3)],
                        ["push", 0], ["empty"]]) for _ in range(n)]


def gen(rng, tier, var):
    quick = tier == "quick"
    out = []
    # Many threads, long programs, random schedules.
    for _ in range(60 if quick else 3000):
        nt = rng.choice([2, 3, 3, 4])
        n = rng.randrange(5)
        own = [rng.randrange(3) for _ in range(nt)]
        progs = [rnd_ops(rng, rng.randrange(2, 9)) for _ in range(nt)]
        out.append(program([n] + own, [["push"]] * n, progs, "random %d %d %d"
                           % (40 if quick else 200, rng.randrange(1 << 30),
                              rng.choice([2, 4, 8]))))
    # More preemptions.
    for _ in range(30 if quick else 800):
        nt = rng.choice([2, 2, 3])
        n = rng.randrange(4)
        own = [rng.randrange(2) for _ in range(nt)]
        progs = [rnd_ops(rng, rng.randrange(1, 4)) for _ in range(nt)]
        out.append(program([n] + own, [["push"]] * n, progs, "explore %d %d" %
                           (4, 20000 if quick else 200000)))
    # The ABA counter wraps.
    for _ in range(12 if quick else 100):
        n = rng.randrange(3)
        pre = [["push"]] * n + [["spin", 65536 - rng.randrange(6)]]
        progs = [rnd_ops(rng, rng.randrange(1, 5)) for _ in range(2)]
        out.append(program([n + 1, 1, 1], pre, progs, "explore 1 60"))
    # It goes on while another thread is in the middle of an operation: then
    # the same element is the newest again, the one below it is another's.
    for k in range(32 if quick else 400):
        n = 2 + rng.randrange(2)
        pushes = rng.choice([1 << k % 16, 65535, rng.randrange(1, 65536)]
                            ) if k >= 16 else (1 << k)
        more = rng.choice([[], [["empty"]], [["push", 0], ["pop"]]])
        extra = 1 if len(more) == 2 and pushes > 1 else 0
        busy = [["pop"], ["pop"], ["spin", pushes - 1 - extra]] + more[:1 + extra]
        busy.append(["push", 1])
        progs = [[["pop"]], busy]
        if rng.random() < 0.3:
            progs[0].append(["pop"])
        if rng.random() < 0.3:
            progs.reverse()
        out.append(program([n] + [0] * 2, [["push"]] * n, progs,
                           "explore 1 100"))
    return split(out, 4 if quick else 40)


module(
    ["L01"], name="lifo", driver="lf_mt.c", trace="TraceLifo",
    marker='"op":"script"',
    variants=[dict(name="plain", extra_src=["lf_ops.c"],
                   extra_cflags=["-fsanitize=thread"])],
    sources=[],
    mc=[dict(spec="MCLifo", cfg="MCLifo.cfg", thorough_cfg="MCLifoBig.cfg",
             convert=mc_convert, workers=4,
             limit={"quick": 1200, "thorough": 6000}, chunk=200),
        dict(spec="MCLifo", cfg="MCLifoT.cfg", thorough_cfg="MCLifo3.cfg",
             convert=mc_convert, workers=4, mem="8g",
             limit={"quick": 400, "thorough": 3000}, chunk=200),
        dict(spec="MCLifoAlone", cfg="MCLifoAlone.cfg",
             thorough_cfg="MCLifoAloneBig.cfg", workers=4, mem="8g",
             props=("P01",))],
    also=["P01"],
    gen=gen,
    assumptions=["sequentially consistent memory (the scheduler interleaves "
                 "single accesses)",
                 "fewer than 65536 pushes during one pop"],
)

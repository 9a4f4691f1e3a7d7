from modules import module, split


def mc_convert(ops):
    out = ["init"]
    for o in ops:
        if o[0] == "reset":
            out.append("reset %d" % o[1])
        elif o[3] == 1:
            out.append("%s %d %d" % (o[0], o[1], o[2] * 2048))
        else:
            out.append("a%s %d %d 11" % (o[0], o[1], o[2] * 2048 - 2047
                                         if o[2] > 0 else 0))
    return out


def one(rng, nops):
    out = ["init"]
    scale = rng.choice([100, 1000, 6000, 13000])
    for _ in range(nops):
        t = rng.choice([1, 1, 2])
        x = rng.random()
        n = rng.choice([0, 1, 7, 8, rng.randrange(scale), rng.randrange(scale),
                        rng.randrange(scale), 12288, 12289, 12287, 4096,
                        rng.randrange(12200, 12300)] if rng.random() < 0.4
                       else [rng.randrange(scale)])
        al = rng.choice([0, 0, 1, 2, 3, 3, 4, 6, 8, 12, 13])
        if x < 0.3:
            out.append("alloc %d %d" % (t, n))
        elif x < 0.6:
            out.append("aalloc %d %d %d" % (t, n, al))
        elif x < 0.7:
            out.append("reserve %d %d" % (t, n))
            if rng.random() < 0.6:
                for _ in range(rng.randrange(4)):
                    out.append("alloc %d %d" % (t, rng.randrange(n + 1) // 3))
        elif x < 0.8:
            out.append("areserve %d %d %d" % (t, n, al))
        elif x < 0.92:
            out.append("fit %d %d" % (t, rng.choice([-1, 0, 1, -2, -100])))
        elif x < 0.96:
            out.append("huge %d %d %d %d" % (
                t, rng.choice([rng.randrange(100), rng.randrange(100000),
                               -rng.randrange(1, 500000)]), al,
                rng.randrange(4)))
        else:
            out.append("reset %d" % t)
    return out


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 6000
    return split([one(rng, rng.randrange(5, 120)) for _ in range(n)],
                 4 if tier == "quick" else 40)


module(
    ["V01"], name="static", driver="static.c", trace="TraceStatic",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    sources=["util", "static"],
    mc=[dict(spec="MCStatic", cfg="MCStatic.cfg",
             thorough_cfg="MCStaticBig.cfg", convert=mc_convert,
             limit={"quick": 1500, "thorough": 15000}, chunk=500)],
    gen=gen,
)

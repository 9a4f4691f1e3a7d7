from modules import module, split

U = 15000     # a 64 KB slab holds four


def mc_convert(ops):
    out = ["init 65536 16"]
    for o in ops:
        if o[0] == "alloc":
            out.append("alloc %d %d" % (o[1] * U, o[2]))
        elif o[0] == "reserve":
            out.append("reserve %d" % (o[1] * U))
        else:
            out.append(" ".join(str(x) for x in o))
    return out + ["check"]


def one(rng, nops):
    slab = rng.choice([65536, 65536, 131072])
    out = ["init %d %d" % (slab, rng.choice([1, 2, 4, 8, 32]))]
    big = rng.choice([0.05, 0.2, 0.5])
    steps = rng.choice([[0, 0, 1], [0, 1], [1], [0, 0, 0, 0, 1, 100]])
    for _ in range(nops):
        x = rng.random()
        r = rng.random()
        if r < big:
            size = rng.choice([slab // 2, slab // 3, slab, slab + 1000,
                               2 * slab, slab - 48, slab - 49, slab - 47,
                               slab - 40, slab - 56, slab - 100,
                               rng.randrange(1, 2 * slab)])
        else:
            size = rng.choice([rng.randrange(1, 64), rng.randrange(1, 3000),
                               rng.randrange(1, slab // 4)])
        al = rng.choice([0, 0, 0, 0, 1, 2, 3, 3, 4, 6, 9, 12])
        step = rng.choice(steps)
        if rng.random() < 0.03:
            # An object of a type.
            size, al = rng.choice([(24, 3), (128, 6)])
        if x < 0.45:
            out.append("alloc %d %d %d" % (size, step, al))
        elif x < 0.58:
            out.append("reserve %d %d" % (size, al))
            if rng.random() < 0.8:
                out.append("alloc %d %d %d" %
                           (rng.choice([size, rng.randrange(1, size + 1)]),
                            step, al))
        elif x < 0.76:
            out.append("gc %d" % rng.choice([0, 0, 1, 1, 2, 3, 5, 10, 100]))
        elif x < 0.94:
            out.append("flush %d %d" % (rng.choice([1, 1, 1, 2]),
                                        rng.choice([1, 1, 2, 3, 100])))
        elif x < 0.97:
            out.append("check")
        else:
            out.append("huge %d %d %d" % (rng.choice(
                [rng.randrange(100), rng.randrange(200000),
                 -rng.randrange(1, 500000)]),
                rng.choice([0, 0, 3, 12]), rng.randrange(2)))
    return out


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 4000
    return split([one(rng, rng.randrange(5, 90)) for _ in range(n)],
                 4 if tier == "quick" else 32)


module(
    ["W01", "W02"], name="lsregion", driver="lsregion.c",
    trace="TraceLsregion",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    asan_variants=[dict(name="asan", asan=True)],
    sources=["util", "slab_arena", "lsregion"],
    mc=[dict(spec="MCLsregion", cfg="MCLsregion.cfg",
             thorough_cfg="MCLsregionBig.cfg", convert=mc_convert,
             variants=["plain", "asan"],
             limit={"quick": 1500, "thorough": 12000}, chunk=400)],
    gen=gen,
)

from modules import module, split

U = 1300     # a 4 KB block holds three units, an 8 KB block six


def mc_convert(ops):
    out = ["init 65536 16 %d 4000" % (2 * U)]
    for o in ops:
        out.append("%s 0 %d" % (o[0], o[1] * U) if len(o) > 1
                   else "%s 0" % o[0])
    return out


def one(rng, nops, sizes):
    slab = rng.choice([65536, 65536, 131072])
    start = rng.choice([1, 16, 100, 1000, 4000, 4096, 16384, 16384, 70000])
    out = ["init %d %d %d %d" % (slab, rng.choice([1, 2, 4, 8, 16]), start,
                                 rng.choice([1, 4000, 16384]))]
    for _ in range(nops):
        b = rng.choice([0, 0, 0, 1])
        x = rng.random()
        r = rng.random()
        if r < 0.3:
            size = rng.randrange(1, 60)
        elif r < 0.7:
            size = rng.randrange(1, sizes)
        elif r < 0.9:
            k = rng.randrange(0, 6)
            size = max(1, (4096 << k) - rng.choice([0, 1, 16, 47, 48, 49, 50,
                                                    64, 1000]))
            if size > 4 * sizes:
                size = rng.randrange(1, sizes)
        else:
            size = rng.randrange(1, 2 * sizes)
        how = rng.choice([0, 0, 1])
        part = rng.choice([-1, -1, size, rng.randrange(1, 100),
                           rng.randrange(1, 10 ** 6)])
        if x < 0.30:
            out.append("alloc %d %d %d" % (b, size, how))
        elif x < 0.44:
            out.append("reserve %d %d %d" % (b, size, how))
            if rng.random() < 0.8:
                out.append("write %d %d" % (b, rng.choice(
                    [size, size, rng.randrange(1, size + 1)])))
        elif x < 0.46:
            out.append("reserve0 %d" % b)
        elif x < 0.50:
            out.append("write %d %d" % (b, rng.choice([-1, size])))
        elif x < 0.68:
            out.append("%s %d %d" % (rng.choice(["consume", "before"]), b,
                                     part))
        elif x < 0.82:
            out.append("%s %d %d" % (rng.choice(["discard", "truncate"]), b,
                                     part))
        elif x < 0.92:
            out.append("shrink %d" % b)
        elif x < 0.95:
            out.append("reset %d" % b)
        elif x < 0.97:
            out.append("reinit %d" % b)
        else:
            out.append("huge %d %d %d" % (b, rng.choice(
                [rng.randrange(100), rng.randrange(200000),
                 -rng.randrange(1, 500000)]),
                rng.randrange(2)))
    return out


def gen(rng, tier, var):
    n = 240 if tier == "quick" else 4000
    return split([one(rng, rng.randrange(5, 60), rng.choice(
        [200, 2000, 9000, 9000, 40000])) for _ in range(n)],
        4 if tier == "quick" else 32)


module(
    ["I01"], name="ibuf", driver="ibuf.c", trace="TraceIbuf",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    asan_variants=[dict(name="asan", asan=True)],
    sources=["util", "slab_arena", "slab_cache", "ibuf"],
    mc=[dict(spec="MCIbuf", cfg="MCIbuf.cfg", thorough_cfg="MCIbufBig.cfg",
             convert=mc_convert, variants=["plain", "asan"],
             limit={"quick": 1500, "thorough": 12000}, chunk=400)],
    gen=gen,
)

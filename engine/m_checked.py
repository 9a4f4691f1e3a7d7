from modules import module, split


def mc_convert(ops):
    return ["init"] + [" ".join(str(x) for x in o) for o in ops] + ["check"]


def one(rng, nops):
    out = ["init"]
    for p in range(3):
        k = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 13, 16])
        size = rng.choice([1 << k, 3 << k, 5 << k, rng.randrange(1, 300),
                           rng.randrange(1, 9), 7, 24, 100])
        out.append("create %d %d" % (p, size))
    for _ in range(nops):
        x = rng.random()
        if rng.random() < 0.08:
            out.append("map %d" % rng.randrange(2))
        if x < 0.35:
            out.append("alloc %d" % rng.randrange(3))
        elif x < 0.5:
            out.append("get %d %d" % (rng.randrange(2), rng.choice(
                [0, 1, 4096 - 8, 4096 - 7, 4096, 8192 - 8, 70000,
                 rng.randrange(20000), rng.randrange(1 << 20)])))
        elif x < 0.8:
            out.append("free %d %d" % (rng.randrange(7), rng.randrange(64)))
        elif x < 0.9:
            out.append("misuse %d %d %d" % (rng.randrange(7), rng.randrange(64),
                                            rng.randrange(6)))
        elif x < 0.96:
            out.append("check")
        else:
            p = rng.randrange(3)
            out.append("destroy %d" % p)
            out.append("create %d %d" % (p, rng.randrange(1, 5000)))
    out.append("check")
    return out


def gen(rng, tier, var):
    n = 120 if tier == "quick" else 2400
    return split([one(rng, rng.randrange(5, 60)) for _ in range(n)],
                 2 if tier == "quick" else 16)


# The checked slab cache and mempool; N01 and N02 only.
module(
    [], name="checked", driver="checked.c", trace="TraceChecked",
    variants=[], asan_variants=[dict(name="asan", asan=True)],
    mc=[dict(spec="MCChecked", cfg="MCChecked.cfg",
             thorough_cfg="MCCheckedBig.cfg", convert=mc_convert,
             limit={"quick": 500, "thorough": 8000}, chunk=250)],
    gen=gen,
)

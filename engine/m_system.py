from modules import module, split

NC = 14
SIZES = {1: 600, 2: 40000, 3: 100000}


def mc_convert(ops):
    """Two slabs of 64 KB."""
    out = ["init 0 %d 4096 4000 100 0" % (len(ops) % 2 + 1)]
    for o in ops:
        o = [o[0], o[1] - 1] + o[2:]
        if o[0] in ("get", "reserve"):
            o[2] = SIZES[o[2]]
        out.append(" ".join(str(x) for x in o))
    return out


def one(rng, nops):
    lg = rng.choice([0, 0, 1, 2, 4])
    slab = 65536 << lg
    out = ["init %d %d %d %d %d %d" % (
        lg, rng.choice([3, 7, 15, 31, 60]) - 0,
        rng.choice([1, 100, 4096, 16384, 16384, slab // 4]),
        rng.randrange(5000), rng.randrange(300), rng.choice([0, 0, 3, 200]))]
    boxes = rng.sample(range(NC), rng.choice([3, 5, 8, 14]))
    if rng.random() < 0.7 and 12 not in boxes:
        boxes.append(12)
    every = rng.choice([0, 0, 0.01, 0.03])
    scale = rng.choice([3000, 20000, slab // 2, slab])
    for _ in range(nops):
        b = rng.choice(boxes)
        x = rng.random()
        if rng.random() < every:
            out.append("renew %d" % rng.randrange(2))
        if x < 0.5:
            n = rng.choice([rng.randrange(100), rng.randrange(scale),
                            rng.randrange(scale), rng.randrange(scale),
                            slab - rng.randrange(100),
                            slab + rng.randrange(3 * slab)])
            for _ in range(rng.choice([1, 1, 1, 4])):
                out.append("%s %d %d" % (
                    "reserve" if rng.random() < 0.12 else "get", b, n))
        elif x < 0.62:
            out.append("free %d %d" % (b, rng.randrange(24)))
        elif x < 0.76:
            out.append("keep %d %d" % (b, rng.randrange(25)))
        elif x < 0.88:
            out.append("drop %d %d" % (b, rng.randrange(25)))
        elif x < 0.92:
            out.append("shrink %d" % b)
        elif x < 0.95:
            out.append("clear %d" % b)
        else:
            out.append("again %d" % b)
    return out


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 6000
    return split([one(rng, rng.randrange(10, 120)) for _ in range(n)],
                 4 if tier == "quick" else 40)


module(
    ["Y01"], name="system", driver="system.c", trace="TraceSystem",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    mc=[dict(spec="MCSystem", cfg="MCSystem.cfg",
             thorough_cfg="MCSystemBig.cfg", convert=mc_convert,
             limit={"quick": 2000, "thorough": 30000}, chunk=500)],
    gen=gen,
)

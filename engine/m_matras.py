from modules import module, split


def mc_convert(ops):
    """Extents of 16 bytes with two blocks; memory is reused at once."""
    out = ["init 4 3 1 1"]
    for i, o in enumerate(ops):
        if o[0] in ("range", "drange"):
            o = [o[0], {1: 0, 2: 1}[o[1]]]
        out.append(" ".join(str(x) for x in o))
    return out + ["check"]


def one(rng, nops):
    les, lbs = rng.choice([(4, 3), (4, 2), (4, 4), (5, 3), (5, 4), (5, 2),
                           (6, 4), (6, 6), (6, 3), (7, 5), (7, 4), (9, 7),
                           (14, 12), (20, 4), (20, 0), (20, 18)])
    out = ["init %d %d %d %d" % (les, lbs, rng.random() < 0.8,
                                 rng.random() < 0.7)]
    lc = 1 << (les - lbs)
    lgmax = min(les - lbs, 6)
    oom = rng.random() < 0.5
    bias = rng.choice([0.2, 0.35, 0.5])
    pviews = rng.choice([0.05, 0.15, 0.3])
    pside = rng.choice([0, 0, 0.05, 0.2])
    prange = rng.choice([0, 0.3, 0.8])
    for _ in range(nops):
        x = rng.random()
        if x < pviews:
            out.append("%s %d" % (rng.choice(["view", "unview", "unview"]),
                                  rng.randrange(1, 5)))
            if rng.random() < 0.3:
                out.append("check")
        elif x < pviews + 0.06:
            out.append("check")
        elif x < pviews + 0.1 and oom:
            out.append("limit %d" % rng.choice([0, 1, 1, 2, 2, 3, 4, -1, -1]))
        elif x < pviews + 0.15:
            n = rng.choice([0, 1, 1, 2, 3, 5])
            if rng.random() < 0.1:
                out.append("limit %d" % rng.choice([0, 1, 2, 4]))
                out.append("reserve %d" % -rng.randrange(1, 40))
                oom = True
            else:
                out.append("reserve %d" % n)
            if rng.random() < 0.5:
                if rng.random() < 0.5:
                    out.append("limit 0")
                for _ in range(n):
                    out.append(rng.choice(["write", "touch"]) + " %d" %
                               rng.choice([rng.randrange(300),
                                           -1 - rng.randrange(2 * lc)]))
        elif x < pviews + 0.16:
            out.append("reset")
        elif x < pviews + 0.16 + pside:
            out.append(rng.choice(["peer", "peer", "pdrop", "eget", "eput",
                                   "ereserve %d" % rng.choice([0, 1, 2, 3, 5,
                                                               9])]))
        else:
            x = rng.random()
            big = rng.random() < prange
            if x < bias:
                out.append("range %d" % rng.randrange(lgmax + 1) if big
                           else "alloc")
            elif x < bias + 0.3:
                if rng.random() < 0.2:
                    # around a border
                    for _ in range(rng.randrange(1, 2 * lc + 2)
                                   if lc < 16 else 3):
                        out.append("dealloc")
                else:
                    out.append("drange %d" % rng.randrange(lgmax + 1) if big
                               else "dealloc")
            else:
                out.append(rng.choice(["write", "write", "touch"]) + " %d" %
                           rng.choice([rng.randrange(300), 0, -1,
                                       rng.randrange(4 * lc)]))
    return out + ["check"]


def promised(rng):
    """A reserve, no memory left, and touches all over the blocks."""
    les, lbs = rng.choice([(4, 3), (4, 3), (4, 2), (5, 3), (5, 4), (5, 2),
                           (6, 4), (6, 3), (7, 5), (8, 4), (9, 5)])
    lc = 1 << (les - lbs)
    out = ["init %d %d 1 1" % (les, lbs)]
    for _ in range(rng.randrange(1, 4)):
        leaves = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
        count = lc * leaves + rng.choice([0, 1, 1, lc - 1, lc // 2])
        count = min(count, (1 << (les - 3)) ** 2 * lc)
        out += ["range 20"] * (count // lc) + ["alloc"] * (count % lc)
        firsts = list(range(0, count, lc))
        for k in range(1, rng.randrange(2, 4)):
            out.append("view %d" % k)
            if rng.random() < 0.3:
                # Some are the version's own already.
                out += ["touch %d" % rng.randrange(count)
                        for _ in range(rng.randrange(1, 3))]
            if rng.random() < 0.2:
                out += ["alloc"] * rng.randrange(1, 3)
            ids = [f + rng.randrange(min(lc, count - f)) for f in firsts]
            n = len(ids) + rng.choice([0, 0, 0, 1, 5, 40, -1])
            if rng.random() < 0.3:
                rng.shuffle(ids)
            out += ["reserve %d" % max(n, 1), "limit 0"]
            out += ["write %d" % i for i in ids]
            out += ["limit -1", "check"]
        out += ["unview %d" % k for k in (1, 2, 3)]
        out += rng.choice([["reset"],
                           ["drange 20"] * (count // lc + 2)
                           + ["dealloc"] * lc])
    return out + ["check"]


FULL = ["full %d %d %d" % (les, lbs, v) for les, lbs in
        [(14, 0), (20, 0), (20, 4), (16, 0), (9, 5), (12, 8), (17, 3),
 (10, 0), (4, 0), (18, 1)]
        for v in (0, 1)]


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 5000
    out = split([one(rng, rng.randrange(5, 100)) for _ in range(n)],
                4 if tier == "quick" else 40)
    out += split([promised(rng) for _ in range(n)], 4)
    return out + [[[f] for f in FULL]]


module(
    ["X01", "X02", "X03"], name="matras", driver="matras.c",
    trace="TraceMatras",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    sources=["util", "matras"],
    mc=[dict(spec="MCMatras", cfg="MCMatras.cfg",
             thorough_cfg="MCMatrasBig.cfg", convert=mc_convert,
             variants=["plain"],
             limit={"quick": 1500, "thorough": 15000}, chunk=400),
        dict(spec="MCMatras", cfg="MCMatrasOom.cfg",
             thorough_cfg="MCMatrasOomBig.cfg", convert=mc_convert,
             variants=["plain"],
             limit={"quick": 1500, "thorough": 15000}, chunk=400)],
    gen=gen,
)

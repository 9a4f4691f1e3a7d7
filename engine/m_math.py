from modules import module, split


def classes(rng, tier):
    out = []
    full = [(g, m, f) for g in range(0, 8) for m in (1, 2, 5)
            for f in (2000000, 1500000, 1414214, 1300000, 1200000, 1100000,
                      1050000, 1020000)]
    k = 60 if tier == "quick" else len(full)
    for g, m, f in rng.sample(full, k):
        gran = 1 << g
        s = ["init", "class %d %d %d" % (g, gran * m, f), "borders",
             "bmap %d" % rng.randrange(1 << 30),
             "range 1 %d" % (min(4000, 40 * gran) if tier == "quick"
                             else 20000)]
        out.append(s)
    for _ in range(40 if tier == "quick" else 800):
        g = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 9, 12, 15])
        gran = 1 << g
        f = rng.randrange(1001001, 2000001)
        mn = gran * rng.randrange(1, 200) if rng.random() < 0.8 else \
            gran + rng.randrange(1, 1000)
        s = ["init", "class %d %d %d" % (g, mn, f), "borders",
             "bmap %d" % rng.randrange(1 << 30)]
        for _ in range(4):
            s.append("range %d %d" % (int(2 ** rng.uniform(0, 29)), 60))
        out.append(s)
    return out


def bits(rng, tier):
    out = []
    xs = set()
    for k in range(64):
        for d in (-2, -1, 0, 1, 2):
            xs.add(((1 << k) + d) & ((1 << 64) - 1))
    for _ in range(100 if tier == "quick" else 3000):
        xs.add(rng.getrandbits(rng.randrange(1, 65)))
    s = ["init"]
    for x in sorted(xs):
        hi, lo = x >> 32, x & 0xffffffff
        s.append("round %d %d" % (hi, lo))
        s.append("lb %d %d" % (hi, lo))
        for k in {rng.randrange(63), rng.randrange(20),
                  max(0, x.bit_length() - 1), max(0, x.bit_length() - 2), 0,
                  min(62, x.bit_length())}:
            s.append("align %d %d %d" % (hi, lo, k))
            s.append("down %d %d %d" % (hi, lo, k))
        if len(s) > 300:
            out.append(s)
            s = ["init"]
    return out + [s]


def gen_s(rng, tier, var):
    return split(classes(rng, tier), 8 if tier == "quick" else 32)


def gen_u(rng, tier, var):
    return split(bits(rng, tier), 8 if tier == "quick" else 32)


module(
    ["S01"], name="small_class", driver="math.c", trace="TraceMath",
    variants=[dict(name="plain"),
              dict(name="branchless", cflags=["-DSMALL_CLASS_BRANCHLESS"])],
    sources=["util", "small_class"],
    mc=[dict(spec="MCSmallClass", cfg="MCSmallClass.cfg",
             thorough_cfg="MCSmallClassBig.cfg")],
    gen=gen_s,
)
module(
    ["U01"], name="util", driver="math.c", trace="TraceMath",
    variants=[dict(name="plain")],
    sources=["util", "small_class"],
    mc=[dict(spec="MCBits", cfg="MCBits.cfg")],
    gen=gen_u,
)

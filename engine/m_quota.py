from modules import module, split
from m_lifo import program

KB, MB = 1024, 1 << 20
QMAX = 1024 * ((1 << 32) - 1)


def size(n):
    """A size as script arguments a * 2^b + c."""
    return [0, 0, n]


def conv_quota(s):
    start, prog = s[0]
    # A unit of the model is two bytes.
    def amount(n, k):
        return size(max(0, n * 512 - (k * 7) % 512 if n % 2 else n * 512))
    k = 0
    threads = []
    for ops in prog:
        out = []
        for f, n in ops:
            k += 1
            out.append([f] + amount(n, k))
        threads.append(out)
    return program(amount(start, 0), [], threads, "explore 2 20000")


def conv_lessor(s):
    # A chunk is eight bytes in the model.
    out = []
    init = size(s[0][1] * (MB // 8)) + [1]
    for k, (f, t, n) in enumerate(s[1:]):
        n *= MB // 8
        if f in ("lease", "unlease") and n > 0:
            n -= k % 5 * 300
        out.append((t, [f] + size(n)))
    # One operation at a time: threads one after the other.
    lines = ["init " + " ".join(map(str, init))]
    for t, o in out:
        lines.append("pre " + " ".join(map(str, o)) + " 0 %d" % t)
    lines.append("explore 0 1")
    return lines


def rnd_size(rng, big):
    if big:
        return rng.choice([
            size(rng.randrange(1, 5000)), size(QMAX - rng.randrange(3000)),
            size(QMAX), [1, 41, rng.randrange(-2000, 2000)],
            [1, 31, rng.randrange(-2000, 2000)],
            [1, 32, rng.randrange(-2000, 2000)], [3, 40, 0],
            [1, rng.randrange(10, 42), rng.randrange(-1023, 1024)],
            [rng.randrange(1, 4), 40, rng.randrange(3)],
            [1, rng.choice([42, 43, 50, 62]), rng.randrange(-2000, 2000)]])
    return size(rng.choice([1, 1023, 1024, 1025, 2048, rng.randrange(1, 6000)]))


def rnd_lease(rng, room):
    return rng.choice([
        size(rng.randrange(0, 3000)), size(rng.randrange(0, room + 1)),
        size(MB), size(MB + rng.randrange(-1100, 1100)),
        size(2 * MB + rng.randrange(-1100, 1100)),
        size(rng.randrange(0, MB)), size(rng.randrange(0, 3 * MB))])


def quota_op(rng, big):
    f = rng.choice(["use", "use", "use", "release", "release", "set", "both",
                    "used", "total"])
    n = rnd_size(rng, big)
    if f == "set" and not big:
        n = size(rng.randrange(0, 9000))
    return [f] + n


def lessor_op(rng, room):
    f = rng.choice(["lease", "lease", "lease", "unlease", "unlease",
                    "ldestroy", "use", "release", "set", "both"])
    if f == "set":
        return [f] + size(rng.choice([room, room + MB, room // 2]))
    if f in ("use", "release"):
        return [f] + size(rng.choice([rng.randrange(1, room // 2),
                                      rng.randrange(1, 3000)]))
    if f == "ldestroy" and rng.random() < 0.7:
        f = "lease"
    if f == "lease" and rng.random() < 0.03:
        return [f] + rng.choice([[1, 62, 0], [1, 41, 0], size(QMAX - 5)])
    if f == "unlease" and rng.random() < 0.2:
        return [f, 0, 0, 0, 1]
    return [f] + rnd_lease(rng, room)


def gen(rng, tier, var):
    quick = tier == "quick"
    out = []
    for _ in range(60 if quick else 2000):
        big = rng.random() < 0.5
        init = rnd_size(rng, True) if big else size(rng.randrange(1, 9000))
        pre = [quota_op(rng, big) for _ in range(rng.randrange(3, 20))]
        out.append(program(init, pre, [], "explore 0 1"))
    for _ in range(40 if quick else 2000):
        nt = rng.choice([2, 3, 3, 4])
        big = rng.random() < 0.2
        init = rnd_size(rng, True) if big else size(rng.randrange(1, 9000))
        progs = [[quota_op(rng, big) for _ in range(rng.randrange(1, 6))]
                 for _ in range(nt)]
        out.append(program(init, [], progs, "random %d %d %d" % (
            20 if quick else 60, rng.randrange(1 << 30),
            rng.choice([2, 3, 5]))))
    for _ in range(60 if quick else 2000):
        room = rng.choice([MB, MB + MB // 8, 2 * MB + 5000, 5 * MB, 20 * MB])
        pre = []
        for _ in range(rng.randrange(5, 40)):
            o = lessor_op(rng, room)
            o += [0] * (5 - len(o)) + [rng.randrange(3)]
            pre.append(o)
        out.append(program(size(room) + [1], pre, [], "explore 0 1"))
    for _ in range(30 if quick else 1000):
        nt = rng.choice([2, 2, 3])
        room = rng.choice([MB, MB + MB // 8, 2 * MB + 5000, 5 * MB])
        progs = [[lessor_op(rng, room) for _ in range(rng.randrange(1, 6))]
                 for _ in range(nt)]
        out.append(program(size(room) + [1], [], progs, "random %d %d %d" % (
            20 if quick else 60, rng.randrange(1 << 30),
            rng.choice([2, 3, 5]))))
    # All there is, at once.
    for i in range(10 if quick else 50):
        n = QMAX - (rng.choice([0, 1, 1023, 1024, 2999]) if i > 1 else 0)
        out.append(program(size(QMAX) + [1], [
            [["use"], ["lease"]][i % 2] + size(n), ["both"],
            ["release"] + size(n), ["unlease"] + size(n), ["both"],
            ["ldestroy"]], [], "explore 0 1"))
    rng.shuffle(out)
    return split(out, 4 if quick else 40)


module(
    ["Q01", "Q02"], name="quota", driver="quota_mt.c", trace="TraceQuota",
    marker='"op":"script"',
    variants=[dict(name="plain", extra_src=["quota_ops.c"],
                   extra_cflags=["-fsanitize=thread"]),
              dict(name="ndebug", extra_src=["quota_ops.c"],
                   extra_cflags=["-fsanitize=thread", "-DNDEBUG"])],
    sources=[],
    mc=[dict(spec="MCQuota", cfg="MCQuota.cfg", thorough_cfg="MCQuotaBig.cfg",
             convert=conv_quota, workers=4, mem="8g", variants=["plain"],
             limit={"quick": 400, "thorough": 8000}, chunk=100),
        dict(spec="MCLessor", cfg="MCLessor.cfg",
             thorough_cfg="MCLessorBig.cfg", convert=conv_lessor,
             limit={"quick": 1200, "thorough": 10000}, chunk=300),
        dict(spec="MCQuotaAlone", cfg="MCQuotaAlone.cfg",
             thorough_cfg="MCQuotaAloneBig.cfg", workers=4, mem="8g",
             props=("P01",))],
    also=["P01"],
    gen=gen,
    assumptions=["sequentially consistent memory (the scheduler interleaves "
                 "single accesses)"],
)

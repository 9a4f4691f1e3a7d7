"""What is checked, with which driver, specification and scripts."""
import core

MODULES = {}
N_READY = True
PROPS = {}


def module(props, **kw):
    MODULES[kw["name"]] = kw
    for p in props:
        PROPS[p] = kw
    return kw


def parts_of(prop):
    """The modules and build variants that decide a property."""
    if prop in ("N01", "N02"):
        # All the modules that have a checked (ASAN) implementation.
        # N01: the contract as a whole; N02: detection of bad accesses.
        return [core.Part(m, m["asan_variants"],
                          "ALL" if prop == "N01" else prop)
                for m in MODULES.values() if m.get("asan_variants")]
    m = PROPS[prop]
    return [core.Part(m, m["variants"], prop)] + \
           [core.Part(x, x["variants"], prop) for x in MODULES.values()
            if prop in x.get("also", ())]


def claimed(prop):
    if prop in ("N01", "N02"):
        return bool(N_READY)
    return prop in PROPS


def split(scripts, n):
    """Split scripts into n chunks."""
    n = max(1, min(n, len(scripts)))
    return [scripts[i::n] for i in range(n)]


import m_slab_cache   # noqa: E402,F401
import m_mempool      # noqa: E402,F401
import m_region       # noqa: E402,F401
import m_small        # noqa: E402,F401
import m_math         # noqa: E402,F401
import m_ibuf         # noqa: E402,F401
import m_obuf         # noqa: E402,F401
import m_lsregion     # noqa: E402,F401
import m_matras       # noqa: E402,F401
import m_static       # noqa: E402,F401
import m_lists        # noqa: E402,F401
import m_lifo        # noqa: E402,F401
import m_quota       # noqa: E402,F401
import m_arena       # noqa: E402,F401
import m_rb       # noqa: E402,F401
import m_checked  # noqa: E402,F401
import m_giant  # noqa: E402,F401
import m_system  # noqa: E402,F401

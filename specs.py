"""The configurations (harness, bounds, engine options) that decide each property."""
COMMON_ASSUMPTIONS = [
    "IR produced by clang 18 at -O1 without LLVM optimisation passes has the semantics of the source; floating point is IEEE double without contraction",
    "operator new succeeds for sizes within the bounds; std::to_string and stream locale code are modelled (see models_and_cuts)",
    "the engine (engine/vpsym), its IR semantics and Z3 4.x are trusted; a natively replayed witness per configuration cross-checks the encoding",
]
import os, re
from sources import CORE
V = os.path.dirname(os.path.abspath(__file__))
SPECS = {}
def prop(id, configs, **kw):
    names = [c["name"] for c in configs]
    assert len(set(names)) == len(names), (id, names)
    SPECS[id] = dict(configs=configs, **kw)
def cfg(name, harness, params=None, **kw):
    return dict(name=name, harness=harness, params=params or {}, **kw)
def P(w, h, d=None, **kw):
    p = {"W": w, "H": h}
    if d is not None: p["D"] = d
    p.update(kw); return p

prop("C01", [
    cfg("3x3", "C01.cpp", P(3, 3), bounds="every image of at most 3x3 pixels, all 64-bit intensities and maxima"),
    cfg("5x1", "C01.cpp", P(5, 1)),
    cfg("1x5", "C01.cpp", P(1, 5)),
    cfg("300x220", "C01b.cpp", P(300, 220), bounds="66000 pixels: symbolic maximum and symbolic intensities at 18 positions, the other intensities zero"),
    cfg("6x6", "C01.cpp", P(6, 6), tier="thorough"),
], outside="images with more than 36 pixels other than the listed one (in particular more than 2^32 pixels)")

prop("C02", [
    cfg("2x2", "C02.cpp", P(2, 2)),
    cfg("3x1", "C02.cpp", P(3, 1)),
    cfg("3x2", "C02.cpp", P(3, 2), tier="thorough"),
], outside="images of more than six pixels")

def M2(w, h, d): return cfg(f"size-{w}x{h}x{d}", "C03.cpp", {"MODE": 2, "W": w, "H": h, "D": d})
prop("C03", [
    cfg("layout", "C03.cpp", {"MODE": 0, "BITS": 3}, bounds="image width, height and level count symbolic up to 2^BITS-1"),
    cfg("sizes", "C03.cpp", {"MODE": 1, "S": 6}, bounds="every width, height and level count up to S, all pairs of elements"),
    M2(640, 480, 64), M2(1921, 1, 200), M2(2, 5000, 2), M2(257, 129, 33), M2(100, 7, 99), M2(65536, 2, 32768), M2(8192, 4096, 256),
    cfg("values-3x2x3", "C03v.cpp", P(3, 2, 3)), cfg("values-2x3x2", "C03v.cpp", P(2, 3, 2)),
    cfg("sizes9", "C03.cpp", {"MODE": 1, "S": 9}, tier="thorough"),
    cfg("values-5x4x4", "C03v.cpp", P(5, 4, 4), tier="thorough"),
], outside="sizes that are neither below 2^3 in every dimension nor among the listed concrete ones; sizes whose products wrap around 2^64")
prop("C04", [cfg("all", "C04.cpp", bounds="all pairs of 64-bit coordinates below 2^64-1")],
    outside="the coordinate 2^64-1, which no image has")
prop("C05", [
    cfg("sizes", "C05.cpp", {"BITS": 8}, bounds="symbolic width, height, levels up to 2^BITS-1; edges with coordinates up to 2^64-1-2^BITS"),
    cfg("sizes16", "C05.cpp", {"BITS": 16}, tier="thorough"),
], outside="larger sizes; coordinates for which x+disparity wraps around 2^64")

prop("C06", [
    cfg("3x2x3", "C06.cpp", P(3, 2, 3, MAX=3, WMAX=3, RMAX=3)),
    cfg("2x3x2", "C06.cpp", P(2, 3, 2, MAX=15, WMAX=7, WS=2, RMAX=7, RS=2)),
    cfg("4x1x4", "C06.cpp", P(4, 1, 4, MAX=255, WMAX=1000, WS=4, RMAX=100000, RS=4)),
    cfg("5x3x4", "C06.cpp", P(5, 3, 4, MAX=65535, WMAX=1000, WS=4, RMAX=100000, RS=4), tier="thorough"),
])
prop("C07", [
    cfg("2x2x2", "C07.cpp", P(2, 2, 2, MAX=3, WMAX=3, RMAX=7, RS=1)),
    cfg("3x1x3", "C07.cpp", P(3, 1, 3, MAX=3, WMAX=3, RMAX=7, RS=1)),
    cfg("3x2x3", "C07.cpp", P(3, 2, 3, MAX=3, WMAX=3, RMAX=3), time=240),
    cfg("3x3x2", "C07.cpp", P(3, 3, 2, MAX=1, WMAX=1, RMAX=1)),
    cfg("lower-2x2x2", "C07.cpp", P(2, 2, 2, MAX=1, WMAX=1, RMAX=1, LOWER=1)),
    cfg("lower-3x1x2", "C07.cpp", P(3, 1, 2, MAX=1, WMAX=1, RMAX=1, LOWER=1)),
])
prop("C08", [
    cfg("2x2x2", "C08.cpp", P(2, 2, 2, MAX=3, WMAX=3, RMAX=3)),
    cfg("3x1x3", "C08.cpp", P(3, 1, 3, MAX=3, WMAX=3, RMAX=3)),
    cfg("2x4x2", "C08.cpp", P(2, 4, 2, MAX=3, WMAX=3, RMAX=3)),
    cfg("3x2x3", "C08.cpp", P(3, 2, 3, MAX=3, WMAX=3, RMAX=3)),
    cfg("4x2x4", "C08.cpp", P(4, 2, 4, MAX=3, WMAX=3, RMAX=3), tier="thorough"),
])
prop("C09", [
    cfg("2x2x2", "C09.cpp", P(2, 2, 2, MAX=3, WMAX=3, RMAX=3)),
    cfg("3x1x3", "C09.cpp", P(3, 1, 3, MAX=3, WMAX=3, RMAX=3)),
    cfg("3x2x3", "C09.cpp", P(3, 2, 3, MAX=3, WMAX=3, RMAX=3)),
    cfg("marks-3x2x3", "C09m.cpp", P(3, 2, 3)), cfg("marks-4x5x3", "C09m.cpp", P(4, 5, 3)), cfg("marks-2x3x2", "C09m.cpp", P(2, 3, 2)),
])

SMALL = dict(MAX=1, WMAX=2, RMAX=1, TMAX=12)
NOREP = dict(MAX=2, WMAX=2, RMAX=0, TMAX=12)
prop("C10", [
    cfg("2x2x2", "C10.cpp", P(2, 2, 2)), cfg("3x2x3", "C10.cpp", P(3, 2, 3)), cfg("3x1x3", "C10.cpp", P(3, 1, 3)), cfg("2x3x2", "C10.cpp", P(2, 3, 2)),
    cfg("minima-3x1x3", "C10.cpp", P(3, 1, 3, TABLE=0)),
    cfg("any-3x2x3", "C10.cpp", P(3, 2, 3, MODE=1)), cfg("any-2x1x2", "C10.cpp", P(2, 1, 2, MODE=1)),
])
prop("C11", [
    cfg("2x2x2", "C11.cpp", P(2, 2, 2, **SMALL)), cfg("3x1x3", "C11.cpp", P(3, 1, 3, **SMALL)), cfg("3x2x3", "C11.cpp", P(3, 2, 3, **SMALL)), cfg("2x3x2", "C11.cpp", P(2, 3, 2, **SMALL)),
    cfg("table-3x3x3", "C11.cpp", P(3, 3, 3, TABLE=1, **SMALL)), cfg("4x1x4", "C11.cpp", P(4, 1, 4, **SMALL)),
])
prop("C12", [
    cfg("2x2x2", "C12.cpp", P(2, 2, 2, **SMALL)), cfg("3x1x3", "C12.cpp", P(3, 1, 3, **SMALL)),
    cfg("norep-3x2x2", "C12.cpp", P(3, 2, 2, **NOREP)),
    cfg("step-3x2x3", "C12.cpp", P(3, 2, 3, STEP=1, **SMALL)),
    cfg("revive-2x2x2", "C12b.cpp", P(2, 2, 2, **SMALL)), cfg("revive-step-3x2x3", "C12b.cpp", P(3, 2, 3, STEP=1, **SMALL)),
])
prop("C13", [
    cfg("2x2x2", "C13.cpp", P(2, 2, 2, **SMALL)), cfg("3x1x3", "C13.cpp", P(3, 1, 3, **SMALL)),
    cfg("norep-3x2x2", "C13.cpp", P(3, 2, 2, **NOREP)),
    cfg("chain-40x1x2", "C13b.cpp", P(40, 1, 2, FREE=1)),
    cfg("chain-2x24x2", "C13b.cpp", P(2, 24, 2, FREE=1)),
    cfg("chain-6x4x2", "C13b.cpp", P(6, 4, 2, FREE=2)),
    cfg("chain-12x2x3", "C13b.cpp", P(12, 2, 3, FREE=2, TMAX=1)),
    cfg("chain-20x1x20", "C13b.cpp", P(20, 1, 20, FREE=1)),
])
prop("C15", [
    cfg("2x2x2", "C15.cpp", P(2, 2, 2, **SMALL)), cfg("3x1x3", "C15.cpp", P(3, 1, 3, **SMALL)),
    cfg("step-3x2x3", "C15.cpp", P(3, 2, 3, STEP=1, **SMALL)),
])

SH = dict(native="share", nextra=["vp_share.cpp"])
prop("C14", [
    cfg("pixel-2x2x2", "C14.cpp", P(2, 2, 2, PIXEL=1, **SMALL), **SH),
    cfg("job-2x2x2", "C14.cpp", P(2, 2, 2, JOBS=2, JOB=1, **SMALL), **SH),
    cfg("job-3x1x3", "C14.cpp", P(3, 1, 3, **SMALL), **SH),
    cfg("all-2x2x2", "C14.cpp", P(2, 2, 2, **SMALL), **SH),
    cfg("split-2x3x2", "C14s.cpp", P(2, 3, 2, JOBS=2, **SMALL)),
    cfg("split-reverse-2x3x2", "C14s.cpp", P(2, 3, 2, JOBS=3, ORDER=1, **SMALL)),
    cfg("split-alternate-2x2x2", "C14s.cpp", P(2, 2, 2, JOBS=2, ORDER=2, **SMALL)),
    cfg("split-surplus-2x2x2", "C14s.cpp", P(2, 2, 2, JOBS=4, ORDER=1, **SMALL)),
    cfg("quiet-3x2x3", "C14s.cpp", P(3, 2, 3, JOBS=2, QUIET=1, **SMALL)),
    cfg("quiet-2x3x2", "C14s.cpp", P(2, 3, 2, JOBS=3, ORDER=1, QUIET=1, **SMALL)),
    cfg("openmp2-2x2x2", "C14o.cpp", P(2, 2, 2, **SMALL), omp=True, threads=2),
    cfg("openmp3-2x3x2", "C14o.cpp", P(2, 3, 2, **SMALL), omp=True, threads=3, reverse=1),
])

ALGO = dict(models=["algo.cpp"])
prop("C16", [
    cfg("each-2x2x2", "C16.cpp", P(2, 2, 2, MODE=1, MAX=1, WMAX=2, RMAX=1)),
    cfg("each-3x1x3", "C16.cpp", P(3, 1, 3, MODE=1, MAX=1, WMAX=2, RMAX=1), **ALGO),
    cfg("all-2x1x2", "C16.cpp", P(2, 1, 2, MAX=1, WMAX=2, RMAX=1), **ALGO),
    cfg("all-2x2x2", "C16.cpp", P(2, 2, 2, MAX=1, WMAX=2, RMAX=0), **ALGO),
    cfg("all-3x1x2", "C16.cpp", P(3, 1, 2, MAX=1, WMAX=2, RMAX=0), **ALGO),
    cfg("all-3x1x3", "C16.cpp", P(3, 1, 3, MAX=1, WMAX=2, RMAX=0), **ALGO),
])

prop("C17", [
    cfg("2x2x2-3", "C17.cpp", P(2, 2, 2, K=3, **SMALL)),
    cfg("2x1x2-4", "C17.cpp", P(2, 1, 2, K=4, **SMALL)),
    cfg("2x1x2-5", "C17.cpp", P(2, 1, 2, K=5, **SMALL)),
    cfg("2x1x2-1", "C17.cpp", P(2, 1, 2, K=1, **SMALL)),
    cfg("2x1x2-2", "C17.cpp", P(2, 1, 2, K=2, **SMALL)),
    cfg("3x1x3-3", "C17.cpp", P(3, 1, 3, K=3, **NOREP)),
])
prop("C18", [
    cfg("2x2x2", "C18.cpp", P(2, 2, 2, **SMALL)),
    cfg("3x2x3", "C18.cpp", P(3, 2, 3, X=0, Y=1, **SMALL)),
    cfg("3x2x3-middle", "C18.cpp", P(3, 2, 3, X=1, Y=0, **SMALL)),
    cfg("4x1x4", "C18.cpp", P(4, 1, 4, **SMALL)),
    cfg("fine-3x1x3", "C18.cpp", P(3, 1, 3, MAX=1, WMAX=2, RMAX=3, RS=2, TMAX=12)), cfg("fine-2x2x2", "C18.cpp", P(2, 2, 2, MAX=1, WMAX=1, WS=10, RMAX=2, RS=20, TMAX=12)),
])
prop("C19", [
    cfg("2x2x2", "C19.cpp", P(2, 2, 2, **SMALL)),
    cfg("3x1x3", "C19.cpp", P(3, 1, 3, **SMALL)),
    cfg("complete-2x2x2", "C19.cpp", P(2, 2, 2, COMPLETE=1, SOLVED=1, START=0, **NOREP)),
    cfg("complete-3x1x3", "C19.cpp", P(3, 1, 3, COMPLETE=1, SOLVED=1, START=0, **NOREP)),
    cfg("complete-3x2x3", "C19.cpp", P(3, 2, 3, COMPLETE=1, SOLVED=1, START=0, **NOREP)),
    cfg("complete-2x3x2", "C19.cpp", P(2, 3, 2, COMPLETE=1, SOLVED=1, START=0, **NOREP)),
    cfg("holes-2x2x2", "C19.cpp", P(2, 2, 2, COMPLETE=1, SOLVED=1, **NOREP)),
    cfg("holes-4x1x4", "C19.cpp", P(4, 1, 4, COMPLETE=1, SOLVED=1, **NOREP)),
    cfg("holes-3x2x3", "C19.cpp", P(3, 2, 3, COMPLETE=1, SOLVED=1, **NOREP)),
    cfg("rep-2x2x2", "C19.cpp", P(2, 2, 2, COMPLETE=1, SOLVED=1, **SMALL)),
    cfg("rep-3x1x3", "C19.cpp", P(3, 1, 3, COMPLETE=1, SOLVED=1, **SMALL)),
])
prop("C20", [
    cfg("2x2x2", "C20.cpp", P(2, 2, 2, **SMALL)),
    cfg("3x2x3", "C20.cpp", P(3, 2, 3, **SMALL)),
    cfg("4x3x4", "C20.cpp", P(4, 3, 4, **SMALL)),
])

prop("C21", [
    cfg("data-2x1x2", "C21.cpp", P(2, 1, 2, MAX=9, FIXW=1, ISYM=0), bounds="concrete data, the labelling compared with is symbolic", **ALGO),
    cfg("data-3x2x3", "C21.cpp", P(3, 2, 3, MAX=9, FIXW=1, ISYM=0), bounds="concrete data, the labelling compared with is symbolic", **ALGO),
    cfg("one-2x1x2", "C21.cpp", P(2, 1, 2, MAX=9, FIXW=1, ISYM=1), bounds="one symbolic intensity in each image", **ALGO),
    cfg("2x1x2", "C21.cpp", P(2, 1, 2, MAX=1, WMAX=2), **ALGO),
    cfg("2x1x2-large", "C21.cpp", P(2, 1, 2, MAX=7, WMAX=3), **ALGO),
    cfg("3x1x2", "C21.cpp", P(3, 1, 2, MAX=1, WMAX=2), **ALGO),
    cfg("3x1x3", "C21.cpp", P(3, 1, 3, MAX=1, WMAX=2), **ALGO),
    cfg("2x2x2", "C21.cpp", P(2, 2, 2, MAX=1, WMAX=2), **ALGO),
])

IO = dict(sources=CORE + ["pgm_io"], models=["stream.cpp"], feasown=1)
_PGM = re.findall(r'^    "(.*?)", +//', open(V + "/harness/pgm.hpp").read(), re.M)   # the patterns of texts
def T(h, pat, tail=0, **kw):
    p = {k: kw.pop(k) for k in ("ACC", "REJ") if k in kw}
    return cfg(f"p{pat}" + (f"-{tail}" if tail else ""), h, {"PATTERN": pat, "TAIL": tail, **p}, cases=3 ** (_PGM[pat].count("?") + tail), **IO, **kw)
def B(name, W, H, **kw):
    return cfg(name, "C23b.cpp", dict(W=W, H=H, **{k: kw.pop(k) for k in list(kw) if k.isupper()}), **IO, **kw)
prop("C22", [
    T("C22.cpp", 0, 4, ACC=0), T("C22.cpp", 1, 4),
    *[T("C22.cpp", p) for p in (3, 5, 6, 7, 8, 12, 14, 15, 16, 17, 22, 27, 28, 29)],
    *[T("C22.cpp", p, tier="thorough") for p in (4, 25, 26, 30)],
    B("more", 3, 2, EXTRA=1, BAD=1), B("less", 3, 2, EXTRA=2, BAD=1), B("bad", 3, 2, BAD=1), B("more-20", 20, 9, EXTRA=1, BAD=1, FREE=20), B("less-20", 20, 9, EXTRA=2, BAD=1, FREE=20),
])
prop("C23", [
    T("C23.cpp", 2, 4), T("C23.cpp", 1, 3),
    *[T("C23.cpp", p) for p in (4, 7, 8, 9, 10, 11, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 28, 29, 31)],
    *[T("C23.cpp", p, tier="thorough") for p in (30,)],
    B("2x3", 2, 3, COMMENT=2), B("20x9", 20, 9, COMMENT=3, FREE=10), B("9x40", 9, 40, FREE=40), B("noend", 3, 2, END=0), B("1x1", 1, 1, COMMENT=1, END=0),
])
def Wr(name, h, W, H, SYM, n=5, **kw):
    return cfg(name, h, dict(W=W, H=H, SYM=SYM, **kw.pop("p", {})), cases=n ** SYM, **IO, **kw)
prop("C24", [
    Wr("1x1", "C24.cpp", 1, 1, 1), Wr("2x2", "C24.cpp", 2, 2, 3),
    Wr("11x2", "C24.cpp", 11, 2, 1), Wr("12x2", "C24.cpp", 12, 2, 1), Wr("13x3", "C24.cpp", 13, 3, 1), Wr("22x1", "C24.cpp", 22, 1, 1), Wr("24x2", "C24.cpp", 24, 2, 1), Wr("60x3", "C24.cpp", 60, 3, 1),
    cfg("invalid", "C24i.cpp", dict(W=2, H=1), cases=4, **IO),
])
prop("C25", [
    Wr("1x1", "C25.cpp", 1, 1, 1), Wr("2x2", "C25.cpp", 2, 2, 3), Wr("1x1-d1", "C25.cpp", 1, 1, 1, n=1, p=dict(DIGITS=1)), 
    Wr("13x3", "C25.cpp", 13, 3, 1), Wr("11x2", "C25.cpp", 11, 2, 1), Wr("22x2", "C25.cpp", 22, 2, 1),
])

DEV = dict(device=True, extra=["cl_builtins.cpp"])
prop("C26", [
    cfg("exists", "C26e.cpp", {"BITS": 8}, **DEV),
    cfg("penalties-3x2x3", "C26.cpp", P(3, 2, 3, **SMALL), **DEV),
    cfg("penalties-2x3x2", "C26.cpp", P(2, 3, 2, MAX=255, WMAX=3, RMAX=100, RS=1), **DEV),
    cfg("penalties-16bit-2x1x2", "C26.cpp", P(2, 1, 2, MAX=34815, IMIN=30720, WMAX=1, RMAX=0), **DEV),
    cfg("remove-3x2x3", "C26.cpp", P(3, 2, 3, MODE=1, **SMALL), **DEV),
    cfg("pixel-3x2x3", "C26.cpp", P(3, 2, 3, MODE=2, **SMALL), **DEV),
    cfg("pixel-2x3x2", "C26.cpp", P(2, 3, 2, MODE=2, X=1, Y=1, **SMALL), **DEV),
    cfg("best-3x2x3", "C26.cpp", P(3, 2, 3, MODE=3, Y=1, **SMALL), **DEV),
    cfg("best-4x1x4", "C26.cpp", P(4, 1, 4, MODE=3, **SMALL), **DEV),
    cfg("best-kernel-3x2x3", "C26.cpp", P(3, 2, 3, MODE=4, X=1, **SMALL), **DEV),
], outside="penalties that float cannot represent exactly; other OpenCL compilers and devices")

SHD = dict(native="share", nextra=["vp_share.cpp"], **DEV)
HOST = dict(sources=CORE + ["gpu_csp"], cflags=["-DUSE_OPENCL", "-I" + V + "/models/boostcl", "-Wno-changes-meaning"], **DEV)
prop("C27", [
    cfg("item-2x2x2", "C27.cpp", P(2, 2, 2, MODE=0, **SMALL), **SHD),
    cfg("item-3x1x3", "C27.cpp", P(3, 1, 3, MODE=0, X=1, **SMALL), **SHD),
    cfg("flag-2x2x2", "C27.cpp", P(2, 2, 2, MODE=1, **SMALL), **DEV),
    cfg("flag-3x2x3", "C27.cpp", P(3, 2, 3, MODE=1, X=1, **SMALL), **DEV),
    cfg("launch-2x2x2", "C27.cpp", P(2, 2, 2, MODE=2, **SMALL), **DEV),
    cfg("launch-reverse-3x1x3", "C27.cpp", P(3, 1, 3, MODE=2, ORDER=1, **SMALL), **DEV),
    cfg("launch-2x3x2", "C27.cpp", P(2, 3, 2, MODE=2, ORDER=2, **SMALL), **DEV),
    cfg("host-2x1x2", "C27h.cpp", P(2, 1, 2, **SMALL), **HOST),
    cfg("host-2x2x2", "C27h.cpp", P(2, 2, 2, ORDER=2, **SMALL), **HOST),
    cfg("host-3x1x3", "C27h.cpp", P(3, 1, 3, ORDER=1, **NOREP), **HOST),
    cfg("host-2x3x2", "C27h.cpp", P(2, 3, 2, **NOREP), **HOST),
    cfg("host-3x2x3", "C27h.cpp", P(3, 2, 3, **NOREP), **HOST),
    cfg("host-fine-2x1x2", "C27h.cpp", P(2, 1, 2, MAX=1, WMAX=1, RMAX=1, RS=1, TMAX=5), **HOST),
    cfg("host-fine-3x1x2", "C27h.cpp", P(3, 1, 2, MAX=1, WMAX=1, RMAX=1, RS=1, TMAX=5), **HOST),
    cfg("host-4x1x4", "C27h.cpp", P(4, 1, 4, **SMALL), **HOST),
    cfg("item-3x2x3", "C27.cpp", P(3, 2, 3, MODE=0, X=1, **SMALL), **SHD),
    cfg("launch-3x3x3", "C27.cpp", P(3, 3, 3, MODE=2, ORDER=2, **NOREP), **DEV),
])

CUDA = dict(cuda="device", cflags=["-DVP_CUDA"], extra=["C29sync.cpp"])
CUHOST = dict(cuda="host", cflags=["-DUSE_CUDA"], extra=["cuda_host.cpp"])
prop("C29", [
    cfg("exists", "C26e.cpp", {"BITS": 8, "COORD": 31}, **CUDA),
    cfg("penalties-3x2x3", "C26.cpp", P(3, 2, 3, **SMALL), **CUDA),
    cfg("penalties-2x3x2", "C26.cpp", P(2, 3, 2, MAX=255, WMAX=3, RMAX=100, RS=1), **CUDA),
    cfg("penalties-16bit-2x1x2", "C26.cpp", P(2, 1, 2, MAX=34815, IMIN=30720, WMAX=1, RMAX=0), **CUDA),
    cfg("remove-3x2x3", "C26.cpp", P(3, 2, 3, MODE=1, **SMALL), **CUDA),
    cfg("pixel-3x2x3", "C26.cpp", P(3, 2, 3, MODE=2, **SMALL), **CUDA),
    cfg("pixel-2x3x2", "C26.cpp", P(2, 3, 2, MODE=2, X=1, Y=1, **SMALL), **CUDA),
    cfg("best-3x2x3", "C26.cpp", P(3, 2, 3, MODE=3, Y=1, **SMALL), **CUDA),
    cfg("best-kernel-3x2x3", "C26.cpp", P(3, 2, 3, MODE=4, X=1, **SMALL), **CUDA),
    cfg("lockstep-2x1x2", "C29sched.cpp", P(2, 1, 2, ORDER=2, **SMALL), **dict(CUDA, extra=[])),
    cfg("lockstep-3x1x2", "C29sched.cpp", P(3, 1, 2, ORDER=0, **NOREP), **dict(CUDA, extra=[])),
    cfg("lockstep-back-3x1x2", "C29sched.cpp", P(3, 1, 2, ORDER=1, **NOREP), **dict(CUDA, extra=[])),
    cfg("host-2x1x2", "C29h.cpp", P(2, 1, 2, **SMALL), **CUHOST),
    cfg("host-error-2x1x2", "C29h.cpp", P(2, 1, 2, FAIL=1, **NOREP), **CUHOST),
    cfg("host-2x2x2", "C29h.cpp", P(2, 2, 2, **NOREP), **CUHOST),
    cfg("host-3x1x3", "C29h.cpp", P(3, 1, 3, **NOREP), **CUHOST),
], outside="penalties that float cannot represent exactly; nvcc and real devices; lockstep runs of more than three threads or of threads interleaved within a phase")

import sources
_SC = open(V + "/harness/C28.cpp").read()
TOOL = dict(extra=["C28main.cpp"], models=["algo.cpp", "stream.cpp", "except.cpp"],
    cflags=["-I" + V + "/models/boostcl", f'-DVP_MAIN="{sources.REPO}/lib/main.cpp"'])
REALTOOL = dict(TOOL, sources=CORE + ["pgm_io"], cases=4)
STUBTOOL = dict(TOOL, sources=[x for x in CORE if x != "labeling_finder"] + ["pgm_io"], extra=["C28main.cpp", "C28stub.cpp"],
    cases=len(re.findall(r'^    \{"', _SC, re.M)), cflags=TOOL["cflags"] + ["-DVP_STUB"])
prop("C28", [
    cfg("wiring-3x1", "C28.cpp", P(3, 1, MAX=9), **STUBTOOL),
    cfg("wiring-cl-3x2", "C28.cpp", P(3, 2, MAX=9), **dict(STUBTOOL, cflags=STUBTOOL["cflags"] + ["-DUSE_OPENCL"])),
    cfg("search-3x1", "C28.cpp", P(3, 1, MAX=1), time=300, **REALTOOL),
])

TEXT = dict(sources=[], extra=["C30lib.cpp"], models=["algo.cpp", "stream.cpp", "except.cpp"],
    cflags=["-I" + V + "/models/boostcl", "-DVP_PROGRAM", f'-DVP_COMPILE="{sources.REPO}/lib/compile_cl.cpp"'])
prop("C30", [
    cfg("list-2", "C30.cpp", dict(FILES=2), bounds="every list of 2 out of 3 files with 0 to 3 arbitrary bytes", cases=27, **TEXT),
    cfg("list-3", "C30.cpp", dict(FILES=3), cases=81, **TEXT),
    cfg("program", "C30.cpp", dict(FILES=2, MODE=1), cases=27, **TEXT),
    cfg("single", "C30.cpp", dict(FILES=1, MODE=2, MORE=5), cases=9, **TEXT),
], outside="files that cannot be read; longer texts; the real compiler of the device; std::ifstream and Boost.Compute are stand-ins")

# ---- larger problems: concrete irregular data, few symbolic values
def L(prop, name, w, h, d, tier="quick", **kw):
    e = {k: kw.pop(k) for k in list(kw) if not k.isupper()}
    SPECS[prop]["configs"].append(cfg("large-" + name, "L.cpp", P(w, h, d, MODE=int(prop[1:]), **kw), tier=tier,
        bounds="concrete irregular data of this size in which the stated number of intensities (ISEL), reparametrization values (RSEL), availabilities (ASEL), the threshold or the weights (WSEL) are symbolic", **e))
L("C06", "300x1x290", 300, 1, 290, ISEL=3, MAX=255, WSEL=1)
L("C06", "40x3x20", 40, 3, 20, ISEL=3, MAX=255, WSEL=1, RMAX=100, RSEL=4)
L("C08", "12x2x9", 12, 2, 9, ISEL=2, MAX=15, RMAX=9, RSEL=4)
L("C08", "pixels-300x1x280", 300, 1, 280, ISEL=4, MAX=255, PIXELS=1)
L("C09", "20x3x12", 20, 3, 12, ISEL=2, MAX=15, RMAX=5, RSEL=2, TMAX=100)
L("C09", "270x1x265", 270, 1, 265, "thorough", MAX=15, TMAX=100)
L("C10", "262x1x259", 262, 1, 259, MAX=3, TMAX=100000)
L("C10", "20x3x12", 20, 3, 12, MAX=3, RMAX=5, RSEL=3, TMAX=200)
L("C11", "262x1x259", 262, 1, 259, MAX=3, TMAX=4)
L("C11", "whole-12x3x10", 12, 3, 10, MAX=3, TMAX=9, WHOLE=1, RMAX=3)
L("C18", "270x1x262", 270, 1, 262, MAX=255, ASEL=8)
L("C18", "20x2x12", 20, 2, 12, MAX=15, ASEL=6, RMAX=20, RSEL=4, X=4, Y=1)
L("C20", "300x1x290", 300, 1, 290, ASEL=3)
L("C20", "300x20x2", 300, 20, 2, ASEL=3)
for q in ("C12", "C13", "C15"):
    L(q, "8x4x4", 8, 4, 4, "thorough" if q == "C15" else "quick", MAX=1, TMAX=3, EVERY=7)
    L(q, "5x5x5", 5, 5, 5, MAX=1, TMAX=4 if q == "C15" else 12, RMAX=1, EVERY=23)
    L(q, "12x1x12", 12, 1, 12, MAX=1, TMAX=2, EVERY=9)
L("C19", "6x4x3", 6, 4, 3, MAX=2, TMIN=2, TMAX=9, ASEL=0, EVERY=11)
L("C19", "5x3x4", 5, 3, 4, MAX=1, TMIN=1, TMAX=6, ASEL=1)
L("C09", "raw-6x2x4", 6, 2, 4, MAX=15, RMAX=7, RS=3, RAW=1)
L("C10", "raw-6x2x4", 6, 2, 4, MAX=15, RMAX=7, RS=3, RAW=1)
L("C16", "4x2x3", 4, 2, 3, MAX=1, RMAX=1, RS=24, RSEL=1, **ALGO)
L("C16", "5x1x5", 5, 1, 5, MAX=2, ISEL=1, **ALGO)
L("C16", "each-5x2x4", 5, 2, 4, MAX=7, RMAX=20, RS=3, RSEL=2, EACH=1, **ALGO)
L("C16", "5x2x2", 5, 2, 2, MAX=1, RMAX=9, RSEL=1, RX=3, RI=2, RY=0, **ALGO)
L("C16", "3x4x2", 3, 4, 2, MAX=1, RMAX=9, RSEL=1, RX=1, RI=0, RY=3, **ALGO)
L("C17", "2x2x2-9", 2, 2, 2, MAX=3, K=9, ISEL=4, RMAX=2, RSEL=2)
L("C17", "4x1x4-20", 4, 1, 4, MAX=3, K=20, ISEL=4)
def LD(prop, name, w, h, d, base, tier="quick", **kw):
    e = dict(base, **{k: kw.pop(k) for k in list(kw) if not k.isupper()})
    SPECS[prop]["configs"].append(cfg("large-" + name, "L26.cpp", P(w, h, d, **kw), tier=tier,
        bounds="concrete irregular data of this size in which the threshold and the stated number of intensities, reparametrization values and availabilities are symbolic", **e))
LHOST = dict(HOST, cflags=HOST["cflags"] + ["-DVP_HOST"])
LD("C26", "9x4x5", 9, 4, 5, DEV, MAX=15, RMAX=5, RS=2, RSEL=2, ISEL=2, TMAX=40, TS=1, ASEL=3)
LD("C26", "5x9x4", 5, 9, 4, DEV, MAX=15, RMAX=5, TMIN=20, TMAX=60, ASEL=3)
LD("C26", "262x1x259", 262, 1, 259, DEV, "thorough", MAX=3, TMAX=100000, STEP=43, SWEEP=0, BARE=1)
LD("C26", "2x260x2", 2, 260, 2, DEV, MAX=3, TMAX=9, SWEEP=0)
LD("C27", "host-6x4x3", 6, 4, 3, LHOST, MAX=2, TMIN=2, TMAX=9, EVERY=11)
LD("C27", "host-4x6x4", 4, 6, 4, LHOST, MAX=1, TMIN=1, TMAX=6, ORDER=2, EVERY=100)

NOT_APPLICABLE = {
}

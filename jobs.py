"""The jobs (harness x concrete parameters) that decide each property."""
import copy

from driver import Job as J

P = {}


def prop(pid, **meta):
    def d(f):
        meta.setdefault("level", "model_checking")
        P[pid] = (meta, f)
        return f

    return d


DEFAULT_BUILD = ("h_lossless", "h_damage", "h_garbage", "h_compose", "h_prefix", "h_buffer", "h_uniform", "h_lift_roundtrip", "h_quant", "h_quant_all")


def default_build(o, n):
    """some of the jobs once more with the crate's default features (parallel above a size, sequential below)"""
    def spread(l, n):
        return [l[i * len(l) // n] for i in range(n)] if len(l) > n else l

    c = [j for j in o if j.h in DEFAULT_BUILD and j.variant == "serial" and j.profile == "release"]
    small = sorted((j for j in c if not j.partial), key=lambda j: j.cost)
    big = [j for j in c if j.partial and j.params[0] * j.params[1] > 3000 and j.params[0] * j.params[1] < 20000]
    r = []
    for j in spread(small[:len(small) * 2 // 3], n) + spread(big, 2):
        j = copy.copy(j)
        j.variant = "ada"
        j.extra = [x for x in j.extra if x != "--raw"]
        r.append(j)
    return o + r


def jobs(pid, tier, seed):
    meta, f = P[pid]
    return meta, default_build(f(tier == "thorough"), (4 if pid == "C10" else 8) if tier == "quick" else 40)


def builds():
    return [("serial", "release"), ("serial", "checked"), ("par", "release"), ("ada", "release"), ("ref", "release")]


TAB = ["--tab", "4096"]
RAW = ["--raw"]
TAB16 = ["--tab", "16384"]


def cfg(w, h, enc, filt=0, layers=1, ch=1, block=7, quality=1024, cs=8, prog=0, pat=2, nsym=1, first=0, stride=1):
    return [w, h, layers, ch, enc, filt, block, quality, cs, prog, pat, nsym, first, stride]


SIZES = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 3), (4, 4), (5, 3), (3, 5), (1, 4), (4, 1), (1, 7), (6, 2), (8, 5), (9, 4)]


def spots(n, k):
    """k positions spread over 0..n, the ends included"""
    return sorted({(n - 1) * i // max(1, k - 1) for i in range(k)}) if n > 1 else [0]


# width, height, layers, channels, block exponent, colour program, pattern, position of the sample: several blocks in both
# directions, many resolution levels (steps up to 2048), rows and columns
LARGE = [(65, 65, 1, 1, 2, 0, 7, 2200), (1, 2049, 1, 1, 7, 0, 7, 2000), (4097, 1, 1, 1, 7, 0, 7, 4096), (130, 3, 1, 1, 2, 0, 6, 129), (40, 30, 1, 3, 3, 1, 7, 1000),
         (33, 20, 2, 2, 2, 6, 7, 700), (140, 129, 1, 1, 7, 0, 0, 9000), (17, 129, 1, 1, 10, 0, 4, 5), (70, 80, 1, 1, 5, 0, 7, 3000), (36, 50, 1, 4, 3, 2, 7, 7000),
         # zero runs beyond 16 bits, sides beyond 16 bits, more layers and channels than 8 bits
         (300, 300, 1, 1, 9, 0, 1, 89999), (1, 70000, 1, 1, 7, 0, 1, 69000), (3, 2, 300, 1, 2, 0, 7, 1790), (2, 3, 1, 300, 7, 0, 7, 1700), (70000, 1, 1, 1, 7, 0, 1, 69000),
         # blocks whose side exceeds 32 bits
         (9, 9, 1, 1, 30, 0, 7, 44), (5, 20, 1, 2, 29, 5, 7, 130)]
MORE = [(300, 200, 1, 1, 7, 0, 0, 30000), (260, 5, 1, 3, 2, 3, 6, 3000), (9, 700, 1, 2, 4, 5, 7, 12000), (129, 257, 1, 1, 3, 0, 7, 33000), (2100, 2, 2, 1, 6, 0, 2, 8000), (200, 3, 1, 1, 2, 0, 3, 300)]


def large(deep, enc, name, qs, tail, skip=(), cs=(1, 8), n=-6, **kw):
    """one job per large size: the sample ranges over a few values, everything else is the pattern"""
    o = []
    for i, (w, h, la, ch, block, prog, pat, first) in enumerate(LARGE + (MORE if deep else [])):
        for filt in (0, 1):
            if (w, h) in skip or name == "h_ref" and block > 26 or not deep and (i + filt + enc) % 2:
                continue
            if not deep and prog and len(qs) > 1:
                filt = 1
            for j in range(3 if deep else 1):
                k = i + enc + 2 * filt + j
                t = tail(enc, k)
                if name in ("h_compose", "h_stages", "h_ref"):
                    # downsampling beyond the coarsest level is outside
                    t[0] = min(t[0], (max(w, h) - 1).bit_length() - 1)
                o.append(J(name, cfg(w, h, enc, filt, la, ch, block, qs[k % len(qs)], cs[k // 2 % len(cs)], prog, pat, n * (1 + 2 * deep), (first + 1777 * j) % (w * h * la * ch)) + t,
                           **{**dict(time=60 if not deep else 900, cost=w * h * la * ch / 300, extra=TAB, fuel=10**12, reach=(), partial=True), **kw}))
    return o


def contrast(deep, name, tail, **kw):
    """images with coefficients as large as they get"""
    o = []
    for enc in (1, 2, 0):
        for filt in (0, 1):
            for k, (w, h, pat, first, q) in enumerate(((48, 48, 20, 820, 1023), (65, 65, 21, 1100, 900), (49, 41, 21, 1216, 1023), (97, 33, 20, 3000, 1000))):
                if not deep and (enc + filt + k) % 2:
                    continue
                o.append(J(name, cfg(w, h, enc, filt, 1, 1, 7, q, 1, 0, pat, -12 if deep else -6, first) + tail(enc, k),
                           **{**dict(time=60 if not deep else 600, cost=8, extra=TAB, fuel=10**12, reach=(), partial=True), **kw}))
    return o


@prop("C01", bounds="images up to 9x8 (quick) / 17x13 (thorough), up to 4 channels and 2 layers, block exponents 2..10; one "
                    "sample arbitrary (0..255, every position class), the others from 9 fixed patterns; all encoders and filters; "
                    "colour programs of the library and two user-defined ones; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="larger images, several arbitrary samples at once (covered stage by stage in C04-C08), channels > 4")
def c01(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h) in SIZES + ([(8, 8), (13, 6), (17, 3), (2, 17), (17, 13)] if deep else []):
                for first in spots(w * h, (6 if deep else 2)):
                    k += 1
                    o.append(J("h_lossless", cfg(w, h, enc, filt, first=first, pat=(2, 3, 4, 6, 7, 8, 0, 1, 5)[k % 9]), time=400 if deep else 90,
                               cost=w * h, extra=TAB))
            # blocks, layers, channels, colour
            for (w, h, la, ch, block, prog, cs) in ((9, 9, 1, 1, 2, 0, 8), (5, 4, 1, 3, 3, 1, 1), (4, 3, 1, 4, 7, 2, 1), (3, 3, 2, 2, 2, 6, 1),
                                                    (4, 4, 1, 3, 10, 3, 1), (3, 5, 1, 2, 2, 5, 1), (4, 2, 1, 3, 7, 4, 1), (2, 2, 3, 1, 2, 0, 8),
                                                    (3, 2, 1, 2, 7, 0, 3)):
                n = w * h * la * ch
                for first in spots(n, 5 if deep else 1 + (enc + filt + w) % 2):
                    k += 1
                    o.append(J("h_lossless", cfg(w, h, enc, filt, la, ch, block, 1024, cs, prog, (2, 3, 7, 6)[k % 4], 1, first), time=400 if deep else 100,
                               cost=w * h * la * ch * (3 if prog else 1), extra=TAB))
    for enc in (0, 1, 2):
        # every intent (they take turns with the width), without chroma channels whatever the chroma scale
        for i, w in enumerate((2, 3, 4, 5, 6, 7)):
            o.append(J("h_lossless", cfg(w, 3, enc, (i + enc) % 2, 1 + (i == enc), 3, 7, 1024, (8, 2, 255)[i % 3], 0, (2, 3, 7)[i % 3], 1, 1 + 5 * i), time=400 if deep else 60, cost=w * 9, extra=TAB))
            o.append(J("h_lossless", cfg(w, 2, enc, (i + enc) % 2, 1, 4, 7, 1024, (8, 2, 255)[i % 3], 0, (2, 3, 7)[i % 3], 1, 2 + 5 * i), time=400 if deep else 60, cost=w * 8, extra=TAB))
        o += large(deep, enc, "h_lossless", (1024,), lambda e, k: [], cs=(1,))
    return o


@prop("C02", bounds="valid streams of images up to 9x9 with 1-2 arbitrary bytes at every position behind and inside the header, streams "
                    "of 4-16 bytes with up to 4 arbitrary ones, colour programs of up to 4 arbitrary bytes, blocks with up to 16 arbitrary bits; images up to 70x80 and rows of 4097 with one arbitrary byte; release profile",
      outside="more damaged bytes at once, larger images, downsampling of 64 and more, output buffers shorter than the header asks for, "
              "the overflow-checked profile (hostile data may overflow there by design of the wrapping arithmetic)",
      assumptions=["the output buffer has the size the header states", "memory suffices for the image the header describes"])
def c02(deep):
    o = []
    for enc in (0, 1, 2):
        for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 0), (5, 3, 1, 1, 2, 0, 1), (3, 3, 1, 3, 7, 1, 0), (9, 9, 1, 1, 2, 0, 0), (2, 2, 2, 2, 2, 6, 0),
                                               (1, 1, 1, 1, 7, 0, 0), (8, 4, 1, 1, 3, 0, 2), (1, 6, 1, 2, 2, 5, 0)):
            for q in (1024, 200):
                n = 260 if w == 9 else 40 + 14 * w * h * la * ch // 4
                o.append(J("h_damage", cfg(w, h, enc, w % 2, la, ch, block, q, 8, prog, 3 if q == 1024 else 2, 0) + [d, 0, n, 1], time=120, cost=n, extra=TAB))
        for first in range(8, 38, 6):
            o.append(J("h_damage", cfg(4, 4, enc, 1, nsym=0) + [0, first, (3 if enc < 2 else 2) if not deep else 6, 2], time=150, cost=120, extra=TAB))
        o.append(J("h_damage", cfg(4, 4, enc, 0, pat=3, nsym=0) + [0, 8, 30, 1, 3], time=120, cost=50, extra=TAB))
        o.append(J("h_damage", cfg(5, 5, enc, 0, pat=3, nsym=0) + [0, 4, 30, 2, 0, 1], time=120, cost=50, extra=TAB, reach=()))
        for (w, h, ch) in ((2, 2, 1), (3, 1, 2), (1, 1, 1)):
            for k in (0, 4):
                o.append(J("h_garbage", cfg(w, h, enc, 0, 1, ch) + [0, 16, k, 3, 1], time=100, extra=TAB, reach=()))
                o.append(J("h_garbage", cfg(w, h, enc, 0, 1, ch) + [0, 16, k, 0, 1], time=100, extra=TAB, reach=()))
        # inside blocks
        for (w, h, bs, step, bits, pre, pv) in ((4, 4, 8, 1, 14, 0, 0), (5, 4, 4, 1, 12, 3, 1), (8, 8, 8, 2, 14, 0, 0), (4, 4, 8, 1, 12, 24, 0), (4, 4, 8, 1, 12, 36, 0)):
            for (q, dc) in ((1024, 1), (300, 0)):
                for chunk in (0, 1) if bs < w else (0,):
                    o.append(J("h_block_any", [w, h, bs, step, enc, q, dc, 0, 1, 2, bits, pre, pv, 8, 170, chunk], time=120, cost=20, extra=TAB16, reach=()))
        o.append(J("h_damage_header", cfg(4, 4, enc, 0) + [0, 8, 8, 1, 256], time=100, extra=TAB, reach=()))
        o.append(J("h_damage_header", cfg(4, 4, enc, 0) + [0, 4, 28, 1, 256], time=100, extra=TAB, reach=(1, 3)))
        o.append(J("h_damage_header", cfg(5, 4, enc, 0) + [1, 4, 27, 2, 128], time=200, cost=60, extra=TAB, reach=(1, 3)))
    for n, ch in ((1, 1), (2, 1), (3, 2), (3, 3), (4, 1)):
        o.append(J("h_color_decode_any", [n, 0, ch], time=200, cost=n * n * 10, extra=TAB, reach=()))
    if deep:
        for enc in (0, 1, 2):
            o.append(J("h_color_decode_any", [4, 0, 3], time=2500, cost=5000, extra=TAB, reach=()))
            for first in range(8, 60, 4):
                o.append(J("h_damage", cfg(4, 4, enc, 0, pat=7) + [0, first, 4, 3], time=1200, cost=900, extra=TAB, reach=(), partial=True))
            o.append(J("h_damage", cfg(12, 10, enc, 1, block=2, quality=700, pat=3) + [0, 0, 500, 1], time=1500, cost=600, extra=TAB))
            for pre in range(0, 60, 5):
                o.append(J("h_block_any", [6, 6, 8, 1, enc, 1024, 1, 1, 1, 4, 16, pre, 0, 12, 90, 0], time=900, cost=300, extra=TAB16, reach=()))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_damage", (300, 1024), lambda e, k: [k % 3, 3, 8 if not deep else 40, 1, 0, 0, 61], skip=((140, 129), (1, 2049), (17, 129)) if not deep else (), n=0)
    return o


@prop("C03", bounds="all field values (width and height 32 bits, layers and channels 16, quality 16, chroma scale 8, block size 8, metadata 32; "
                    "all enumerations); decoding: all 32-byte strings", outside="the limit of the image size is examined with at least two of the four dimensions fixed")
def c03(deep):
    o = [J("h_header_build", [0, 16, 16, 0], time=400, cost=200, reach=(1, 2)),
         J("h_header_build", [0, 1, 1, 1], time=200, reach=(1, 2)),
         J("h_header_build", [0, 3, 4, 0], time=400, cost=100, reach=(1, 2)),
         J("h_header_decode", [32, 0], time=400, cost=90, reach=(1, 2)),
         J("h_header_decode", [40, 1], time=300, cost=50, reach=(1, 2)),
         J("h_header_roundtrip", [0, 0, 0, 1, 31], time=300, cost=60),
         J("h_header_roundtrip", [0, 1, 1, 1, 12], time=200)]
    big = (1 << 30) - 1
    for x in ((65535, 65535, big, 0), (0, 65535, 1 << 29, 1 << 29), (0, 0, big, big), (4, 4, 0, 0), (0, 17, big, big), (300, 300, 0, 65537), (65535, 0, 1 << 20, big), (1, 0, big, big), (0, 1, big, big)) + \
            (((3, 7, 0, 0), (65535, 1, 0, 0), (1, 65535, 0, 0)) if deep else ()):
        o.append(J("h_header_fits", x, time=300, cost=60, reach=()))
    for n in (0, 3, 4, 8, 19, 31):
        o.append(J("h_header_decode", [n, 1], time=60, reach=(2,)))
    for d, la, ch in ((0, 1, 1), (1, 1, 3), (3, 2, 2), (7, 1, 4), (12, 3, 1)):
        o.append(J("h_header_sizes", [d, la, ch], time=200, cost=30))
    if deep:
        for d in range(0, 24):
            o.append(J("h_header_sizes", [d, 1 + d % 3, 1 + d % 4], time=400, cost=30))
        for n in range(32):
            o.append(J("h_header_decode", [n, 0], time=200, reach=(2,)))
    return o


@prop("C04", bounds="all 32-bit values for the unsigned code, |x| < 2^30 for the interleaved one, |x| < 2^31 for the signed one; parameters 0..24; "
                    "every bit offset 0..31 and a following field", outside="parameters above 24 (not used by the codec)")
def c04(deep):
    o = []
    top = {0: (0, (1 << 32) - 1), 1: (-(1 << 30) + 1, (1 << 30) - 1), 2: (-(1 << 31) + 1, (1 << 31) - 1)}
    pots = range(0, 25) if deep else (0, 1, 2, 3, 4, 7, 12, 20, 24)
    for kind in (0, 1, 2):
        for i, pot in enumerate(pots):
            lo, hi = top[kind]
            offs = range(0, 32, 3) if deep else ((0, 13, 31)[(i + kind) % 3],)
            for off in offs:
                o.append(J("h_code", [kind, pot, lo, hi, off, 7 if off else 0], time=200, cost=5, extra=TAB))
            o.append(J("h_code_format", [kind, pot, lo, hi], time=200, cost=5, extra=TAB))
    for off in range(0, 32, 1 if deep else 4):
        o.append(J("h_code", [0, 0, 0, 70000, off, 5], time=200, cost=3, extra=TAB))
        o.append(J("h_code", [1, 1, -40000, 40000, off, 9], time=200, cost=3, extra=TAB))
        o.append(J("h_code", [2, 4, -40000, 40000, off, 31], time=200, cost=3, extra=TAB))
    return o


@prop("C05", bounds="sequences of up to 9 fields of given widths 1..31 with arbitrary values, word flushes between; up to 3 (thorough: 4) fields of arbitrary widths; zero runs on "
                    "arbitrary streams of up to 4 words from every offset with limits up to 64; mixed reading operations, the end of the stream included; destinations with room for 0..12 bytes",
      outside="longer sequences; widths 0 and 32")
def c05(deep):
    o = []
    seqs = [[1], [31], [31, 31], [1, 31], [31, 1], [16, 16], [32 - 5, 5, 3], [7] * 9, [13, 19, 5, 31, 1, 2], [8, 8, 8, 8, 8], [30, 2, 1], [3, 29, 31, 31],
            [5, 12, 17, 23, 9, 31, 30]]
    if deep:
        seqs += [[a, b] for a in range(1, 32, 2) for b in range(1, 32, 3)]
        seqs += [[a, 11, b, 25] for a in range(1, 32, 3) for b in range(1, 32, 4)]
    for s in seqs:
        for fl in sorted({0, 1, len(s) // 2 + 1, len(s)}):
            p = [len(s)] + s + [0] * (19 - len(s)) + [fl]
            o.append(J("h_bits", p, time=100, extra=TAB + RAW))
    for words in (1, 2, 3):
        for off in range(0, 32, 1 if deep else 5):
            for mx in (12, 3, 31) if deep else (12,):
                o.append(J("h_zeros", [words, off, mx, 5 + off % 9], time=200, cost=words, extra=TAB))
    o += [J("h_bits_widths", [1, 1, 31], extra=RAW), J("h_bits_widths", [2, 1, 31], extra=RAW), J("h_bits_widths", [3, 1, 31], time=200, cost=30)]
    if deep:
        o += [J("h_bits_widths", [3, 1, 31], time=900, cost=300, extra=RAW), J("h_bits_widths", [4, 1, 31], time=900, cost=400)]
    ops = [[0, 0, 0], [0, 112, 0], [0, 132, 0], [5, 164, 0], [0, -1, 0], [112, 0, -1, 5], [-1, 0, 140], [133, 0, 101], [-2] * 5, [0, -2, -2, 0], [131, 0, 130], [31, 31, 2, 164], [31, 102, 104]]
    if deep:
        ops += [[a, b, c] for a in (0, 7, 112, -1) for b in (0, 31, 131, 132, 133, 164, -1) for c in (0, 30, 112, 163)] + [[-2] * 6]
    for words in (1, 2, 3, 4):
        for x in ops:
            o.append(J("h_reader", [words, len(x)] + x, time=200 if not deep else 900, cost=words * len(x), reach=()))
    for room in range(0, 13):
        for wid in (7, 31, 16):
            o.append(J("h_bits_full", [room, wid, 6], time=60))
    return o


def block_jobs(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for (w, h, bs, step) in ((4, 4, 8, 1), (5, 3, 4, 1), (8, 8, 4, 1), (8, 8, 16, 2), (6, 6, 8, 2), (9, 5, 16, 4), (1, 6, 4, 1), (7, 1, 4, 1), (8, 8, 8, 1)):
            n = w * h
            for first in spots(n, 5 if deep else 2):
                for q, dc, chroma in ((1024, 1, 0), (300, 1, 1), (20, 0, 0)):
                    k += 1
                    o.append(J("h_block", [w, h, bs, step, enc, q, dc, chroma, 1 + k % 2, (2, 1, 3, 5, 4, 0)[k % 6], first, 1, 1, -8000, 8000], time=200, cost=n / 8,
                               extra=TAB16))
            for first in spots(n - 1, 3 if deep else 1):
                k += 1
                o.append(J("h_block", [w, h, bs, step, enc, (1024, 300)[k % 2], 1, k % 2, 1, (2, 5, 0)[k % 3], first, 1 + step, 2, -6, 6], time=900 if deep else 200,
                           cost=30, extra=TAB16))
    return o


@prop("C06", bounds="blocks up to 9x9 coefficients, 1-2 channels, chunk grids, steps 1..4, one coefficient arbitrary in +-8000 or two in +-6, others patterned "
                    "(zero runs, small, large); whole codec up to 9x9 with one arbitrary sample at 7 qualities; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="larger blocks; several arbitrary large coefficients at once")
def c06(deep):
    o = block_jobs(deep)
    k = 0
    for enc in (0, 1, 2):
        for (w, h, la, ch, block, prog) in ((4, 4, 1, 1, 7, 0), (5, 3, 1, 1, 2, 0), (3, 4, 1, 3, 7, 1), (9, 9, 1, 1, 2, 0), (2, 3, 2, 2, 2, 6), (6, 1, 1, 1, 7, 0), (1, 1, 1, 3, 7, 3)):
            for q, cs in ((1023, 8), (512, 3), (300, 8), (64, 1), (5, 8), (1, 1), (1024, 8)):
                k += 1
                if not deep and (k % 3 or (w == 9 and k % 2)):
                    continue
                for first in spots(w * h * la * ch, 3 if deep else 1):
                    o.append(J("h_compose", cfg(w, h, enc, k % 2, la, ch, block, q, cs, prog, (2, 3, 6, 7)[k % 4], 1, first + (k * 5 if not deep else 0)) + [0],
                               time=600 if deep else 120, cost=w * h * ch * (3 if prog else 1), extra=TAB))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_compose", (1023, 300, 1024, 40, 700), lambda e, k: [0])
    o += contrast(deep, "h_compose", lambda e, k: [k % 3])
    return o


@prop("C07", bounds="every sample any 16-bit value: all sizes up to 8x8 (thorough: 12x12) and rows, columns and rectangles up to 17x16, 100 and 33x9 decided by the solver, "
                    "sizes up to 130x129 and rows and columns up to 4097 (thorough: 300x200, 20001) decided by term rewriting",
      outside="larger planes")
def c07(deep):
    o = []
    m = 12 if deep else 8
    for filt in (0, 1):
        sizes = [(w, h) for w in range(1, m + 1) for h in range(1, m + 1)] + [(9, 9), (17, 1), (1, 17), (33, 1), (1, 33), (65, 1), (1, 65), (100, 1), (1, 100), (17, 3), (3, 17), (11, 10), (16, 5), (33, 4)]
        if deep:
            sizes += [(16, 16), (17, 16), (33, 9), (9, 33), (257, 1), (1, 257), (129, 3), (3, 129), (24, 24)]
        for (w, h) in sizes:
            o.append(J("h_lift_roundtrip", [w, h, filt, -32768, 32767], time=300 if not deep else 1500, merge=1, cost=w * h, extra=RAW))
        for (w, h) in [(64, 64), (65, 33), (130, 129), (2049, 1), (1, 2049), (4097, 1), (1, 4097), (300, 7), (7, 300)] + ([(300, 200), (257, 256), (20001, 1), (1, 20001), (1000, 9), (9, 1000)] if deep else []):
            o.append(J("h_lift_roundtrip", [w, h, filt, -32768, 32767], time=300 if not deep else 1500, merge=1, cost=w * h / 10, fuel=10**12))
    return o


@prop("C08", bounds="up to 4 channels in 1-2 layers, 1-4 pixels, all samples arbitrary; up to 4 transforms with up to 3 factors, factors arbitrary in +-100, "
                    "denominators arbitrary up to 60 (or fixed), both layouts, lossless and boosted; the predefined programs",
      outside="programs that name a destination twice or use it as its own source (not invertible); sums that leave 16 bits are only covered by the inverse jobs",
      assumptions=["a program writes each channel at most once and no transform reads its own destination"])
def c08(deep):
    o = []
    inv = []
    for planar in (0, 1):
        for q in (1024, 512):
            inv += [[2, 2, 2, 2, 4, 3, 100, 7, 0, -1, q, planar, 0], [2, 1, 3, 1, 3, 2, 100, 3, 1, -1, q, planar, 0], [1, 1, 2, 1, 2, 1, 30, 20, 1, -1, q, planar, 1],
                    [3, 1, 4, 1, 2, 3, 100, 5, 2, -1, q, planar, 0], [2, 2, 1, 2, 1, 1, 100, 2, 1, -1, q, planar, 0]]
            inv += [[2, 2, 3, 1, 0, 0, 0, 0, 0, p, q, planar, 0] for p in (0, 1, 2, 3, 4)] + [[2, 2, 4, 1, 0, 0, 0, 0, 0, p, q, planar, 0] for p in (1, 3)]
            inv += [[3, 2, 2, 2, 0, 0, 0, 0, 0, 6, q, planar, 0], [2, 3, 2, 1, 0, 0, 0, 0, 0, 5, q, planar, 0]]
    for x in inv:
        o.append(J("h_color_inverse", x, time=200, cost=5))
    for q in (1024, 512):
        for x in ([2, 1, 2, 2, 3, 2, 50, 6, 0, -1, q], [2, 2, 3, 1, 0, 0, 0, 0, 0, 1, q], [3, 1, 3, 2, 0, 0, 0, 0, 0, 2, q], [2, 2, 2, 2, 0, 0, 0, 0, 0, 6, q], [1, 3, 4, 1, 0, 0, 0, 0, 0, 0, q],
                  [2, 1, 3, 1, 3, 2, 50, 5, 1, -1, q]):
            o.append(J("h_color_layout", x, time=200, cost=5))
        for p, ch in ((1, 3), (2, 3), (3, 3), (4, 3), (5, 2), (1, 4)):
            o.append(J("h_color_definition", [1, 1, ch, 1, 0, 0, 0, 0, 0, p, q], time=300, cost=40))
            if ch == 3 or p == 5:
                lim = (-3000, 3000) if p != 5 else (-300, 600)
                o.append(J("h_color_clamp", [1, 1, ch, 1, 0, 0, *lim, 0, p, q], time=300, cost=40))
        o.append(J("h_color_clamp", [1, 2, 2, 2, 0, 0, -32768, 32767, 0, 0, q], time=300, cost=20))
    for p, ch in ((0, 1), (0, 4), (1, 3), (2, 4), (3, 3), (4, 3), (5, 2), (6, 4), (7, 2)):
        o.append(J("h_color_program", [0, 0, ch, 1, 0, 0, 0, 0, 0, p], time=60))
    o.append(J("h_color_program", [0, 0, 2, 1, 1, 1, 40, 60, 0, -1], time=300, cost=40, extra=TAB))
    o.append(J("h_color_program", [0, 0, 3, 1, 1, 1, 3000, 1, 0, -1], time=300, cost=40, extra=TAB))
    o.append(J("h_color_program", [0, 0, 3, 1, 1, 2, 10, 20, 1, -1], time=300, cost=60, extra=TAB))
    o.append(J("h_color_program", [0, 0, 3, 1, 0, 0, 0, 0, 0, 1], time=60))
    for (cs, ch, boost, mask) in ((3, 3, 8, 2), (2, 4, 1, 5), (4, 2, 8, 0), (1, 3, 1, 7), (5, 1, 8, 0), (2, 3, 1, 6)):
        o.append(J("h_layout_skip", [cs, ch, boost, mask, -32768, 32767], time=200, cost=10))
        o.append(J("h_layout_types", [cs, ch, boost, mask, -32768 // boost, 32767 // boost], time=200, cost=10))
    # samples that are not bytes
    for (w, h, ch, la, p, lim) in ((2, 1, 3, 1, 1, 255), (1, 1, 3, 1, 2, 500), (1, 1, 3, 1, 3, 255), (1, 1, 4, 1, 4, 1000), (1, 1, 2, 2, 6, 1000), (1, 1, 2, 1, 5, 300), (3, 2, 2, 1, 0, 4095), (2, 2, 2, 2, 0, 4095)):
        for q in (1024, 300):
            o.append(J("h_color_types", [w, h, ch, la, 0, 0, -lim, lim, 0, p, q], time=300, cost=50))
    if deep:
        o.append(J("h_color_program", [0, 0, 3, 1, 2, 2, 12, 12, 1, -1], time=2500, cost=600, extra=TAB, partial=True))
        for q in (1024, 512, 100):
            for planar in (0, 1):
                for rot in range(4):
                    for nt, nf in ((2, 2), (4, 3), (3, 1)):
                        o.append(J("h_color_inverse", [3, 3, 2, 2, nt, nf, 100, 1 + rot * 5, rot, -1, q, planar, 0], time=600, cost=30))
                        o.append(J("h_color_inverse", [1, 2, 4, 1, nt, nf, 100, 30, rot, -1, q, planar, 1], time=600, cost=30))
    return o


@prop("C09", bounds="planes up to 17x9, one arbitrary coefficient in +-16384 at every position, and 2 at once; qualities 1..1024 (selected), both maximal values",
      outside="coefficients outside +-16384 (codec values stay below 8200)")
def c09(deep):
    o = []
    qs = (1, 2, 5, 16, 64, 100, 300, 511, 512, 513, 700, 1023, 1024)
    for (w, h) in ((5, 4), (3, 3), (1, 1), (1, 5), (2, 2), (8, 2), (9, 5)) + (((17, 9), (16, 16), (33, 5)) if deep else ()):
        for q in (qs if not deep else tuple(range(1, 1025, 31)) + qs):
            for top in (1024, 8192):
                if (w, h) != (5, 4) and not deep and q not in (5, 300, 513, 1024):
                    continue
                o.append(J("h_quant", [w, h, q, 0, top, -16384, 16383], time=200, cost=w * h / 8))
    # every quality
    for q in range(1, 1024, 16):
        o.append(J("h_quant", [2, 2, q, 0, 8192, -60, 60, 16 if q < 1009 else 15], time=200, cost=30))
        if deep:
            o.append(J("h_quant", [2, 2, q, 0, 8192, -16384, 16383, 16 if q < 1009 else 15], time=1200, cost=400, partial=True))
    # a lower limit of the quality
    for (w, h) in ((3, 3), (5, 4)):
        for (q, low, top) in ((5, 1, 8192), (5, 40, 8192), (300, 600, 8192), (300, 1023, 1024), (300, 1024, 1024), (1, 900, 1024), (700, 100, 8192)):
            o.append(J("h_quant", [w, h, q, low, top, -2000, 2000], time=200, cost=w * h / 4))
            o.append(J("h_quant_all", [w, h, q, low, top, -8000, 8000, 1, 2], time=300, cost=20))
    for (w, h, q, top) in ((4, 3, 300, 8192), (9, 7, 30, 8192), (5, 5, 1, 8192), (7, 3, 512, 1024), (8, 8, 100, 1024)):
        for first in (0, 5):
            o.append(J("h_quant_all", [w, h, q, 0, top, -8000, 8000, first, 2], time=300, cost=20))
    return o


@prop("C10", bounds="every prefix of streams of images up to 9x9 (one arbitrary sample), three encoders, downsampling 0..2; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="larger images; prefixes that end inside the colour program are shown not to panic in C02")
def c10(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 0), (5, 3, 1, 1, 2, 0, 0), (6, 5, 1, 1, 2, 0, 1), (3, 3, 1, 3, 7, 1, 0), (9, 9, 1, 1, 2, 0, 0), (1, 1, 1, 1, 7, 0, 0), (3, 2, 2, 1, 2, 0, 0),
                                               (7, 1, 1, 2, 2, 0, 2)):
            for q in (1024, 200):
                k += 1
                n = 40 + 4 * w * h * la * ch if not (w == 9) else 240
                for at, m, reach in ((0, n, (1, 2)),) if w < 9 else ((0, 12, ()), (34, 12, ()), (70, 12, ()), (-6, 6, ())) if not deep else ((0, n, (1, 2)),):
                    if w == 9 and not deep and q == 200 and at != -6:
                        continue
                    o.append(J("h_prefix", cfg(w, h, enc, k % 2, la, ch, block, q, 8, prog, (2, 3, 7)[k % 3], 1, 5 * k) + [d, at, m, 1], time=150 if not deep else 1500, cost=m * w * h / 80,
                               extra=TAB, reach=reach))
    if deep:
        for enc in (0, 1, 2):
            for first in range(0, 80, 9):
                o.append(J("h_prefix", cfg(10, 8, enc, 1, 1, 1, 2, 600, 8, 0, 3, 1, first) + [0, 0, 300, 1], time=1500, cost=300, extra=TAB, reach=(1, 2)))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_prefix", (1023, 300, 1024, 40, 700), lambda e, k: [k % 3, 40 + k, 10 if not deep else 60, k % 2, 97 + k], skip=((140, 129), (1, 2049), (1, 70000)) if not deep else ())
    return o


@prop("C11", bounds="images up to 9x9 (quick) / 16x12 (thorough), downsampling 1..3 while a level remains, one arbitrary sample, all encoders and filters; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="downsampling beyond the coarsest level (nothing is decoded)", assumptions=["at least one resolution level remains"])
def c11(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 1), (5, 3, 1, 1, 2, 0, 1), (3, 4, 1, 3, 7, 1, 1), (9, 9, 1, 1, 2, 0, 2), (9, 9, 1, 1, 2, 0, 3), (3, 3, 2, 2, 2, 6, 1), (6, 1, 1, 1, 7, 0, 2),
                                               (1, 5, 1, 2, 2, 5, 1), (7, 8, 1, 1, 3, 0, 1), (17, 2, 1, 1, 2, 0, 4), (2, 9, 1, 1, 7, 0, 3)) + (((16, 12, 1, 1, 2, 0, 1), (16, 12, 1, 1, 2, 0, 2), (16, 12, 1, 1, 3, 0, 3)) if deep else ()):
            for q in (1024, 1023, 700, 512, 300, 30):
                k += 1
                if not deep and (k + enc) % 3 and not (q in (700, 300) and d > 2):
                    continue
                for first in spots(w * h * la * ch, 4 if deep else 1):
                    o.append(J("h_compose", cfg(w, h, enc, k // 2 % 2, la, ch, block, q, (1, 8)[k % 2], prog, (2, 3, 6, 7)[k % 4], 1, first + (3 * k if not deep else 0)) + [d],
                               time=900 if deep else 120, cost=w * h * ch * (3 if prog else 1), extra=TAB))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_compose", (1023, 300, 1024, 40, 700), lambda e, k: [1 + k % 4], skip=((3, 2), (2, 3)))
        o += [J("h_compose", cfg(w, h, enc, (enc + w) % 2, la, ch, 2, (300, 1024, 700)[enc], 8, 0, 7, -6, w * h * la * ch - 3) + [1], time=60, extra=TAB) for (w, h, la, ch) in ((3, 2, 300, 1), (2, 3, 1, 300))]
    return o


@prop("C12", bounds="every buffer length from 0 to beyond the compressed size for images up to 9x9 with one arbitrary sample; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="larger images")
def c12(deep):
    o = []
    k = 0
    for prof in ("release", "checked"):
        for enc in (0, 1, 2):
            for (w, h, la, ch, block, prog, top) in ((4, 4, 1, 1, 7, 0, 200), (5, 3, 1, 1, 2, 0, 200), (3, 3, 1, 3, 7, 1, 300), (9, 9, 1, 1, 2, 0, 500), (1, 1, 1, 1, 7, 0, 80), (2, 2, 2, 2, 2, 6, 300)):
                k += 1
                if not deep and prof == "checked" and k % 2:
                    continue
                q = (1024, 1024, 300, 1024, 20)[k % 5]
                o.append(J("h_buffer", cfg(w, h, enc, k % 2, la, ch, block, q, 8, prog, (2, 3, 7, 4)[k % 4], 1, 7 * k) + [0, top // (1 if w < 9 or deep else 9), 1 if w < 9 or deep else 9], prof,
                           time=200 if not deep else 1500, cost=w * h * ch, extra=TAB, reach=(1, 2)))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_buffer", (1023, 300, 1024, 40, 700), lambda e, k: [20 + 7 * k, 16 if not deep else 100, 101], skip=((140, 129), (1, 70000)) if not deep else ())
    return o


@prop("C14", bounds="images up to 17x17, and some up to 200x190 and as thin as 1x300, every value of each channel (1-4 channels, 1-2 layers), 12 qualities, chroma scales 1..255, predefined and user-defined programs, "
                    "all encoders and filters, and the downsampled versions", outside="larger images")
def c14(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h, la, ch, block, prog, d) in ((1, 1, 1, 1, 7, 0, 0), (5, 4, 1, 1, 2, 0, 1), (4, 4, 1, 3, 7, 1, 1), (17, 17, 1, 1, 2, 0, 3), (3, 7, 1, 3, 3, 3, 0), (9, 2, 2, 2, 2, 6, 1), (8, 8, 1, 4, 7, 2, 2)):
                for q, cs in ((1024, 8), (1023, 1), (700, 255), (512, 8), (100, 3), (10, 8), (1, 1), (1, 8)):
                    k += 1
                    if not deep and k % 3:
                        continue
                    o.append(J("h_uniform", cfg(w, h, enc, filt, la, ch, block, q, cs, prog, 0, 1) + [d], time=200, cost=w * h * ch, extra=TAB))
            o.append(J("h_uniform", cfg(4, 3, enc, filt, 1, 2, 7, (1024, 300, 7)[enc], 8, 0, 0, 2) + [1], time=200, cost=100, extra=TAB))
            # long zero runs, thin images, many levels and blocks
            for (w, h, la, ch, block, prog, d) in ((2, 200, 1, 1, 7, 0, 1), (200, 2, 1, 1, 7, 0, 2), (1, 300, 1, 2, 7, 5, 3), (300, 3, 1, 1, 2, 0, 1), (129, 129, 1, 1, 7, 0, 4), (65, 33, 1, 3, 3, 1, 0), (200, 190, 1, 1, 9, 0, 2),
                                                   (33, 100, 2, 1, 5, 0, 5), (3, 70, 1, 3, 2, 3, 1), (17, 9, 3, 2, 2, 6, 1), (9, 9, 1, 1, 30, 0, 1)):
                k += 1
                if not deep and ((k + enc) % 2 or enc == 0 and w * h > 3000):
                    continue
                o.append(J("h_uniform", cfg(w, h, enc, filt, la, ch, block, (1024, 300, 7, 1023, 90)[k % 5], (8, 1, 3)[k % 3], prog, 0, 1 if w * h < 1000 else -4, 37 * k % 250) + [d], time=120 if not deep else 900, cost=w * h * la * ch / 50, fuel=10**12, extra=TAB,
                           reach=(), partial=True))
            if deep:
                o.append(J("h_uniform", cfg(4, 3, enc, filt, 1, 2, 7, (1024, 300, 7)[enc], 8, 5, 0, 2) + [1], time=1200, cost=100, extra=TAB, partial=True))
    return o


@prop("C15", bounds="as C01 and C06, in the overflow-checked build; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="as C01")
def c15(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h, la, ch, block, prog) in ((4, 4, 1, 1, 7, 0), (5, 3, 1, 1, 2, 0), (3, 4, 1, 3, 7, 1), (4, 2, 1, 3, 7, 2), (4, 2, 1, 4, 7, 3), (9, 9, 1, 1, 2, 0), (1, 1, 1, 1, 7, 0), (6, 1, 1, 1, 7, 0), (2, 3, 1, 3, 2, 4)):
                for q in (1024, 1023, 300, 1):
                    k += 1
                    if not deep and k % 2:
                        continue
                    for first in spots(w * h * la * ch, 3 if deep else 1):
                        o.append(J("h_compose", cfg(w, h, enc, filt, la, ch, block, q, (1, 8)[k % 2], prog, (4, 3, 6, 2)[k % 4], 1, first + (k * 7 if not deep else 0)) + [0], "checked",
                                   time=600 if deep else 120, cost=w * h * ch * (3 if prog else 1), extra=TAB))
    # blocks whose coefficients are as large as the codec makes them
    for enc in (0, 1, 2):
        for (w, h, bs, step) in ((9, 9, 16, 1), (7, 7, 4, 1), (12, 10, 16, 2)):
            for first in spots(w * h, 6 if deep else 3):
                for pat in (7, 8, 4):
                    k += 1
                    o.append(J("h_block", [w, h, bs, step, enc, (1023, 1024, 300)[k % 3], k % 2, k // 2 % 2, 1, pat, first, 1, 1, -18500, 18500], "checked", time=200, cost=w * h / 8,
                               extra=TAB16))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_compose", (1023, 300, 1024, 40, 700), lambda e, k: [k % 2], profile="checked")
    o += contrast(deep, "h_compose", lambda e, k: [0], profile="checked")
    return o


@prop("C13", bounds="streams of images up to 9x9 with one arbitrary sample or one arbitrary stream byte; every parallel loop of the rayon build run as tasks in five orders, "
                    "all pairs of tasks of one region examined for conflicting accesses; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="larger images; the interleaving inside rayon itself",
      assumptions=["tasks whose byte accesses do not conflict commute, so the orders run represent all schedules (data-race freedom)"])
def c13(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 0), (5, 3, 1, 1, 2, 0, 1), (3, 3, 1, 3, 7, 1, 0), (9, 9, 1, 1, 2, 0, 0), (2, 2, 2, 2, 2, 6, 0), (9, 6, 1, 2, 2, 5, 1)):
                for q in (1024, 300) if not deep else (1024, 700, 300, 20):
                    k += 1
                    if not deep and k % 2:
                        continue
                    o.append(J("h_par", cfg(w, h, enc, filt, la, ch, block, q, (1, 8)[k % 2], prog, (2, 3, 7)[k % 3], 1, 5 * k) + [k % 5, (k + 2) % 5, d], variant="par", time=150 if not deep else 900,
                               cost=w * h * ch, extra=TAB))
        o.append(J("h_par_damage", cfg(4, 4, enc, 0, 1, 1, 7, 1024, 8, 0, 3, 0) + [1, 0, 60, 1, 0], variant="par", time=150, cost=40, extra=TAB, reach=(1, 2)))
        o.append(J("h_par_damage", cfg(9, 5, enc, 1, 1, 1, 2, 300, 8, 0, 2, 0) + [3, 0, 150, 1, 0], variant="par", time=150, cost=100, extra=TAB, reach=(1,)))
        o.append(J("h_par_damage", cfg(5, 5, enc, 1, 1, 2, 2, 300, 8, 5, 2, 0) + [4, 20, 80, 1, 7], variant="par", time=150, cost=100, extra=TAB, reach=()))
        o.append(J("h_par_buffer", cfg(5, 4, enc, 1, 1, 2, 2, 1024, 8, 0, 3, 1, 5) + [1 + enc, 120, 180], variant="par", time=150, cost=100, extra=TAB, reach=(1, 2)))
    # the default build decides by size whether to run in parallel
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 0), (5, 3, 1, 3, 7, 1, 1), (9, 6, 2, 1, 2, 0, 0)):
                k += 1
                o.append(J("h_par", cfg(w, h, enc, filt, la, ch, block, (1024, 300)[k % 2], 8 if k % 2 else 1, prog, 2, 1, 5 * k) + [1, 2, d], variant="ada", time=150, cost=w * h * ch, extra=TAB))
        o.append(J("h_par_damage", cfg(5, 5, enc, enc % 2, 1, 2, 2, 300, 8, 5, 2, 0) + [1, 20, 80, 1, 0], variant="ada", time=150, cost=100, extra=TAB, reach=()))
        if enc == 1 or deep:
            o.append(J("h_par_buffer", cfg(5, 4, enc, 1, 1, 2, 2, 1024, 8, 0, 3, 1, 5) + [1, 120, 180], variant="ada", time=150, cost=100, extra=TAB, reach=(1, 2)))
        for i, (w, h) in enumerate(((64, 64), (65, 64), (96, 97), (96, 96), (128, 128), (129, 128))):
            if i % 3 == enc or deep:
                o.append(J("h_par", cfg(w, h, enc, i % 2, 1, 1, (3, 7)[enc % 2], (300, 1024)[i // 2 % 2], 1, 0, 7, -4, 999) + [1, 2, i % 2], variant="ada", time=60 if not deep else 900, cost=w * h / 300,
                           fuel=10**12, reach=(), partial=True, extra=TAB))
        o += large(deep, enc, "h_par", (1023, 300, 1024, 40, 700), lambda e, k: [k % 5, (k + 2) % 5, k % 3], skip=((140, 129), (1, 2049), (1, 70000)) if not deep else (), variant="par")
    return o


@prop("C16", bounds="images up to 9x9 (quick) / 17x13 (thorough), 1-4 channels, 1-2 layers, block exponents 2..7, seven colour programs, one arbitrary sample (or two in small images) on patterned backgrounds, "
                    "qualities 1..1024, downsampling 0..2, every prefix of whole words; also images up to 300x300, rows up to 70000 and up to 300 layers or channels with one sample in a range of 6 values",
      outside="larger images; downsampled Turbo streams (the original decodes them wrongly); prefixes of partial words and those this library refuses; signed and 16-bit samples and Bayer mode (unsupported here)",
      assumptions=["the original is compiled with wrapping signed arithmetic"])
def c16(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 0), (5, 3, 1, 1, 2, 0, 1), (3, 4, 1, 3, 7, 1, 0), (4, 3, 1, 3, 2, 2, 1), (3, 3, 1, 3, 7, 3, 0), (9, 9, 1, 1, 2, 0, 0), (2, 3, 2, 2, 2, 6, 0), (6, 2, 1, 2, 3, 5, 1),
                                                   (1, 7, 1, 4, 7, 4, 0), (1, 1, 1, 2, 7, 7, 0), (9, 7, 1, 1, 2, 0, 2)) + (((17, 13, 1, 1, 2, 0, 0), (12, 9, 1, 3, 3, 3, 1)) if deep else ()):
                for q in (1024, 1023, 512, 300, 64, 3):
                    k += 1
                    if not deep and (prog == 5 and q < 300 or w * h > 70 and k % 2 or (k * 7 + k // 6 + enc) % (5 if w >= 9 else 3)):
                        continue
                    if enc == 0:
                        d = 0
                    for first in spots(w * h * la * ch, 3 if deep else 1):
                        o.append(J("h_ref", cfg(w, h, enc, filt, la, ch, block, q, (1, 8, 3)[k % 3], prog, (2, 3, 6, 7, 4)[k % 5], 1, first + (k * 5 if not deep else 0)) + [d], variant="ref", time=150 if not deep else 900,
                                   cost=w * h * ch * (3 if prog else 1), extra=TAB))
            for (w, h, la, ch, block, prog, d) in ((4, 4, 1, 1, 7, 0, 0), (5, 4, 1, 1, 2, 0, 1), (3, 3, 1, 3, 7, 1, 0), (3, 2, 2, 1, 2, 0, 0)):
                for q in (1024, 200):
                    k += 1
                    if not deep and (k + filt) % 4 > (w < 4):
                        continue
                    if enc == 0:
                        d = 0
                    n = 12 + w * h * la * ch
                    o.append(J("h_ref_prefix", cfg(w, h, enc, filt, la, ch, block, q, 8, prog, (2, 3, 7)[k % 3], 1, 5 * k) + [d, 0, n, 4], variant="ref", time=150 if not deep else 900, cost=n * w * h / 20,
                               extra=TAB, reach=(1, 2)))
    for enc in (0, 1, 2):
        o += large(deep, enc, "h_ref", (1023, 300, 1024, 40, 700), lambda e, k: [k % 3 if e else 0], skip=((1, 2049), (17, 129)) if not deep else (), variant="ref")
        for filt, (w, h, la, ch, block, prog, words) in enumerate(((4, 4, 1, 1, 7, 0, 2), (3, 3, 1, 3, 2, 1, 1), (5, 3, 2, 2, 2, 6, 3))):
            for q in (1024, 300):
                k += 1
                o.append(J("h_ref_meta", cfg(w, h, enc, k % 2, la, ch, block, q, 8, prog, (2, 3, 7)[k % 3], 1, 5 * k) + [k % 2 if enc else 0, words], variant="ref", time=150 if not deep else 900, cost=w * h * ch * 3,
                           extra=TAB))
    o += contrast(deep, "h_ref", lambda e, k: [k % 3 if e else 0], variant="ref")
    return o


@prop("C17", bounds="images up to 9x9 with one arbitrary sample, images up to 140x129 with a sample in a range of 6 values; up to 3 words of metadata, two bytes of them arbitrary; transfers of 1 to 64 bytes; downsampling 0..3",
      outside="sources and destinations that fail part-way")
def c17(deep):
    o = []
    k = 0
    for enc in (0, 1, 2):
        for filt in (0, 1):
            for (w, h, la, ch, block, prog) in ((4, 4, 1, 1, 7, 0), (5, 3, 1, 1, 2, 0), (3, 4, 1, 3, 7, 1), (4, 2, 1, 4, 7, 3), (2, 3, 2, 2, 2, 6), (1, 1, 1, 3, 7, 2), (9, 9, 1, 1, 2, 0), (3, 2, 1, 2, 3, 5), (6, 1, 1, 3, 7, 4), (2, 2, 1, 2, 2, 7)):
                for q in (1024, 300, 30) if not deep else (1024, 1023, 700, 300, 30, 1):
                    k += 1
                    for first in spots(w * h * la * ch, 4 if deep else 1):
                        o.append(J("h_stages", cfg(w, h, enc, filt, la, ch, block, q, (1, 8, 3)[k % 3], prog, (2, 3, 6, 7)[k % 4], 1, first + 5 * k) + [k % 3, k % 4, (1, 3, 64, 5, 7)[k % 5]],
                                   time=120 if not deep else 900, cost=w * h * ch * (3 if prog else 1), extra=TAB))
        o += large(deep, enc, "h_stages", (1023, 300, 1024, 40, 700), lambda e, k: [k % 4, k % 4, 1 + k % 7])
    return o


@prop("C18", bounds="images of any size up to 300x300 with up to 25 blocks per channel and up to 3 channels, any cell; any pair of coordinates; slices of every length up to 60 and every step up to 20; "
                    "streams of any length up to 100000 with up to 8 sizes of any 32-bit value",
      outside="more blocks, images of width or height zero, steps of zero; reading the first cell of another block's area through the safe interface (granted as the code does)")
def c18(deep):
    o = []
    for p in ((5, 5, 1, 0, 0, 0), (20, 20, 2, 2, 0, 0), (40, 40, 1, 2, 1, 0), (70, 12, 2, 2, 2, 0), (12, 70, 1, 2, 2, 0), (300, 300, 1, 2, 4, 0), (9, 9, 3, 2, 0, 0), (4, 4, 3, 0, 0, 0), (8, 1, 2, 0, 0, 0), (1, 8, 2, 0, 0, 0)):
        o.append(J("h_split_image", list(p), time=200 if not deep else 900, cost=30))
    for p in ((4, 4, 1, 0, 0, 1), (6, 6, 1, 1, 0, 1), (4, 3, 2, 1, 0, 1), (6, 4, 2, 1, 1, 1)) + (((6, 6, 2, 1, 0, 1), (5, 5, 2, 0, 0, 1), (12, 12, 2, 2, 0, 1)) if deep else ()):
        o.append(J("h_split_image", list(p), time=200 if not deep else 2000, cost=60))
    for (w, h, ch, b, st) in ((9, 7, 2, 2, 0), (9, 7, 1, 2, 1), (8, 8, 2, 2, 0), (17, 10, 1, 2, 1), (1, 9, 2, 2, 0), (9, 1, 1, 2, 1), (3, 3, 3, 2, 0), (33, 20, 1, 3, 1), (20, 33, 1, 2, 2)) + (((64, 65, 2, 2, 2), (40, 41, 2, 2, 1)) if deep else ()):
        for prof in ("release", "checked"):
            o.append(J("h_split_access", [w, h, ch, b, st], profile=prof, time=200 if not deep else 900, cost=w * h / 10, reach=(1, 2) if w > 4 << st or h > 4 << st else (1,)))
            for bits in (64, 40):
                o.append(J("h_split_far", [w, h, ch, b, st, bits], profile=prof, time=200, cost=5))
    for (n, k) in ((20, 6), (30, 3), (25, 20), (16, 1)) + (((60, 20), (60, 4)) if deep else ()):
        for d in (0, 1):
            o.append(J("h_split_overlap", [n, k, d], time=200 if not deep else 2000, cost=n))
    for (n, k) in ((20, 3), (100000, 5), (3, 6), (400, 1), (1000, 8)):
        o.append(J("h_split_variable", [n, k], time=200, cost=10))
    return o


@prop("C19", bounds="up to 3 faults at any transfers (2 within the first 24, 3 within the first 12), each a shortened transfer, an interruption, one of three errors or an end; 1 to 64 bytes per transfer; "
                    "header quality, one colour factor and one coefficient arbitrary; programs of up to 20 transforms, areas up to 12x12",
      outside="continuing with the same stream after an error was reported")
def c19(deep):
    o = []
    every = (1, 2, 3, 4)
    for step in (1, 2, 3, 5, 64) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 64):
        for (n, f) in ((40, 1), (24, 2), (12, 3)) if not deep else ((80, 1), (50, 2), (24, 3)):
            if f == 3 and step != 3 and not deep:
                continue
            o.append(J("h_fault_header", [n, step, f, 5 + step, 7], time=200 if not deep else 1500, reach=every, cost=f * f * n / 4))
            for (prog, ch, extra) in ((0, 1, 0), (1, 3, 0), (2, 3, 0), (3, 4, 0), (5, 2, 1), (0, 5, 8), (0, 3, 20)):
                if f > 1 and not deep and (prog + step + extra) % 3:
                    continue
                o.append(J("h_fault_program", [n, step, f, prog, ch, extra], time=200 if not deep else 1500, reach=every, cost=f * f * n / 4, extra=TAB))
            for (w, h, enc, q, dc, chroma, pat) in ((6, 5, 2, 3, 1, 0, 1), (6, 5, 1, 0, 0, 1, 2), (5, 6, 0, 0, 1, 0, 5), (4, 4, 0, 5000, 0, 0, 3), (12, 12, 1, 2, 1, 0, 5), (3, 3, 2, 9, 0, 1, 4), (1, 2, 0, 0, 1, 0, 0), (12, 7, 2, 0, 1, 1, 3)):
                if f > 1 and not deep and (w + step + enc) % 3:
                    continue
                o.append(J("h_fault_block", [n, step, f, w, h, enc, q, dc, chroma, pat], time=200 if not deep else 1500, reach=every, cost=f * f * n / 3, extra=TAB))
    return o


@prop("C20", bounds="images up to 9x6 (quick) / 17x13 (thorough), 1-4 channels, 1-2 layers, with one arbitrary sample (or one or two in a range of 6 values); before the call, between compressing and decompressing, or both: "
                    "compressing, decompressing, downsampled decompressing, decompressing a prefix, test mode, compressing without room, decompressing damaged data and rejecting bad headers, of an image that differs in one or several of "
                    "size, quality, chroma scale, block size, filter, encoder, channels, layers and colour program; parallel and default-features builds",
      outside="larger images; more than two rounds of other calls; calls on other threads at the same time (C09 and C13 cover the library's own threads); destructors of thread-locals",
      assumptions=["rayon's scheduling is any permutation of the tasks (a stub executes them one after another)"])
def c20(deep):
    o = []
    k = 0
    base = dict(w=5, h=4, enc=1, filt=0, layers=1, ch=2, block=2, quality=700, cs=8, prog=5, pat=2)

    def job(a, b, kinds, when, d, cut, nsym):
        nonlocal k
        k += 1
        c = dict(a, nsym=nsym, first=3 + 5 * k)
        o.append(J("h_history", cfg(**c) + cfg(**dict(b, pat=(3, 5, 7)[k % 3], nsym=0)) + [kinds, when, d, cut], variant=("ada", "par")[k % 2], time=150 if not deep else 900,
                   cost=3 * (c["w"] * c["h"] * c["ch"] * c["layers"] + b["w"] * b["h"] * b["ch"] * b["layers"]), extra=TAB, reach=(1,)))

    changes = [dict(), dict(quality=1024), dict(quality=300), dict(quality=1), dict(cs=1), dict(block=7), dict(filt=1), dict(enc=0), dict(enc=2), dict(w=9), dict(h=7), dict(w=3, h=3), dict(w=4, h=5), dict(w=2, h=2),
               dict(ch=4, prog=3), dict(ch=1, prog=0), dict(prog=0), dict(layers=2, prog=6, ch=2), dict(w=9, h=6, quality=1024, cs=1), dict(enc=0, filt=1, block=7), dict(w=3, h=2, ch=1, prog=0, quality=1), dict(ch=3, prog=1, quality=1000)]
    for enc in (0, 1, 2) if not deep else (0, 1, 2, 0, 1, 2):
        for i, ch in enumerate(changes):
            a = dict(base, enc=enc, filt=(i + enc) % 2)
            if i % 4 == 1:
                a.update(ch=1, prog=0, w=6, h=5)
            if i % 4 == 2:
                a.update(quality=1024, cs=1)
            if i % 4 == 3:
                a.update(ch=3, prog=1, w=4, h=3)
            b = dict(a, **{x: (v if x != "enc" else (enc + v + 1) % 3) for x, v in ch.items()})
            b["ch"] = max(b["ch"], {0: 1, 1: 3, 2: 3, 3: 4, 5: 2, 6: 2}[b["prog"]])
            kinds = (255, 3, 255, 16 + 64, 255, 1 + 4 + 8, 255, 32 + 128 + 2)[i % 8]
            small = enc == 1
            if (i + enc) % 3 == 1:
                a, b = b, a
            job(a, b, kinds, (3, 1, 3, 2, 3)[(i + 2 * enc) % 5] + 4 * (i % 4 == 1), i % 2 if i % 5 else 0, 0 if (i + enc) % 3 else 1, 1 if small or i % 2 else -4)
            if deep:
                job(b, a, 255, 3, 1, 2, 1)
                job(dict(a, w=17, h=13), b, 255, 3, 0, 1, -4)
        # a large call before a small one and the other way round
        for (w, h, w2, h2) in ((5, 4, 33, 31), (33, 31, 5, 4), (65, 3, 3, 65), (4, 4, 70, 70)):
            a = dict(base, enc=enc, w=w, h=h, ch=1, prog=0)
            job(a, dict(a, w=w2, h=h2), 255 if w * h < 100 else 7, 3, enc % 2, 1, -3)
    return o


@prop("C21", bounds="images up to 9x7 (quick) / 17x13 (thorough), up to 5 channels and 3 layers with any set of chroma channels, one arbitrary sample (or one in a range of 6 values) in one of the channels on patterned backgrounds, "
                    "qualities 1..1024, chroma scales 1..256, block exponents 2..30, every pair of encoders, both filters, downsampling 0..2; also images up to 130x129 and 60 channels with one sample in a range of 4 values",
      outside="larger images; several arbitrary samples at once; colour programs (C08)")
def c21(deep):
    o = []
    k = 0
    shapes = [(5, 4, 1, 3, 5, 7), (4, 4, 2, 2, 6, 2), (3, 3, 1, 4, 10, 7), (7, 2, 3, 1, 2, 3), (2, 2, 2, 2, 0, 2), (9, 7, 1, 2, 2, 2), (1, 5, 1, 3, 4, 30), (6, 1, 2, 1, 1, 2), (1, 1, 3, 2, 9, 7), (5, 5, 1, 5, 21, 3), (8, 8, 1, 2, 1, 2)]
    if deep:
        shapes += [(17, 13, 1, 2, 2, 2), (12, 9, 2, 2, 5, 3), (3, 16, 1, 3, 2, 4), (10, 10, 3, 1, 4, 5)]
    for enc in (0, 1, 2):
        for i, (w, h, la, ch, mask, block) in enumerate(shapes):
            for q, cs in ((1024, 1), (1024, 8), (700, 8), (300, 3), (1023, 2), (40, 1), (1, 200), (512, 16)):
                k += 1
                if not deep and (k + enc) % 2:
                    continue
                e2 = (enc, enc, (enc + 1) % 3, (enc + 2) % 3, enc)[k % 5]
                b2 = block if k % 3 else (2, 7, 4)[k % 9 // 3]
                d = k // 3 % 3 if max(w, h) > 4 else k // 3 % 2 if max(w, h) > 2 else 0
                n = 1 if enc == 1 or q > 300 or w * h < 12 else -6
                o.append(J("h_alone", cfg(w, h, enc, (k + i) % 2, la, ch, block, q, cs, 0, (2, 3, 5)[k % 3], n, 7 * k + i, 1) + [d, mask, e2, b2, k % 6, k // 2 % 6], time=150 if not deep else 900,
                           cost=w * h * ch * la * (6 if n == 1 else 1), extra=TAB, reach=(1,)))
        for (w, h, la, ch, mask, block, q, d) in ((65, 64, 1, 2, 2, 3, 700, 0), (130, 129, 1, 1, 0, 4, 1024, 1), (6, 5, 1, 60, 0x5a5a5a, 2, 700, 0), (6, 5, 30, 2, 0x33333, 3, 300, 1), (3, 300, 1, 2, 1, 2, 1024, 0)):
            k += 1
            o.append(J("h_alone", cfg(w, h, enc, k % 2, la, ch, block, q, 8, 0, 7, -4, 999, 1) + [d, mask, enc if k % 2 else (enc + 1) % 3, block, 0, k % 6], time=60 if not deep else 900, cost=w * h * ch * la / 20, fuel=10**12, partial=True, extra=TAB))
    return o

import itertools
from vp import H
ALLOC = ["core/allocator.c"]
SPECS = {}
IP = ["core/ip-address.c"]
SPECS["C01"] = dict(harnesses=[
    H("h_ipv4_parse", "ip.c", srcs=IP, unwind=22, defs=["-DN=18"],
      bound="every string of up to 18 arbitrary bytes, arbitrary previous address contents")])
def v6(prefix, tail, **k):
    n = len(prefix) + tail
    return H("h_ipv6_parse_%d_%d" % (n, tail), "ip.c", entry="h_ipv6_parse", srcs=IP, unwind=max(20, n + 2),
             defs=["-DN=%d" % n, "-DTAIL=%d" % tail, '-DPREFIX="%s"' % prefix],
             bound="'%s' followed by every string of up to %d arbitrary bytes" % (prefix, tail), **k)
T = ("thorough",)
SPECS["C02"] = dict(harnesses=[
    v6("", 7, tiers=("quick",)), v6("", 9, tiers=T, timeout=7000),
    v6("1:2:3:4:5:6:", 6), v6("1:2:3:4:5:6:7:", 5), v6("1:2:3:4:5:6:7::", 4), v6("::255.255.", 6), v6("1::3:4:5:6:7:", 5),
    v6("::255.255.", 8, tiers=T, timeout=7000), v6("1:2:3:4:5:6:", 8, tiers=T, timeout=7000), v6("::", 8, tiers=T, timeout=7000),
    v6("1:2:3:4:5:6:255.", 8, tiers=T, timeout=7000), v6("1:2::", 8, tiers=T, timeout=7000)])
def v6rt(lo, hi, digits, **k):
    return H("h_ipv6_roundtrip_%02x_%02x_%d" % (lo, hi, digits), "ip.c", entry="h_ipv6_roundtrip", srcs=IP, unwind=50, extra=["vp_printf.c"],
             defs=["-DN=46", "-DMLO=%d" % lo, "-DMHI=%d" % (hi + 1), "-DDIGITS=%d" % digits],
             bound="every address whose zero groups are given by the masks %02x..%02x" % (lo, hi), **k)
QUICK_MASKS = [0x00, 0xFF, 0x3F, 0x1F, 0x7F, 0xFE, 0xC0, 0x66, 0x18, 0x55, 0x33, 0x77, 0xEE, 0x81, 0x01, 0x80]
SPECS["C03"] = dict(harnesses=[
    H("h_ip_parse_5", "ip.c", entry="h_ip_parse", srcs=IP, unwind=22, defs=["-DN=5", "-DNO4"], bound="every string of up to 5 bytes"),
    H("h_ip_parse_4", "ip.c", entry="h_ip_parse", srcs=IP, unwind=22, defs=["-DN=8", '-DPREFIX="1.2."', "-DTAIL=4", "-DNO6"], bound="'1.2.' followed by every string of up to 4 bytes"),
    H("h_ip_parse_7", "ip.c", entry="h_ip_parse", srcs=IP, unwind=22, defs=["-DN=7"], tiers=T, bound="every string of up to 7 bytes"),
    H("h_ipv4_roundtrip", "ip.c", srcs=IP, unwind=22, defs=["-DN=18"], extra=["vp_printf.c"], bound="all addresses"),
    H("h_ip_generic", "ip.c", srcs=IP, unwind=22, bound="all pairs of addresses"),
    H("h_ip_print_dispatch", "ip.c", srcs=IP, unwind=50, extra=["vp_printf.c"], bound="all addresses")] +
    [v6rt(m, m, 0, tiers=("quick",)) for m in QUICK_MASKS] +
    [v6rt(m, m + 3, 0, tiers=T, timeout=3000) for m in range(0, 256, 4)])
SPECS["C04"] = dict(harnesses=[
    H("h_cidr4", "ip.c", srcs=IP, unwind=40, bound="all addresses, all prefixes"),
    H("h_cidr6", "ip.c", srcs=IP, unwind=130, bound="all addresses, all prefixes")])
U128 = ["core/u128.c"]
FALLBACK = ["-DCORK_CONFIG_HAVE_GCC_INT128=0", "-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0"]
SPECS["C05"] = dict(harnesses=[
    H(e + s, "u128.c", entry=e, srcs=U128, unwind=18, libdefs=d,
      bound="all 128-bit operands%s; %s representation" % (", shifts 0..127" if "shift" in e else "", n))
    for (s, d, n) in (("", [], "native"), ("_fallback", FALLBACK, "two-word"))
    for e in ("h_u128_compare", "h_u128_addsub", "h_u128_shift", "h_u128_access")])
SPECS["C06"] = dict(harnesses=[
    H("h_u128_hex_%d" % p, "u128.c", entry="h_u128_hex", srcs=U128, unwind=50, defs=["-DPADDED=%d" % p],
      extra=["vp_printf.c"], bound="all 128-bit values") for p in (0, 1)] + [
    H("h_u128_decimal_%d_%d%s" % (sh, b, "n" if ones else ""), "u128.c", entry="h_u128_decimal", srcs=U128, unwind=130,
      defs=["-DPADDED=0", "-DBITS=%d" % b, "-DSHIFT=%d" % sh] + (["-DONES"] if ones else []),
      bound="values with %d free bits at bit %d, the other bits %s" % (b, sh, "one" if ones else "zero"))
    for (sh, b) in ((0, 8), (28, 8), (60, 8), (92, 8), (120, 8)) for ones in (0, 1) if not (ones and sh in (28, 60))])
SPECS["C07"] = dict(harnesses=[
    H("h_swap%d" % w, "bits.c", srcs=U128, unwind=20, bound="all values, 11 argument expression shapes")
    for w in (16, 32, 64, 128)])
TS = ["core/timestamp.c"]
SPECS["C08"] = dict(harnesses=[H("h_ts_parts", "bits.c", srcs=TS, unwind=4, bound="all values")] + [
    H("%s_%s" % (e, u), "bits.c", entry=e, srcs=TS, unwind=4,
      defs=["-DUNIT=%s" % u, "-DDENOM=%sULL" % d], portfolio=[["@int"], ["--cvc5"]], bound="every second and every fraction")
    for e in ("h_ts_unit_roundtrip", "h_ts_unit_read")
    for (u, d) in (("msec", 1000), ("usec", 1000000), ("nsec", 1000000000))])
HASHP = [["--z3"], ["--cvc5"], []]
SPECS["C10"] = dict(harnesses=[
    H("%s_%d" % (e, n), "hash.c", entry=e, srcs=["core/hash.c"], unwind=40, defs=["-DLEN=%d" % n],
      portfolio=HASHP, bound="every %d-byte buffer, unaligned, every seed" % n)
    for e, ns in (("h_hash_stable", (0, 1, 2, 3, 4, 5, 7, 8, 11)), ("h_hash_big", (0, 1, 7, 8, 9, 15, 16, 17, 31, 32)),
                  ("h_hash_buffer", (0, 3, 8, 13, 16, 20))) for n in ns] + [
    H("h_hash_misc", "hash.c", srcs=["core/hash.c"], unwind=40, portfolio=HASHP, bound="all values")])
ARR = ["core/allocator.c", "ds/array.c"]
def arr(pre, drop, tail, **k):
    return H("h_array_ops_%d_%d_%d" % (pre, drop, tail), "array.c", entry="h_array_ops", srcs=ARR, unwind=50, extra=["vp_mem.c"],
      defs=["-DPRE=%d" % pre, "-DDROP=%d" % drop, "-DSTEPS=1", "-DTAIL=%d" % tail, "-DRESERVE=%d" % (pre + 2)],
      bound="%d appends, %d removed again, then any one operation with every index, count and value, then %d appends" % (pre, drop, tail), **k)
RING = [1, 2, 3, 5]
SPECS["C12"] = dict(harnesses=[
    H("h_ring_fifo_%d_%d" % (n, st), "ring.c", entry="h_ring_fifo", srcs=ALLOC + ["ds/ring-buffer.c"], unwind=st + 4, leak=True,
      defs=["-DCAP=%d" % n, "-DSTEPS=%d" % st], tiers=t, bound="capacity %d, every sequence of %d operations" % (n, st))
    for n, st, t in ((1, 8, ("quick", "thorough")), (2, 8, ("quick", "thorough")), (3, 8, ("quick", "thorough")), (5, 10, ("quick", "thorough")),
                     (4, 16, T), (7, 20, T))])
SPECS["C14"] = dict(harnesses=[arr(*x) for x in ((0,0,1),(1,0,1),(1,1,1),(2,0,1),(2,1,1),(3,0,1),(4,2,1),(5,0,0),(5,1,1))] + [
    H("h_array_copy_%d_%d_%d" % x, "array.c", entry="h_array_copy", srcs=ARR, unwind=50, extra=["vp_mem.c"],
      defs=["-DPRE=%d" % x[0], "-DDPRE=%d" % x[1], "-DDROP=%d" % x[2], "-DSTEPS=1","-DTAIL=0","-DRESERVE=2"],
      bound="source of %d elements, destination of %d with %d removed, every value, with and without a (failing) copy callback" % x)
    for x in ((0,0,0),(0,2,1),(2,0,0),(1,3,1),(3,2,1),(3,1,0),(4,4,4))])
SPECS["C11"] = dict(harnesses=[
    H("h_bitset_%d" % n, "bitset.c", entry="h_bitset", srcs=ALLOC + ["ds/bitset.c"], unwind=n + 10, defs=["-DNB=%d" % n, "-DN=%d" % max(n, 1), "-DSTEPS=%d" % st],
      bound="%d bits, every sequence of %d writes (any index, any value) and clears" % (n, st))
    for n, st in ((0, 1), (1, 4), (2, 4), (3, 4), (4, 4), (5, 4), (6, 4), (7, 4), (8, 4), (9, 4), (12, 4), (15, 4), (16, 3), (17, 3), (20, 3), (24, 3), (25, 3), (31, 3), (33, 3))] + [
    H("h_bitset_size", "bitset.c", srcs=ALLOC + ["ds/bitset.c"], unwind=20, defs=["-DNB=8", "-DN=8", "-DSTEPS=1"], bound="every bit count up to 64")])
DL = ["ds/dllist.c"]
SPECS["C13"] = dict(harnesses=[
    H("h_dllist_ops_%d" % k, "dllist.c", entry="h_dllist_ops", srcs=DL, unwind=40, defs=["-DK=%d" % k, "-DVK=%d" % (k - 1)], tiers=t, timeout=3000,
      bound="from every pair of lists with fewer than %d items in all, any operation at any position (inductive step)" % k) for k, t in ((5, ("quick", "thorough")), (8, T))] + [
    H("h_dllist_visit_%d" % k, "dllist.c", entry="h_dllist_visit", srcs=DL, unwind=40, defs=["-DK=%d" % (k + 1), "-DVK=%d" % k], tiers=t, timeout=3000,
      bound="a list of up to %d items, a visit or map stopping anywhere and removing any items" % k) for k, t in ((4, ("quick", "thorough")), (6, T))])
BUF = ALLOC + ["ds/buffer.c", "ds/managed-buffer.c", "ds/slice.c"]
BX = ["vp_mem.c", "vp_printf.c"]
WR = ["-DVP_PRINTF_WRAPPED", "-DVP_LIGHT", "-DVP_BLOCKS=12"]
def chunked(n, name, file, entry, bound, defs=(), **k):
    k.setdefault("flags", ["--object-bits", "12", "--max-field-sensitivity-array-size", "256"])
    if k.get("unwind", 10) > 40: k.setdefault("inner", 40)
    return [H("%s_%d" % (name, c), file, entry=entry, defs=list(defs) + ["-DCHUNKS=%d" % n, "-DCHUNK=%d" % c],
              bound=bound + (" (part %d of %d)" % (c + 1, n) if n > 1 else ""), **dict(k)) for c in range(n)]
def buf(entry, a, l, n, **k):
    return chunked(n, "%s_%d" % (entry, a), "buffer.c", entry, srcs=BUF, unwind=60, extra=BX, defs=WR + ["-DALO=%d" % a, "-DAHI=%d" % a, "-DLHI=%d" % l, "-DNLMASK=0"],
             bound="storage of %d bytes with every fill, every operation, operand lengths up to %d, any contents" % (a, l), **k)
def bufx(n, name, entry, bound, defs=(), **k):
    return chunked(n, name, "buffer.c", entry, srcs=BUF, unwind=k.pop("unwind", 60), extra=BX, defs=WR + ["-DVP_STR_NONUL"] + list(defs) + ([] if any("NLMASK" in d for d in defs) else ["-DNLMASK=0"]), bound=bound, **dict(dict(inner=60), **k))
QT = ("quick", "thorough")
SPECS["C16"] = dict(harnesses=buf("h_buffer_ops", 0, 4, 1) + buf("h_buffer_ops", 1, 4, 2) + buf("h_buffer_ops", 2, 5, 4) + buf("h_buffer_ops", 4, 6, 10) +
    buf("h_buffer_ops", 8, 18, 40, tiers=T, timeout=3000) +
    bufx(1, "h_buffer_equal", "h_buffer_equal", "all contents of lengths 0..4") + bufx(1, "h_buffer_handover", "h_buffer_handover", "all contents of lengths 0..5"))
SPECS["C17"] = dict(harnesses=buf("h_buffer_printf", 0, 3, 1) + buf("h_buffer_printf", 1, 3, 1) + buf("h_buffer_printf", 4, 6, 4) +
    sum((bufx(1, "h_buffer_c_string_%d" % n, "h_buffer_c_string", "every %d-byte string" % n, ["-DSLEN=%d" % n], tiers=t) for n, t in ((0, QT), (1, QT), (2, QT), (4, T))), []) +
    bufx(16, "h_buffer_hex", "h_buffer_hex", "all contents of lengths 0,1,2,15,16,17,31,32,33,48,49, indents 0,2,4", unwind=300, inner=300) +
    sum((bufx(1, "h_buffer_binary_%d_%d" % (n, m), "h_buffer_binary", "every string of %d bytes; newlines at %s when printable" % (n, bin(m)), ["-DBLEN=%d" % n, "-DNLMASK=%d" % m]) for n, m in ((1, 1), (3, 1), (3, 6), (4, 5))), []))
AL = dict(srcs=ARR, unwind=50, extra=["vp_mem.c"])
LT = ["-DVP_LIGHT", "-DVP_BLOCKS=28"]
SPECS["C15"] = dict(harnesses=
    chunked(8, "h_array_life1", "arraylife.c", "h_array_life", "every callback combination, up to 3 elements, any one operation (append, clear, remove of any range, copy failing anywhere), append, done", LT + ["-DMAXPRE=3", "-DNOPS=1"], **AL) +
    chunked(8, "h_array_life2", "arraylife.c", "h_array_life", "three callback combinations, up to 1 element, any two operations, append, done", LT + ["-DMAXPRE=1", "-DNOPS=2"], **AL) +
    chunked(48, "h_array_life2_2", "arraylife.c", "h_array_life", "three callback combinations, up to 2 elements, any two operations, append, done", LT + ["-DMAXPRE=2", "-DNOPS=2"], tiers=T, timeout=3000, **AL) +
    chunked(2, "h_pointer_array", "arraylife.c", "h_pointer_array", "up to 4 pointers, any range removed or cleared", LT, **AL) +
    chunked(2, "h_string_array", "arraylife.c", "h_string_array", "copies between arrays of up to 2 strings", LT + ["-DVP_STALE_ANY"], **AL))
SL = ALLOC + ["ds/slice.c", "ds/managed-buffer.c"]
SLK = dict(srcs=SL, unwind=20, extra=["vp_mem.c"])
LTS = ["-DVP_BLOCKS=8"]
def ref_histories(steps, slots):
    """Sequences of reference operations that can happen (mirrors step() in slice.c)."""
    out = []
    def go(seq, refs, on):
        if len(seq) == steps or refs + len(on) == 0:
            out.append(sum(o * 8 ** i for i, o in enumerate(seq))); return
        for o in range(8):
            r, n = refs, dict(on)
            free = [k for k in range(slots) if k not in n]; live = sorted(n)
            if o in (0, 1):
                if not r: continue
                r += 1 if o == 0 else -1
            elif o == 2:
                if not r or not free: continue
                n[free[0]] = None
            else:
                if not live or (o in (6, 7) and len(live) < 2): continue
                f = live[-1] if o in (6, 7) else live[0]
                if o in (5, 6):
                    if f in n.values(): continue
                    del n[f]
                else:
                    if not free: continue
                    n[free[0]] = None if o == 3 else f
            go(seq + [o], r, n)
    go([], 1, {})
    return sorted(out)
def mlife(n, st, sl, **k):
    h = ref_histories(st, sl)
    return chunked(n, "h_managed_life_%d_%d" % (st, sl), "slice.c", "h_managed_life", "buffers of 4 bytes, wrapped and copied, every sequence of %d reference operations over %d slices (%d sequences)" % (st, sl, len(h)),
        LTS + ["-DSTEPS=%d" % st, "-DSLOTS=%d" % sl, "-DSEQS=" + ",".join(map(str, h))], srcs=SL, unwind=len(h) + 2, extra=["vp_mem.c"], **k)
SPECS["C18"] = dict(harnesses=mlife(8, 4, 2, tiers=("quick",)) + mlife(32, 5, 3, tiers=T, timeout=3000))
SPECS["C19"] = dict(harnesses=
    chunked(8, "h_slice_copy", "slice.c", "h_slice_copy", "parents of 0, 1, 5, 6 bytes of every kind, every offset and length", LTS, **SLK) +
    chunked(4, "h_slice_keep", "slice.c", "h_slice_keep", "parents of up to 2 bytes of every kind, every range, lifetimes and contents after every other reference is gone", LTS, **SLK) +
    chunked(4, "h_slice_inplace", "slice.c", "h_slice_inplace", "parents of 0, 1, 5, 6 bytes of every kind, every offset and length", LTS, **SLK) +
    chunked(2, "h_slice_managed", "slice.c", "h_slice_managed", "managed buffers of 0, 1, 5, 6 bytes and missing parents, every offset and length", LTS, **SLK) +
    chunked(1, "h_slice_equal", "slice.c", "h_slice_equal", "all contents of lengths 0..4", LTS, **SLK))
TSF = dict(srcs=ALLOC + ["core/timestamp.c", "ds/buffer.c"], unwind=70, inner=80, extra=["vp_mem.c", "vp_printf.c"])
LTB = ["-DVP_LIGHT", "-DVP_BLOCKS=4", "-DVP_PRINTF_LOG"]
SPECS["C09"] = dict(harnesses=
    chunked(12, "h_ts_spec", "tsfmt.c", "h_ts_spec", "48 formats covering every specifier, width and malformed width, every second, 512 fractions, every calendar field", LTB, **TSF) +
    sum((chunked(c, "h_ts_syntax_%d" % n, "tsfmt.c", "h_ts_syntax", "every format string of up to %d symbols of %%, text, Y, f, 2, 0, 9" % n, LTB + ["-DFLEN=%d" % n], tiers=t, **TSF) for n, c, t in ((3, 8, QT), (4, 40, T))), []) +
    chunked(8, "h_ts_byte", "tsfmt.c", "h_ts_byte", "any byte as specifier or as text", LTB, **dict(TSF, unwind=257)) +
    [H("h_ts_frac_%d" % w, "tsfmt.c", entry="h_ts_frac", srcs=TS, unwind=4, defs=["-DDENOM=%dULL" % 10 ** w], portfolio=[["@int"], ["--cvc5"]], bound="every fraction, %d digits" % w) for w in range(1, 10)])
def strm(n, script, **k):
    d = ["-DVP_LIGHT", "-DVP_BLOCKS=6", "-DSCRIPT=%d" % script]; kw = dict(k, srcs=ALLOC + ["ds/file-stream.c"], unwind=5 ** script + 2, extra=["vp_mem.c"])
    sc = "every script of up to %d partial transfers, interruptions and errors" % script
    return (chunked(n, "h_produce_%d" % script, "streams.c", "h_produce", sc + ", the consumer failing anywhere", d, **kw) +
            chunked(n, "h_produce_path_%d" % script, "streams.c", "h_produce_path", sc + ", the consumer, open or close failing", d, **kw) +
            chunked(n, "h_consume_%d" % script, "streams.c", "h_consume", sc + ", chunks of 0..3 bytes", d, **kw))
SPECS["C20"] = dict(harnesses=strm(8, 3))
HT = ALLOC + ["ds/hash-table.c", "ds/dllist.c"]
def ht(n, entry, pre, what, **k):
    total = 300 + (4 * (pre + 1) + 2) * (4 * (pre + 1) + 2) + 3 ** (pre + 1) * (4 * pre + 6)
    return chunked(n, "%s_%d" % (entry, pre), "hashtable.c", entry, what, ["-DVP_LIGHT", "-DVP_BLOCKS=16", "-DPRE=%d" % pre, "-DGROW=50"], **dict(k, srcs=HT, unwind=total + 8, extra=["vp_mem.c"]))
SPECS["C21"] = dict(harnesses=sum((ht(n, "h_table_ops", p, "from %d entries, any two operations on any keys, four collision patterns, any values" % p, tiers=t) for p, n, t in ((0, 1, QT), (1, 3, QT), (2, 8, QT), (3, 32, T))), []) +
    chunked(8, "h_table_grow", "hashtable.c", "h_table_grow", "50 keys with four collision patterns, growing automatically", ["-DVP_LIGHT", "-DVP_BLOCKS=60", "-DGROW=50"], srcs=HT, unwind=270, inner=80, extra=["vp_mem.c"]) +
    chunked(8, "h_table_default", "hashtable.c", "h_table_default", "pointer and string keys", ["-DVP_LIGHT", "-DVP_STALE_ANY", "-DVP_BLOCKS=6", "-DGROW=50"], srcs=HT + ["core/hash.c"], unwind=10, extra=["vp_mem.c"]))
SPECS["C22"] = dict(harnesses=sum((ht(n, "h_table_life", p, "from %d entries, any operation, any choice of a mapper at each entry, release callbacks" % p, tiers=t) for p, n, t in ((0, 1, QT), (1, 2, QT), (2, 8, QT), (3, 32, T))), []))
def pool_histories(steps, most):
    out = []
    def go(seq, n):
        if len(seq) == steps:
            out.append(sum(o * 8 ** i for i, o in enumerate(seq))); return
        if n < most: go(seq + [0], n + 1)
        for k in range(n): go(seq + [k + 1], n - 1)
    go([], 0)
    return out
def mpool(n, st, most, es, **k):
    h = pool_histories(st, most)
    return chunked(n, "h_mempool_%d_%d" % (st, es), "mempool.c", "h_mempool", "every sequence of %d allocations and returns with up to %d objects in use (%d sequences), %d element sizes, blocks of less than one to three objects, callbacks" % (st, most, len(h), es),
        ["-DVP_LIGHT", "-DVP_BLOCKS=10", "-DSTEPS=%d" % st, "-DESIZES=%d" % es, "-DSEQS=" + ",".join(map(str, h))], srcs=ALLOC + ["core/mempool.c"], unwind=len(h) * es + 34, extra=["vp_mem.c"], **k)
SPECS["C23"] = dict(harnesses=mpool(8, 4, 4, 6, tiers=("quick",)) + mpool(32, 6, 4, 3, tiers=T, timeout=3000) + 
    chunked(7, "h_mempool_large", "mempool.c", "h_mempool_large", "element sizes up to beyond the block size", ["-DVP_LIGHT", "-DVP_STALE_ANY", "-DVP_BLOCKS=6", "-DVP_ALLOC_LIMIT=20000", "-DSTEPS=1", "-DESIZES=1"], srcs=ALLOC + ["core/mempool.c"], unwind=12, extra=["vp_mem.c"]))
AK = dict(srcs=["core/allocator.c"], unwind=60, extra=["vp_mem.c"], own_abort=True)
SPECS["C25"] = dict(harnesses=
    chunked(8, "h_alloc_ops", "alloc.c", "h_alloc_ops", "C library, custom (required operations only, or all) and checking allocators; every operation with sizes 0, 1, 5, 8 from and to, any contents, with and without memory", **AK) +
    chunked(4, "h_alloc_huge", "alloc.c", "h_alloc_huge", "counts and sizes that overflow or cannot be had, through every allocator", **AK) +
    chunked(1, "h_alloc_debug", "alloc.c", "h_alloc_debug", "blocks of 0..4 bytes freed with every size", **AK) +
    chunked(8, "h_alloc_strings", "alloc.c", "h_alloc_strings", "every string of 0..3 bytes, with and without memory", **AK) +
    chunked(1, "h_alloc_exit", "alloc.c", "h_alloc_exit", "three allocators on top of each other in eight shapes", inner=160, **AK))
def gc_graphs(n):
    "every graph of n objects with up to two edges each, two decimal digits per object"
    pairs = [(a, b) for a in range(n + 1) for b in range(a, n + 1)]
    out = [0]
    for i in range(n): out = [g + (a + 10 * b) * 100 ** i for g in out for a, b in pairs]
    return out
def gc_reps(n):
    "one per isomorphism class"
    seen, out = set(), []
    for g in gc_graphs(n):
        ed = [sorted((g // 100 ** i % 10, g // 100 ** i // 10 % 10)) for i in range(n)]
        key = min(tuple(tuple(sorted(0 if e == 0 else p.index(e - 1) + 1 for e in ed[p[i]])) for i in range(n)) for p in itertools.permutations(range(n)))
        if key not in seen: seen.add(key); out.append(g)
    return out
def gc(chunks, n, graphs, scripts, roots, what, **k):
    return chunked(chunks, "h_gc_%d_%d_%d" % (n, roots, len(scripts)), "gc.c", "h_gc", "%d graphs of %d objects with up to two references each, %s; room for %d roots" % (len(graphs), n, what, roots),
        ["-DVP_BLOCKS=4", "-DNOBJ=%d" % n, "-DGRAPHS=" + ",".join(map(str, graphs)), "-DSCRIPTS=" + ",".join(map(str, scripts))], srcs=ALLOC + ["core/gc.c"],
        edits={"core/gc.c": [(r"^(#define ROOTS_SIZE\s+)\d+", r"\g<1>%d" % roots)]}, unwind=len(graphs) * len(scripts) + 10, **k)
ORD3 = [321, 231, 312, 132, 213, 123]
SPECS["C24"] = dict(harnesses=gc(8, 3, gc_reps(3), [321], 4, "references dropped in order", tiers=("quick",)) +
    gc(4, 3, gc_reps(3)[::7], [1234], 1, "dropped in every order", tiers=("quick",)) +
    gc(8, 2, gc_reps(2), [182, 719, 1724, 2917, 48, 5918], 2, "changed, dropped and collected in between", tiers=("quick",)) +
    gc(32, 3, gc_graphs(3), [321, 213], 4, "references dropped in order", tiers=T) + gc(32, 3, gc_reps(3), [1827, 9713, 4817, 2579], 2, "changed, dropped and collected in between", tiers=T, timeout=3000))
ER = dict(srcs=ALLOC + ["core/error.c", "ds/buffer.c"], extra=["vp_mem.c", "vp_printf.c"], stub_error=False)
def errors(n, third, **k):
    return chunked(n, "h_errors_%d" % third, "errors.c", "h_errors", "every %s of 14 operations, texts of 0, 1, 7, 23 characters and the current message itself, every code" % ("triple" if third > 1 else "pair (and a third)"),
        ["-DVP_LIGHT", "-DVP_BLOCKS=16", "-DTHIRD=%d" % third], **dict(k, unwind=max(420, 784 * third + 10), inner=160, **ER))
SPECS["C26"] = dict(harnesses=errors(16, 1, tiers=("quick",)) + errors(128, 14, tiers=T))

FILES = ALLOC + ["posix/files.c", "ds/buffer.c", "ds/array.c"]
PM = {"posix/files.c": [(r"\bPATH_MAX\b", "64")]}
def paths(n, w, w2, **k):
    return chunked(n, "h_paths_%d_%d" % (w, w2), "paths.c", "h_paths", "paths: the first %d strings over 'a/.', joined with the first %d; five outcomes of reading the current directory" % (w, w2),
        ["-DVP_LIGHT", "-DVP_BLOCKS=24", "-DC27", "-DWORDS=%d" % w, "-DWORDS2=%d" % w2], **dict(k, srcs=FILES, unwind=w * w2 + 8, extra=["vp_mem.c"], edits=PM))
SPECS["C27"] = dict(harnesses=paths(16, 40, 13, tiers=("quick",)) + paths(64, 121, 40, tiers=T))
def pathl(n, entry, name, cases, what, defs=[], **k):
    return chunked(n, name, "paths.c", entry, what, ["-DVP_LIGHT", "-DVP_BLOCKS=40", "-DVP_WORDCOPY"] + defs, **dict(k, srcs=FILES, inner=80, unwind=cases + 8, extra=["vp_mem.c"], edits=PM))
SPECS["C28"] = dict(harnesses=
    pathl(8, "h_path_list", "h_path_list_40", 40, "path lists of every string of up to 3 characters over 'a', ':', '/'", ["-DC28", "-DWORDS=40", "-DSTRIDE=1"], tiers=("quick",)) +
    pathl(32, "h_path_list", "h_path_list_364", 364, "path lists of every string of up to 5 characters over 'a', ':', '/'", ["-DC28", "-DWORDS=364", "-DSTRIDE=1"], tiers=T) +
    pathl(12, "h_path_search", "h_path_search", 512, "three directories, the second one present or missing, the name present in any of them, four names, a failing look-up anywhere", ["-DC28", "-DWORDS=1", "-DSTRIDE=17"], tiers=("quick",)) +
    pathl(32, "h_path_search", "h_path_search_all", 512, "three directories, each present or missing, the name present in any of them, four names, a failing look-up anywhere", ["-DC28", "-DWORDS=1", "-DSTRIDE=1"], tiers=T))
SPECS["C29"] = dict(harnesses=pathl(8, "h_standard_dirs", "h_standard_dirs", 260, "every variable unset, empty or with one or several directories", ["-DC29"]))

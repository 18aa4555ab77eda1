"""Per property: harness, configurations (quick and thorough), bounds, assumptions."""

COMMON_ASSUMPTIONS = [
    'libgf_complete is replaced by rt/gf_model.cc (same fields and polynomials; compared with the real library by tools/gf_validate.cc and by every native replay)',
    'libstdc++ functions that exist only in its binary (list nodes, exceptions, tree rebalancing, clock) are modelled in rt/rt.cc',
    'allocation succeeds unless the harness makes it fail; heap objects are 16-byte aligned and never overlap',
    'the code is the LLVM IR clang 18 -O1 produces from the current sources; sampled paths and every counterexample are replayed on a g++ build',
]


def J(harness, params=None, **kw):
    d = dict(harness=harness, params=params or {})
    d.update(kw)
    return d


# ---- end to end -------------------------------------------------------------------------------
# (scn, k, nd, nr): emission script, length of the schedule, data, repairs.
E2E_QUICK = [(0, 5, 3, 2), (1, 5, 3, 2), (2, 5, 4, 2), (3, 5, 3, 3), (5, 5, 4, 2), (7, 5, 3, 2), (8, 5, 4, 2), (9, 5, 3, 2), (10, 7, 3, 2)]
E2E_DEEP = [(0, 7, 3, 3), (1, 6, 4, 2), (2, 6, 5, 2), (3, 6, 4, 4), (5, 6, 4, 3), (6, 6, 4, 2), (7, 6, 3, 2), (8, 6, 5, 3), (9, 6, 3, 2), (10, 8, 4, 3), (10, 9, 3, 2)]
BIG = ['-DNTC_MAXS=1300']
HUGE = ['-DNTC_MAXS=65600', '-DNTC_MAXN=12']


def e2e(prop, tier, orders=(0, 1), ws=(8,), extra=(), **kw):
    out = []
    for o in orders:
        for (s, k, nd, nr) in (E2E_QUICK if tier == 'quick' else E2E_DEEP):
            for w in ws:
                heavy = s == 10 or tier != 'quick'
                out.append(J('e2e', dict(prop=prop, scn=s, k=k, ordered=o, w=w, nd=nd, nr=nr), j=4 if heavy else 1, **kw))
        # coefficients repeat in GF(16): dependent repairs
        for s in (4, 6):
            out.append(J('e2e', dict(prop=prop, scn=s, k=4 if tier == 'quick' else 5, ordered=o, w=4, nd=3, nr=2), j=1 if tier == 'quick' else 4, **kw))
    return out + list(extra) + e2e_ids(prop, tier, orders, **kw) + longs(prop, tier, orders, **kw)


# Identifiers elsewhere: coefficients 1 and all-one lines (w = 8: r + s + 2 or r + 1 a multiple of 255), powers of two.
def e2e_ids(prop, tier, orders=(0, 1), **kw):
    k = 4 if tier == 'quick' else 5
    near = [(100, 150), (250, 252), (254, 255)]
    far = [(65533, 65533), (0x7ffffffd, 0x7ffffffe), (0xfffffff0, 0xfffffffd)] if prop != 25 else []
    out = []
    for o in orders:
        for i, (s, nd, nr) in enumerate(((0, 3, 2), (2, 4, 2), (3, 3, 3), (9, 3, 2))):
            for n, (bs, br) in enumerate(near + far):
                if tier != 'quick' or (i + n + o) % 2 == 0:
                    out.append(J('e2e', dict(prop=prop, scn=s, k=k, ordered=o, w=8, nd=nd, nr=nr, bs=bs, br=br, forge=int(n >= len(near))), **kw))
        if tier != 'quick':
            out += [J('e2e', dict(prop=prop, scn=s, k=k, ordered=o, w=w, nd=3, nr=2, bs=bs, br=br, forge=int(bs > 500)), **kw) for s in (0, 2) for w in (4, 16, 32) for (bs, br) in near[1:] + far]
    return out


LONG = ['-DNTC_MAXN=1000', '-DNTC_MAXS=24', '-DNTC_MAXH=400']


def long(prop, j=1, variant=None, **kw):
    return J('long', dict(prop=prop, **kw), flags=LONG, j=j, steps=400000000, **({'variant': variant} if variant else {}))


def longs(prop, tier, orders=(0, 1), **kw):
    """Hundreds of data; many losses at once."""
    q = tier == 'quick'
    out = []
    for o in orders:
        L = lambda **p: long(prop, ordered=o, **dict(kw, **p))
        out += [L(n=300), L(n=300, losses=3, stride=51, extra=1, sparse=1), L(n=280, losses=8, order=1 - o, sparse=1), L(n=300, limit=130, losses=2, stride=255, sparse=1, extra=1)]
        out += [L(kind=1, n=260, rate=5, gap=11, thr=50, limit=lim, j=1) for lim in ((20,) if q else (0, 8, 20, 130, 200))]
        out += [L(kind=1, n=150, rate=3, gap=7, thr=128, j=1), L(kind=1, n=40, nonsys=1, limit=12, gap=5, thr=4, j=1)]
        out += [L(n=16, losses=16, extra=1, order=2, sparse=1, w=w) for w in ((8, 16) if o else (4, 32))] + [L(n=45, losses=36, extra=1, order=0, sparse=1, w=8 if o else 16)]
        if not q:
            out += [L(n=300, losses=1, all=1, sparse=1, order=x, j=4) for x in (0, 1)] + [L(n=600, losses=4, stride=s, sparse=1, extra=1) for s in (1, 255, 256)]
            out += [L(n=30, losses=30, extra=1, order=2, sparse=1, w=w) for w in (8, 16, 32)] + [L(kind=1, n=700, rate=r, gap=g, thr=t, j=4, offs=g) for (r, g, t) in ((4, 5, 128), (10, 23, 50), (5, 6, 1))]
    return out


LONG_BOUNDS = ' Long transfers: 260-300 data with 1, 3 or 8 lost (positions a choice around 0, n/3, 64, 127-129, 253-257, n), 16 and 36 lost at once, streams of 150-260 data with periodic losses and late packets (thorough: every position, up to 700 data, 30 lost at once).'


def e2e_payload(prop, tier):
    """Other field sizes, payload shapes and identification bytes."""
    k = 4 if tier == 'quick' else 5
    out = []
    for o in (0, 1):
        for w in (4, 16, 32):
            for (s, nd, nr) in ((0, 3, 2), (2, 4, 2), (3, 3, 3), (5, 3, 2)):
                out.append(J('e2e', dict(prop=prop, scn=s, k=k, ordered=o, w=w, nd=nd, nr=nr)))
        for shape in (1, 2, 3, 4):
            for tag in (0, 1):
                out.append(J('e2e', dict(prop=prop, scn=0, k=k, ordered=o, w=8, nd=3, nr=2, shape=shape, tag=tag)))
        out.append(J('e2e', dict(prop=prop, scn=0, k=3, ordered=o, w=8, nd=3, nr=2, shape=5), flags=BIG))
        out += [J('e2e', dict(prop=prop, scn=0, k=3, ordered=o, w=w, nd=3, nr=1, shape=6), flags=HUGE, steps=400000000) for w in ((8, 32) if tier != 'quick' else (8,))]
    return out


def e2e_bounds(extra=''):
    def f(tier):
        return ('encoder and decoder joined by a channel which may lose, reorder and duplicate: every schedule of up to %s deliveries over %s emission scripts '
                '(growing, sliding and lowered windows, systematic or not, acknowledged holes, dependent repairs) of up to %d data and %s repairs, plus every sequence of %s actions '
                '(add, repair, deliver any packet, acknowledge); all payload bytes but one identifying byte per datum symbolic; payload sizes 1 to 8 (and 15-18%s). ' % (
                    '5' if tier == 'quick' else '7', 10, 4 if tier == 'quick' else 5, '4' if tier == 'quick' else '5', '7' if tier == 'quick' else '8-9', extra)
                + 'The same with identifiers that start at 100-150, 250-255, 65533, 2^31 and 2^32-16 (close to wrapping).' + LONG_BOUNDS + ' Outside: other long histories; other places for identifiers.')
    return f


E2E_ASSUME = ['every datum carries one constant byte that identifies it (the other bytes are symbolic)',
              'the reference decoder of harness/model.hh states what must be delivered; repairs are those of the real encoder']

def gf_validate(scratch):
    """The stand-in of the field library against the library itself.  Returns an error text or None."""
    import os, subprocess
    V = os.path.dirname(os.path.abspath(__file__))
    exe = scratch + '/gfv'
    r = subprocess.run(['g++', '-O2', '-w', '-I' + V + '/rt', '-o', exe, V + '/tools/gf_validate.cc', '-ldl'], capture_output=True, text=True)
    if r.returncode:
        return r.stderr[-500:]
    r = subprocess.run([exe], capture_output=True, text=True)
    return None if r.returncode == 0 else r.stdout[-500:]


CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check('C01', jobs=lambda t: e2e(1, t) + e2e_payload(1, t) + [J('e2e', dict(prop=1, scn=0, k=3, ordered=o, w=4, nd=3, nr=2), raw=True) for o in (0, 1)], covers=['end', 'full decoding', 'decoded from a repair'],
      bounds=e2e_bounds(', 256-300, 4096-65532'), assumptions=E2E_ASSUME)
check('C02', jobs=lambda t: e2e(2, t), covers=['end', 'full decoding', 'packet without effect', 'datum given up'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C03', jobs=lambda t: e2e(3, t, orders=(1,)), covers=['end', 'full decoding', 'datum given up', 'source triggers more'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C04', jobs=lambda t: e2e(4, t) + ([] if t == 'quick' else e2e_payload(4, t)), covers=['end', 'full decoding', 'decoded from a repair', 'source triggers more'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C05', jobs=lambda t: e2e(5, t, orders=(0,)), covers=['end', 'source triggers more'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C23', jobs=lambda t: e2e(0, t, variant='assert'), covers=['end', 'full decoding', 'datum given up', 'ack exchanged'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C24', jobs=lambda t: e2e(24, t), covers=['end', 'datum given up', 'packet without effect'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C25', jobs=lambda t: e2e(25, t), covers=['end', 'window emptied', 'ack exchanged', 'old ack'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)
check('C26', jobs=lambda t: e2e(26, t), covers=['end', 'full decoding', 'useless repair', 'ack exchanged', 'datum given up'], bounds=e2e_bounds(), assumptions=E2E_ASSUME)

# ---- wire format ------------------------------------------------------------------------------
def lists(kind, t):
    out = [J('wire', dict(kind=kind, list=0, n=n, size=4)) for n in ((0, 1, 2, 3, 4) if t == 'quick' else (0, 1, 2, 3, 4, 5)) if n or kind == 2]
    out += [J('wire', dict(kind=kind, list=1, n=n, size=3)) for n in ((5, 6) if t == 'quick' else (5, 6, 7, 8))]
    runs = [253, 254, 255, 256, 257] + ([509, 510, 511, 512, 766] if t != 'quick' else [510])
    out += [J('wire', dict(kind=kind, list=2, n=n, s1=s1, n2=n2, s2=s2, size=5)) for n in runs for (s1, n2, s2) in ((1, 0, 0), (3, 256, 70000))]
    out += [J('wire', dict(kind=kind, list=3, n=n, s1=1, s2=s2, size=5)) for n in ((255, 300) if t == 'quick' else (255, 300, 2000)) for s2 in (2, 65535, 65536)]
    out += [J('wire', dict(kind=kind, list=0, n=2, size=2, extra=5))]
    return out


WIRE_BOUNDS = 'all identifiers, counts, coded sizes and payload bytes symbolic; '
check('C06', jobs=lambda t: [J('wire', dict(kind=0, size=0)), J('wire', dict(kind=0, size=0, extra=3)), J('wire', dict(kind=0, size=255)), J('wire', dict(kind=0, size=256)), J('wire', dict(kind=0, size=1500))]
      + [J('wire', dict(kind=0, size=n)) for n in (4096, 32767, 32768, 65535)],
      bounds=WIRE_BOUNDS + 'payload sizes 1,2,3,8,9,10,16,17,33,255,256,1500,4096,32767,32768,65535')
check('C07', jobs=lambda t: lists(1, t) + [J('wire', dict(kind=1, list=1, n=2, size=s)) for s in (0, 256, 1500)] + [J('wire', dict(kind=1, list=1, n=1, size=s)) for s in (32768, 65535)],
      bounds=WIRE_BOUNDS + 'lists of up to 4 (thorough 5) arbitrary identifiers, up to 6 (8) close ones, runs of equal differences of length 253-257, 510 (766), up to 301 (2001) alternating differences; symbols of 1 to 33, 256, 1500, 32768, 65535 bytes. Outside: lists of more than 65534 pairs, which the 16-bit count cannot announce.')
check('C08', jobs=lambda t: lists(2, t), bounds=WIRE_BOUNDS + 'lists of up to 4 (thorough 5) arbitrary identifiers, up to 6 (8) close ones, runs of equal differences of length 253-257, 510 (766), up to 301 (2001) alternating differences, also after another list went through the same packetizer. Outside: lists of more than 65534 pairs.')


# ---- encoder ----------------------------------------------------------------------------------
check('C10', jobs=lambda t: [J('enc', dict(prop=10, n=n, m=m, rounds=r, nonsys=x), j=4) for (n, m, r, x) in (((4, 3, 2, 0), (3, 2, 3, 1), (1, 2, 2, 0)) if t == 'quick' else ((5, 4, 2, 0), (4, 3, 3, 0), (3, 3, 3, 1)))] + longs(10, t, (0,)),
      covers=['end', 'unknown ids only', 'several removed'], bounds=lambda t: 'windows of %s data whose payloads are symbolic, %s rounds of acknowledgements with %s identifiers each (any values: known, unknown, repeated, 32 bits symbolic), systematic or not; the window afterwards is read from the next repair. Outside: larger windows and lists.' % (('1-4', '2-3', '2-3') if t == 'quick' else ('3-5', '2-3', '3-4')))
check('C11', jobs=lambda t: [J('enc', dict(prop=11, k=k, pre=p, nonsys=x), j=4) for (k, p, x) in (((5, 2, 0), (5, 3, 1), (6, 0, 0)) if t == 'quick' else ((6, 3, 0), (6, 3, 1), (7, 0, 0)))] + [long(11, n=300, limit=l, losses=2, stride=255, sparse=1, extra=1) for l in (127, 128, 129, 255, 256, 257)] + [long(11, kind=1, n=260, limit=l) for l in (1, 20)],
      covers=['end', 'evicted', 'several evicted'], bounds=lambda t: 'every sequence of %s actions (add, acknowledge any datum, set the limit to any non-zero 64-bit value) after 0, 2 or 3 additions; the content of the window is read from the next repair. Outside: longer histories.' % ('5-6' if t == 'quick' else '6-7'))
check('C12', jobs=lambda t: [J('enc', dict(prop=12, k=(5 if t == 'quick' else 6) - (w == 32 or (w == 16 and s == 1)), w=w, shape=s), j=2) for w in (4, 8, 16, 32) for s in (0, 1)]
      + [J('enc', dict(prop=12, k=2, w=w, shape=2), flags=BIG) for w in (8, 32)] + [J('enc', dict(prop=12, k=1, w=w, shape=3), flags=HUGE + ['-DNTC_NW=8'], steps=400000000) for w in (8, 16)]
      + [long(12, n=300, losses=1, sparse=1, ordered=0), long(12, n=300, limit=130, losses=2, stride=255, sparse=1, ordered=0), long(12, n=260, losses=2, sparse=1, w=16), long(12, n=260, losses=1, sparse=1, w=32), long(12, n=260, losses=1, sparse=1, w=4), long(12, kind=1, n=150, rate=3, gap=7, thr=128), long(12, kind=1, n=40, nonsys=1, limit=12, gap=5, thr=4)],
      covers=['end', 'repair'], bounds=lambda t: 'every sequence of %d actions (add a datum of one of 3 sizes, acknowledge the oldest or the newest, repair; one less for the largest symbols) with fields 4, 8, 16 and 32, all payload bytes symbolic, sizes 1, 2, 4, 9, 17 words (growing and shrinking, so that reused buffers would show), plus data of 260 and 272 bytes with w = 8 and 32 and of 4 to 65532 bytes with w = 8 and 16 (6 bytes of each symbolic); windows of up to 300 data, streams of 150 data with acknowledgements. Oracle: own field arithmetic. Outside: other long histories.' % (5 if t == 'quick' else 6))
check('C13', jobs=lambda t: [J('enc', dict(prop=13, k=k), j=8) for k in ((6,) if t == 'quick' else (7,))] + [J('enc', dict(prop=13, k=k, fixed=1)) for k in (40,)] + [long(13, kind=1, n=280, rate=r, gap=g, limit=l) for (r, g, l) in ((3, 4, 6), (5, 11, 20), (7, 11, 0), (50, 30, 60), (255, 40, 0), (256, 40, 0))],
      covers=['end', 'rate'], bounds=lambda t: 'every sequence of %d actions (add, force a repair, acknowledge the oldest, set the rate to any non-zero 64-bit value, switch the code type), payload bytes symbolic; 40 additions in a row with the default rate. Outside: longer histories, wrap-around of the 32-bit identifiers.' % (6 if t == 'quick' else 7))

check('C17', jobs=lambda t: [J('enc', dict(prop=17, part=0, k=k, on=o, first=f), j=2) for (k, o, f) in (((4, 1, 2), (5, 0, 3)) if t == 'quick' else ((6, 1, 2), (6, 0, 3)))]
      + [J('enc', dict(prop=17, part=1, max=4 if t == 'quick' else 7), j=2)] + [J('enc', dict(prop=17, part=1, s1=s), j=2) for s in ((60,) if t == 'quick' else (60, 300))]
      + [J('enc', dict(prop=17, part=2, sent=s)) for s in ((1, 10, 100, 101, 1000) if t == 'quick' else (1, 10, 100, 101, 1000, 65535, 65536, 66000))],
      covers=['end', 'adapted', 'not adapted', 'two losses', 'loss'], bounds=lambda t: 'every sequence of %s actions (add, repair, acknowledge with symbolic 16-bit count) with adaptation on or off; two acknowledgements with symbolic counts after the same number of packets for 1-%d, 60%s packets; symbolic counts after %s packets sent. Outside: other numbers of packets sent between two acknowledgements.' % (('4-5', 4, '', '1, 10, 100, 101, 1000') if t == 'quick' else ('6', 7, ', 300', '1, 10, 100, 101, 1000, 65535, 65536, 66000')))

# ---- field ------------------------------------------------------------------------------------
check('C15', jobs=lambda t: [J('alg', dict(prop=15, w=w, part=0)) for w in (4, 8, 16, 32)] + [J('alg', dict(prop=15, w=4, part=2))]
      + [J('alg', dict(prop=15, w=w, part=1, mode=m)) for w in (4, 8, 16, 32) for m in ((0, 1) if t == 'quick' else (0, 1, 2))] + ([J('alg', dict(prop=15, w=w, part=1, mode=2)) for w in (8,)] if t == 'quick' else []),
      covers=['end', 'recovered'], bounds=lambda t: 'all 2^64 pairs of 32-bit identifiers (symbolic), w = 4, 8, 16, 32; encoder and decoder agree: one datum rebuilt from one repair with identifiers from the start, around powers of two and (w = 8; thorough: all) further on')
def inversion(t):
    K = lambda w, n, any, opt, salt=0, **kw: J('alg', dict(prop=16, w=w, n=n, kind=3, any=any, opt=opt, salt=salt), **kw)
    out = [J('alg', dict(prop=16, w=4, n=n)) for n in (1, 2)] + [J('alg', dict(prop=16, w=8, n=1)), J('alg', dict(prop=16, w=4, n=2, resized=1))]
    out += [K(8, 2, a, 15 - a) for a in (1, 2, 4, 8)]
    out += [K(4, 3, a, 511 - a & 0o525) for a in (1, 16, 256)] + [K(4, 3, 3, 0), K(4, 3, 9, 0)]
    out += [K(w, 3, 0, 511, salt) for w in (4, 8, 16, 32) for salt in (0, 9)]
    out += [K(w, 4, 0, 0xffff, salt, j=4) for w, salt in ((4, 0),)]
    out += [K(w, 6, 0, 0x208104a15 ^ (salt << 18), salt) for w, salt in ((8, 0), (4, 3), (16, 1), (32, 2))] + [K(8, 7, 0, 0x1020408102041, 1), K(4, 8, 0, 0x0040201008040201, 2), K(16, 8, 0, 0x0102040810204080, 0)]
    out += [J('alg', dict(prop=16, w=w, n=n, kind=4, salt=s), flags=['-DNTC_MD=72'], steps=400000000) for (w, n, s) in (((8, 16, 0), (16, 33, 0), (8, 40, 3), (4, 15, 0)) if t == 'quick' else ((8, 16, 0), (16, 33, 0), (8, 40, 3), (32, 34, 1), (8, 65, 0), (4, 15, 0)))]
    if t != 'quick':
        out += [K(8, 2, a, 0, j=2, q=300) for a in (6, 3, 5)] + [K(4, 3, a, 511 - a, j=4) for a in (1, 17, 273)] + [K(8, 3, a, 0o252 & ~a, j=4, q=300) for a in (1, 16, 256)]
        out += [K(w, 4, 0, 0xffff, salt, j=4) for w in (4, 8, 16, 32) for salt in (0, 5)] + [K(w, 5, 0, 0x16d6b6d, salt, j=4) for w in (4, 8) for salt in (0, 7)]
    return out


check('C16', jobs=inversion, covers=['end', 'inverted', 'refused'], bounds=lambda t: 'w = 4: all 1x1 and 2x2 matrices; w = 8: all 1x1, 2x2 with one entry arbitrary%s; w = 4: 3x3 with one or two entries arbitrary; w = 4, 8, 16, 32: 3x3 matrices (%s; 6x6, 7x7 and 8x8 with 7 to 11 of the entries) in which any subset of the entries is zero; matrices of 15, 16, 33 and 40 (thorough 34 and 65) lines of coefficients in 6 shapes (repeated line, nearly empty line or column, triangular, holes) at 5 places. Oracle: product with the original is the identity, or a non-trivial combination of the designated line exists. Outside: larger matrices, other fully symbolic ones (products of symbolic field elements exceed the solver).' % (('', '4x4 for w = 4') if t == 'quick' else (' or two', '4x4 for all, 5x5 for w = 4, 8')))
check('C18', jobs=lambda t: [J('alg', dict(prop=18, w=w, part=p, n=n)) for w in (4, 8, 16, 32) for (p, n) in ((0, 0), (1, 5), (1, 17), (2, 0))] + [J('alg', dict(prop=18, w=w, part=1, n=n)) for (w, n) in ((4, 70), (8, 66), (16, 33), (32, 20))]
      + ([J('alg', dict(prop=18, w=16, part=p, n=5, all=1), j=8) for p in (0, 2)] if t != 'quick' else []),
      covers=['end'], bounds=lambda t: 'all sizes 0-65535 (two at a time, symbolic), symbols of 5, 17 and 66-80 bytes or more with symbolic bytes, products with a symbolic factor (w = 32: 16 bits of it at a time); all non-zero coefficients for w = 4 and 8, %s for w = 16, 37 (powers of two, their neighbours, patterns) for w = 32; the stand-in of the field library is compared with the library itself on 698987 calls. Outside: other coefficients, longer symbols.' % ('26' if t == 'quick' else 'all'), pre=gf_validate)

# ---- acknowledgements ---------------------------------------------------------------------------
def ack_jobs(t):
    k = 3 if t == 'quick' else 4
    out = [J('dec', dict(scn=s, k=k, ordered=o, mode=m), j=2) for s in (0, 1, 2, 3) for o in (0, 1) for m in (0,)]
    if t == 'quick':
        out += [J('dec', dict(scn=s, k=4, ordered=o, mode=2), j=2) for s, o in ((1, 0), (2, 1))]
    else:
        out += [J('dec', dict(scn=s, k=4, ordered=o, mode=m), j=2) for s in (0, 1, 2, 3) for o in (0, 1) for m in (2, 3)] + [J('dec', dict(scn=s, k=5, ordered=0, mode=2), j=4) for s in (0, 1)]
    out += [J('dec', dict(many=1, n=120, thr=50)), J('dec', dict(many=1, n=300, thr=300)), J('dec', dict(many=1, n=300, thr=1, dup=1)), J('dec', dict(many=1, n=700, thr=128, dup=1))] + longs(14, t)
    return out


check('C14', jobs=ack_jobs, covers=['end', 'threshold', 'period', 'not due', 'nothing handed over', 'forced', 'retired'], bounds=lambda t: 'every sequence of %d actions (deliver any packet of 4 emission scripts, force an acknowledgement) with symbolic 16-bit threshold, symbolic 31-bit period (ms) and symbolic 40-bit time steps (ns), both orderings; up to 700 packets in a row with thresholds 1, 50, 128, 300. Outside: longer histories, more than 65535 packets between two acknowledgements.' % (3 if t == 'quick' else 4))

# ---- containers ---------------------------------------------------------------------------------
check('C19', jobs=lambda t: [J('pkt', dict(ctor=c, k=3 if t == 'quick' else 4, sizes=3 if t == 'quick' else 4), j=2 if t == 'quick' else 8) for c in range(5)] + [J('pkt', dict(ctor=c, k=2, sizes=4 if t == 'quick' else 5, set=1)) for c in (0, 1, 2, 3)]
      + [J('e2e', dict(prop=19, scn=s, k=4 if t == 'quick' else 5, ordered=o, w=w, nd=nd, nr=nr, shape=shape)) for o in (0, 1) for w in ((8,) if t == 'quick' else (4, 8, 16, 32)) for shape in (0, 4)
         for (s, nd, nr) in ((0, 3, 2), (2, 4, 2), (3, 3, 3), (5, 3, 2), (7, 3, 2))],
      covers=['end', 'reserve', 'full decoding', 'decoded from a repair'],
      bounds=lambda t: 'every sequence of %d operations (12 kinds) on packets built in each of the 5 ways, all byte values symbolic, sizes 0, 1, 8 and (thorough) 20%s, and of 2 operations with sizes 15, 16, 17, 300 (1030); alignment of every datum handed over in every schedule of %d deliveries over 5 emission scripts, both orderings' % ((3, '', 4) if t == 'quick' else (4, '', 5)))

def dispatching(t):
    q = t == 'quick'
    out = [J('disp', dict(kind=k, state=s, k=2 if q else 3, len=12 if q else 20, ordered=s % 2)) for k in (0, 1, 2, 3) for s in (0, 1, 2, 3)]
    out += [J('disp', dict(kind=4, disp=1, state=s, k=3 if q else 4, ordered=o, thr=thr), j=2 if q else 4) for s in (0, 2, 3) for o in (0, 1) for thr in (3,)]
    return out


check('C21', jobs=dispatching, covers=['end', 'refused', 'ack processed', 'packet processed'],
      bounds=lambda t: 'packets of 1 to %d bytes, all bytes symbolic, with every foreign or unknown type, the empty packet, and the session\'s own packets given to the wrong side, as temporary or copied, directly or through dispatch, in 4 states (fresh, source received, repair pending, acknowledged); followed by every sequence of %d actions. dispatch: every sequence of %d actions compared with direct calls. Outside: longer packets and histories.' % ((12, 2, 3) if t == 'quick' else (20, 3, 4)))

def c_interface(t):
    q = t == 'quick'
    AF = ['-DNTC_ALLOC_FAIL']
    out = [J('capi', dict(part=0, k=k if q else k + 1, pre=p, focus=f, ordered=o, w=w), capi=True, j=2 if q else 8) for (k, p, f, o, w) in ((3, 0, 0, 0, 8), (2, 1, 0, 1, 8), (2, 2, 1, 0, 8), (2, 2, 0, 1, 32))]
    out += [J('capi', dict(part=1, sizes=9), capi=True, steps=100000000)]
    out += [J('capi', dict(part=2, what=x, ordered=o, allocs=14 if q else 40), capi=True, flags=AF) for x in range(14) for o in ((0, 1) if x >= 10 else (0,))]
    out += [J('capi', dict(part=3, k=2 if q else 3), capi=True, flags=AF + ['-DNTC_CHECK_ERROR'], optional=True)]
    return out


check('C20', jobs=c_interface, covers=['end', 'error', 'no memory', 'no instance'],
      bounds=lambda t: 'every sequence of %s C calls (12 kinds, configuration values and packet bytes symbolic, truncated and foreign packets) after 3 prefixes compared with the same C++ calls; buffers of 0, 1, 9, 255, 256, 300, 32767, 32768, 65535 bytes; each single allocation failure (first %d allocations) of every call; every kind of exception through the translation. Outside: several allocation failures, use of an instance after a failed allocation, callbacks that throw.' % (('2-3', 14) if t == 'quick' else ('3-4', 40)))

check('C22', jobs=lambda t: [J('dump', dict(k=3), j=2), J('dump', dict(k=4, sizes=6 if t == 'quick' else 10), j=2)]
      + [J('dump', dict(k=2, big=b, sizes=3), flags=['-DNTC_BIG']) for b in ((32759, 65526) if t == 'quick' else (32758, 32759, 32760, 65525, 65526))],
      covers=['end'], bounds=lambda t: 'sequences of 3-4 packets of 0, 1, 2, 7, 8, 9, 20, 246-248, 255, 256, 300, 502, 503, 1500 bytes, or one of 32759 or 65526 (the largest) and another one, all bytes symbolic, through the standard library\'s own stream templates over a memory buffer. Outside: packets of more than 65526 bytes (the length field has 16 bits and counts 9 bytes more), failing devices.')

# ---- hostile packets ------------------------------------------------------------------------------
def hostile(t):
    q = t == 'quick'
    H = lambda kind, state, **kw: J('hostile', dict(kind=kind, state=state, ordered=kw.pop('ordered', state % 2), **{k: v for k, v in kw.items() if k != 'j'}), j=kw.get('j', 1))
    out = [H(0, s, lo=0, hi=8, k=1) for s in (0, 2)]
    out += [H(1, s, hi=12 if q else 16, k=1 if q else 2, which=7, ordered=o, w=w) for s in (0, 1, 2, 3, 4) for o in (0, 1) for w in ((8,) if q else (4, 8, 16, 32))]
    out += [H(1, s, hi=12, k=1, which=3, ordered=o, w=w) for s, o, w in ((2, 0, 16), (3, 1, 16), (2, 1, 32), (3, 0, 4)) if q]
    out += [H(2, s, lo=1, hi=20 if q else 23, k=1, cut=1, j=2) for s in (0, 2)] + [H(2, s, lo=1, hi=16 if q else 20, k=1, cut=1) for s in (1, 3, 4)]
    out += [H(3, 2, hi=16 if q else 19, k=1, j=2)]
    out += [H(4, s, list=0, k=1, ordered=o, which=3 if q else 7) for s in (0, 2, 3, 4) for o in (0, 1)]
    out += [H(4, s, list=0, k=1, ordered=o, w=w, firsts=4 if q else 7, codes=6) for s, o, w in ((2, 0, 16), (3, 1, 16), (2, 1, 32), (3, 0, 32), (3, 0, 4), (2, 1, 4))]
    out += [H(4, s, list=1, k=1, rids=1 if q else 2, codes=2, firsts=4 if q else 7, runs=4 if q else 5, diffs=3 if q else 5, ordered=o) for s in (0, 2, 3, 4) for o in (0, 1)]
    out += [H(4, s, list=1, k=1, rids=1, codes=2, firsts=3, runs=2, diffs=3, ordered=o, w=w) for s, o, w in ((3, 0, 16), (2, 1, 32))]
    out += [H(4, s, list=2, k=1, rids=1, codes=1, firsts=2 if q else 4, runs=3, diffs=2 if q else 3, cut=1, symbols=1 if q else 2, which=1 if q else 3, j=1 if q else 4) for s in (0, 2, 3)]
    out += [H(4, s, list=l, k=1, twice=1, firsts=2, codes=2, symbols=2, which=1, rids=2, runs=2, diffs=2, ordered=o, j=1 if q else 2) for s, o, l in (((3, 0, 0), (2, 1, 1)) if q else ((3, 0, 0), (2, 1, 1), (3, 1, 1), (0, 0, 1), (4, 1, 1)))]
    return out


check('C09', jobs=hostile, covers=['end', 'accepted', 'rejected'], bounds=lambda t: ('instances in 5 states (fresh; a source received; one repair pending; two pending; a datum given up), both orderings, given one packet and then 1 valid packet, an acknowledgement and a repair: '
      'packets of 0-8 bytes of unknown type; sources of up to %d bytes; truncated repairs of up to %d bytes and acknowledgements of up to %d bytes, all bytes symbolic except that run lengths are at most 2; '
      'complete repairs with identifiers, lists (0-2 runs of length 0, 1, 2, 254, 255; differences 0, 1, 2, 2^15, 2^16-1; wrapping identifiers) and coded sizes (0, 1, 2, 4, 65535, 2^32-1, and all that decode to 0-6 or 65530-65535) from these lists, symbols of 0, 1 and 5 symbolic bytes, also cut at every length. '
      'Also two complete repairs in a row (fewer values). A rejected packet is compared with a twin that did not get it. Outside: longer packets, more hostile packets in a row, the truth of data handed over after a well-formed forged packet (no authentication exists).') % ((12, 20, 16) if t == 'quick' else (16, 23, 19)))

# ---- several sessions ---------------------------------------------------------------------------
def sessions(t):
    q = t == 'quick'
    out = [J('iso', dict(w=w, w2=w2, ordered=o, ordered2=o2, k=(3 if q else 4) - (w2 == 32), limit=l), j=2) for (w, w2, o, o2, l) in ((8, 16, 0, 1, 0), (8, 4, 1, 0, 2), (4, 8, 1, 1, 0), (16, 32, 0, 0, 2), (32, 8, 1, 0, 0), (8, 8, 0, 1, 2), (8, 32, 1, 1, 2), (16, 16, 1, 1, 0))]
    return out


check('C27', jobs=sessions, covers=['end', 'other round', 'other gone', 'data handed over'],
      bounds=lambda t: 'every sequence of %d actions (one less if the other field is GF(2^32); add, repair, acknowledge, deliver any packet or acknowledgement) after 3 additions, run alone and again while another session completes a transfer with one or two losses between any two actions; the other session is there before, appears with the second run, or is destroyed before its last action; 8 combinations of field sizes, orderings and window limits; all payload bytes (3 of the other session\'s) symbolic. Outside: longer histories, more than three sessions, threads.' % (3 if t == 'quick' else 4))

# Not a property: standard containers and algorithms in the executor.
check('SELFTEST', jobs=lambda t: [J('selftest', dict(part=p)) for p in range(4)], covers=['end'], bounds='')

NOT_APPLICABLE = {}

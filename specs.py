"""Harness and job tables."""
COMMON_ASSUMPTIONS = [
 'the code is executed from LLVM 18 IR produced by clang -O1 (wrapping signed arithmetic), x86-64 layout',
 'the C library, iconv, uuid, time and locale are models (rt/rt_libc.c, rt/rt_env.c); NLS, device-mapper and blkid are configured off',
 'memory allocation succeeds unless a job says otherwise; malloc fills with 0xA5 and locals with 0xAA',
]
import os
from vlib import REPO
vlib_V = os.path.dirname(os.path.abspath(__file__))
HARNESS = {}
SPECS = {}
def H(name, **kw): HARNESS[name] = dict(src=name + '.c', **kw)
def J(name, h, case=0, time=60, **kw): return dict(name=name, h=h, case=case, time=time, **kw)
def P(pid, jobs, **kw): SPECS[pid] = dict(jobs=jobs, **kw)
# ---------------------------------------------------------------- C01 / C02
H('natmath')
GR = [1, 2, 3, 5, 7, 8, 63, 255, 256, 2048, 16065, 4096]
P('C01',
  [J('round-g%d' % g, 'natmath', 0, 40, params={'g': g, 'bits': 24}, tparams={'bits': 40}, bound='grain %d, |sector| <= 2^24 (thorough 2^40)' % g) for g in GR + [65535, 1048576]] +
  [J('round-symgrain', 'natmath', 1, 60, tparams={'gmax': 255}, bound='every grain 1..40 (thorough 1..255), |sector| <= 2000')] +
  [J('align-g%d' % g, 'natmath', 2, 60, params={'g': g, 'bits': b}, bound='grain %d, device 2^%d sectors' % (g, b)) for g, b in [(1, 12), (2, 12), (3, 12), (5, 12), (8, 16), (63, 14), (256, 16), (2048, 16)]] +
  [J('align-exact', 'natmath', 3, 30), J('gcd', 'natmath', 5, 60)] +
  [J('init-g%d' % g, 'natmath', 4, 30, params={'g': g}) for g in (1, 3, 8, 2048)],
  must_reach=['rounding', 'rounding_symgrain', 'up-none', 'down-none', 'near', 'exact', 'initneg', 'gcd'],
  bounds='grains 1,2,3,5,7,8,63,255,256,2048,4096,16065,65535,2^20 with sectors up to 2^24 (quick) / 2^40 (thorough); symbolic grains 1..255; geometries on devices of 2^12..2^16 sectors')
P('C02',
  [J('int-%d-%d' % (a, b), 'natmath', 10, 60, params={'ga': a, 'gb': b, 'omax': 3 * a * max(b, 1) if a * b < 40000 else 100000}, bound='grains %d and %d, all offsets' % (a, b)) for a, b in [(4, 6), (6, 4), (8, 2048), (63, 255), (7, 5), (255, 256), (12, 18), (1, 9), (0, 8), (8, 0), (0, 0), (100, 64), (2048, 63)]] +
  [J('int-big', 'natmath', 10, 60, params={'ga': 1 << 32, 'gb': 3, 'omax': 1 << 36, 'ocap': 1 << 20}, bound='grain 2^32 against 3, offsets up to 2^20 (larger products of grain and offset overflow 64 bits and are outside the claim)'), J('int-null', 'natmath', 11, 10), J('int-small', 'natmath', 12, 80, params={'gmax': 9, 'omax': 200}, tparams={'gmax': 20, 'omax': 1000}, bound='all grains 0..9 (thorough 0..20), all offsets')],
  must_reach=['absent', 'present'], bounds='all grain pairs 0..9 plus selected larger pairs, all offsets, sectors up to a few periods')
NOT_APPLICABLE = {}
# ---------------------------------------------------------------- C03 / C04
H('geom')
P('C03', [J('sets', 'geom', 0, 60), J('setters', 'geom', 1, 40), J('map', 'geom', 2, 40), J('io', 'geom', 3, 60), J('check', 'geom', 4, 120)],
  must_reach=['inter', 'disjoint', 'set', 'refused', 'mapped', 'unmapped', 'io-in', 'io-out', 'check-ok', 'check-bad'],
  bounds='two geometries anywhere within 2^40 sectors on the same or different devices, every probe sector; setter arguments within 2^40; I/O counts 0..3 at every offset; bad-block scan over all small ranges (offset 0..6, count 1..12, buffer 1..6, granularity 1..3)')
SG = [(1, 1), (4, 4), (63, 1), (0, 0), (5, 7), (0, 8), (8, 0), (1, 2048), (8, 1), (1, 8)]
P('C04', [J('solve-%d-%d' % g, 'geom', 10, 100, params={'ga': g[0], 'gb': g[1]}, bound='grains %d/%d' % g) for g in SG] +
  [J('solvemax-%d-%d' % g, 'geom', 13, 60, params={'ga': g[0], 'gb': g[1]}, bound='grains %d/%d' % g) for g in [(1, 1), (8, 8), (63, 5)]] +
  [J('inter-%d-%d-%d-%d' % g, 'geom', 11, 80, params={'ga': g[0], 'gb': g[1], 'gc': g[2], 'gd': g[3]}) for g in [(1, 1, 1, 1), (4, 1, 6, 1), (0, 1, 8, 8), (1, 3, 1, 5)]] +
  [J('build', 'geom', 12, 60)],
  must_reach=['fixpoint', 'solved', 'unsolved', 'max', 'inter-c', 'no-inter', 'minmax', 'exact-c', 'any'],
  bounds='constraints with the listed start/end grains, every offset, range, size limit and requested geometry on a device of 2^16 sectors (2^12 for intersections, 2^40 for the named constructors)')
# ---------------------------------------------------------------- C23 / C24
H('except'); H('crc')
P('C23', [J('seq', 'except', 0, 120, params={'steps': 4}, tparams={'steps': 6}, bound='every sequence of 4 (thorough 6) operations'), J('lengths', 'except', 1, 60), J('nest', 'except', 2, 20), J('names', 'except', 3, 30)],
  must_reach=['fetched', 'handled', 'default', 'rethrow-fetched', 'rethrown', 'end', 'len', 'nested', 'names'],
  bounds='all sequences of 4 (thorough 6) throw/fetch/leave/catch/rethrow/set-handler operations with any type, option set 1..127 and handler answer; message lengths 0..7, 990..1021 and up to 1248')
P('C24', [J('step', 'crc', 0, 60), J('fold', 'crc', 1, 60, tparams={'max': 600}), J('check', 'crc', 2, 10), J('disk-512', 'crc', 3, 60, params={'len': 4096, 'ss': 512}), J('disk-4096', 'crc', 3, 60, params={'len': 1024, 'ss': 4096})],
  must_reach=['step', 'fold', 'check', 'disk'],
  bounds='every 32-bit state and byte for one step; every content and seed for lengths 0..40 (thorough 0..600), by composition; checksums stored by a commit of 0..3 partitions at 512 and 4096 byte sectors')
# ---------------------------------------------------------------- C05 / C06 / C07
H('ops')
LAB = ['gpt', 'msdos', 'sun', 'bsd', 'dvh', 'mac', 'amiga', 'atari', 'pc98', 'loop']
def ops_jobs(prop):
    o = []
    for i, n in enumerate(LAB):
        cyl = n in ('pc98', 'sun', 'amiga'); big = dict(len=400000) if cyl else {}
        for b in range(6):
            if n == 'loop' and b: continue
            for c in range(5):
                if prop == 7 and c > 1: continue
                slow = c == 4 and (b == 1 or n in ('atari', 'dvh') and b == 2) or b == 3 and cyl and c in (1, 3) or b in (4, 5) and c > 0 or b == 5 and n in ('gpt', 'msdos', 'mac', 'atari') or c in (2, 4) and b == 3 or cyl and c in (2, 4)
                for m in ([255] if c == 0 else [7, 248]):
                    o.append(J('%s-b%d-c%d-%d' % (n, b, c, m), 'ops', 0, 12, ttime=90, params=dict(label=i, base=b, cons=c, mask=m, prop=prop, geo=1 if cyl or c else b & 1, policy=(2 if c == 1 else 0), committed=c & 1, **big), bound='%s label, base table %d, constraint kind %d: every operation and argument' % (n, b, c), samples=1, thorough_only=slow))
                if b == 5 and c == 0 and slow: o.append(J('%s-full' % n, 'ops', 0, 12, ttime=60, params=dict(label=i, base=5, cons=0, mask=7, prop=prop, geo=1), samples=1, bound='additions to a nearly full %s table' % n))
        if n != 'loop':
            for m in (0x07, 0x1f, 0xff): o.append(J('%s-seq-%x' % (n, m), 'ops', 0, 10, ttime=200, params=dict(label=i, base=0 if m == 7 else 1, cons=0, mask=m, prop=prop, ops=2, geo=1, **big), tparams=dict(ops=3), bound='%s: every sequence of 2 (thorough 3) operations' % n, samples=1, opts=['--search', '2']))
            o.append(J('%s-4k' % n, 'ops', 0, 20, params=dict(label=i, base=2, cons=0, prop=prop, geo=1, ss=4096, len=20000), samples=1, bound='4096-byte sectors'))
    return o
BOPS = 'per label (gpt, msdos, sun, bsd, dvh, mac, amiga, atari, pc98, loop): six base tables of 0..25 partitions on devices of 2^16 (400000 for cylinder based labels) sectors, two geometries, then one operation of any kind (add primary/logical/extended, remove, move/resize, maximise, minimise extended, delete all) with every start and end, under exact, any, sized (every min/max), ranged and aligned constraints; sequences of two (thorough three) operations under exact constraints; 4096-byte sectors'
P('C05', ops_jobs(5), must_reach=['added', 'added-log', 'added-ext', 'refused', 'removed', 'moved', 'maximised', 'minimised', 'cleared', 'empty'], bounds=BOPS)
P('C06', ops_jobs(6), must_reach=['refused', 'empty'], bounds=BOPS)
P('C07', ops_jobs(7), must_reach=['added', 'added-log', 'removed', 'numbers'], bounds=BOPS)
# ---------------------------------------------------------------- round trips
H('rtrip', drop=['labels/efi_crc32.c'], filefl={'filesys.c': ['-Dped_file_system_probe=real_ped_file_system_probe']}, add=[vlib_V + '/harness/crcmodel.c'])
def rt_jobs(prop, labs, modes=(0, 1), rrs=(0, 1), bases=(0, 1, 2, 3, 4), **kw):
    o = []
    for n in labs:
        i = LAB.index(n); cyl = n in ('pc98', 'sun', 'amiga'); big = dict(len=400000) if cyl else {}
        for b in bases:
            if n == 'loop' and b: continue
            for rr in rrs:
                base = dict(label=i, base=b, reread=rr, prop=prop, geo=1, fill=b & 1, **big); base.update(kw)
                if 1 in modes: o.append(J('%s-b%d-m1-r%d' % (n, b, rr), 'rtrip', 0, 20, ttime=90, params=dict(base, mode=1), samples=1, bound='one attribute change (any flag, name, type id, UUID, system)'))
                if 0 in modes:
                    if n == 'msdos':
                        o.append(J('%s-b%d-m0-r%d' % (n, b, rr), 'rtrip', 0, 20, ttime=90, params=dict(base, mode=0, len=1 << 22, lo=140000), samples=1, bound='every start and end beyond cylinder 1023'))
                        for w, (lo, hi) in enumerate([(0, 70), (2040, 2060), (8180, 8200), (32760, 32770), (131060, 131080)] if not b or not rr else [(0, 70)]): o.append(J('%s-b%d-w%d-r%d' % (n, b, w, rr), 'rtrip', 0, 20, ttime=90, params=dict(base, mode=0, lo=lo, hi=hi, cst=1, len=200000), samples=1, thorough_only=b not in (0, 2), bound='every start and end in %d..%d' % (lo, hi)))
                    else: o.append(J('%s-b%d-m0-r%d' % (n, b, rr), 'rtrip', 0, 20, ttime=90, params=dict(base, mode=0), samples=1, bound='every start and end'))
    return o
P('C08', rt_jobs(8, ['gpt']), must_reach=['roundtrip'])
P('C12', rt_jobs(8, ['msdos']), must_reach=['roundtrip'])
P('C15', rt_jobs(8, ['sun', 'bsd', 'dvh', 'pc98', 'loop']), must_reach=['roundtrip'])
P('C16', rt_jobs(8, ['mac', 'amiga', 'atari']), must_reach=['roundtrip'])
# ---------------------------------------------------------------- commits, flags, duplicates, limits, fresh labels
ALL10 = LAB
def sub_jobs(prop, labs=ALL10, modes=(0, 1), bases=(0, 2, 3), rrs=(0, 1), t=12, tt=90, **kw):
    o = []
    for n in labs:
        i = LAB.index(n); cyl = n in ('pc98', 'sun', 'amiga'); big = dict(len=400000) if cyl else {}
        for b in bases:
            if n == 'loop' and b != bases[0]: continue
            for rr in rrs:
                for m in modes:
                    o.append(J('%s-b%d-m%d-r%d' % (n, b, m, rr), 'rtrip', 0, t, ttime=tt, params=dict(dict(label=i, base=b, reread=rr, prop=prop, geo=1, mode=m, fill=b & 1, **big), **kw), samples=1, bound='%s, base table %d: one %s change' % (n, b, 'geometry' if m == 0 else 'attribute')))
    return o
KEEP = [J('%s-keep%d-m%d' % (n, z, m), 'rtrip', 0, 15, ttime=90, params=dict(label=LAB.index(n), base=2, reread=1, keep=1, keepz=z, prop=14, geo=1, mode=m, policy=1 if n == 'atari' else 0, **(dict(len=400000) if n in ('pc98', 'sun', 'amiga') else {})), samples=1, bound='%s: arbitrary boot code, signature and vendor bytes already on the device survive a commit (%s)' % (n, ('geometry change', 'attribute change', '', 'unmodified table')[m])) for n, z in (('msdos', 0), ('msdos', 1), ('gpt', 0), ('pc98', 0), ('atari', 0), ('bsd', 0), ('mac', 0), ('sun', 0), ('amiga', 0)) for m in (0, 1, 3)]
P('C14', sub_jobs(14) + KEEP, must_reach=['writes', 'added', 'moved', 'flag-set', 'kept'])
P('C22', sub_jobs(22, modes=(1,), steps=2, attrs=1 + 16 + 32), must_reach=['flag-set', 'flag-clear', 'flag-unavail', 'flag-same', 'dflag-set'])
def renamed(js, suf): 
    for j in js: j['name'] += suf
    return js
P('C26', renamed(sub_jobs(26, bases=(0, 2, 3), rrs=(0, 1), steps=1), '-pre') + renamed(sub_jobs(26, bases=(0, 3), rrs=(0,), steps=0, post=1), '-dup') + renamed(sub_jobs(26, bases=(0, 3), rrs=(0,), steps=0, post=2), '-org'), must_reach=['duplicated', 'added', 'moved', 'flag-set'])
# fresh labels over anything
P('C28', [J('%s-over-%s' % (a, b), 'rtrip', 0, 10, params=dict(label=LAB.index(a), old=LAB.index(b), oldbase=2, base=0, prop=28, geo=1, mode=3, **(dict(len=400000) if {'pc98', 'sun', 'amiga'} & {a, b} else {})), samples=1, bound='fresh %s label over a committed %s label' % (a, b)) for a in LAB for b in LAB if not (b == 'atari' and a == 'loop')] +
  [J('%s-any' % a, 'rtrip', 0, 30, params=dict(label=LAB.index(a), base=0, prop=28, geo=1, mode=3, symn=40, **(dict(len=400000) if a in ('pc98', 'sun', 'amiga') else {})), samples=1, bound='fresh %s label over 20 KiB of arbitrary bytes' % a) for a in LAB] +
  [J('%s-b%d-m%d' % (a, b, m), 'rtrip', 0, 12, ttime=90, params=dict(label=LAB.index(a), base=b, prop=28, geo=1, mode=m, steps=1, maybe=1, **(dict(len=1 << 22, lo=140000) if a == 'msdos' and m == 0 else dict(len=400000 if a in ('pc98', 'sun', 'amiga') else 65536))), samples=1, bound='%s label with base table %d and one change' % (a, b)) for a in LAB for b, m in ((2, 0), (3, 1)) if a != 'loop'],
  must_reach=['roundtrip'])
# ---------------------------------------------------------------- limits
def lj(n, w, ss=512, b=0, ln=1 << 34, **kw): 
    lo, hi, bd = w
    return J('%s-b%d-s%d-%s' % (n, b, ss, bd), 'rtrip', 0, kw.pop('t', 15), ttime=120, params=dict(label=LAB.index(n), base=b, prop=27, geo=1, mode=0, ops=kw.pop('ops', 1), maybe=1, ss=ss, len=ln, lo=lo, hi=hi, **kw), samples=1, bound='%s on %d sectors of %d bytes: one new partition, start and end in %d..%d' % (n, ln, ss, lo, hi))
P('C27', [lj(n, (0, (1 << 34) - 1, 'any'), ss) for n in LAB for ss in (512, 4096) if ss == 512 or n in ('msdos', 'mac', 'bsd', 'dvh', 'gpt')] +
  [lj(n, (0, (1 << 33) - 1, 'ops%d' % m), 512, 2, 1 << 33, ops=m, t=20) for n in LAB if n != 'loop' for m in (7, 24) if (n, m) != ('msdos', 7)] +
  [lj('msdos', ((1 << 32) - 100, (1 << 32) + 100, 'w%d' % m), 512, 2, 1 << 33, ops=m, t=20) for m in (1, 2, 4)] +
  [lj('atari', (0, (1 << l) - 1, 'l%d' % l), 512, b, 1 << l, ops=31) for l in (31, 30) for b in (0, 2)] + [lj(n, (0, (1 << 32) + 4095, 'e32'), 512, 0, (1 << 32) + 4096) for n in ('msdos', 'mac', 'bsd', 'sun', 'amiga')], must_reach=['roundtrip', 'added', 'refused'])
# ---------------------------------------------------------------- units
H('unit')
def uj(name, case, **kw): return J(name, 'unit', case, kw.pop('t', 15), ttime=90, bound=kw.pop('bound', ''), params=kw)
UNITDEV = [('d', dict()), ('4k', dict(ss=4096, len=300000)), ('small', dict(len=5000, heads=4, spt=32)), ('big', dict(len=1 << 40))]
SFX = ['s', 'B', 'kB', 'MB', 'GB', 'TB', 'cyl', '%', 'kiB', 'MiB', 'GiB', 'TiB', 'K', 'm', 'gi', 'c', 'none']
P('C20', [uj('chs-%s' % n, 0, u=8, bound='every sector of the device printed as cylinder,head,sector and parsed', **dict(o, len=min(o.get('len', 2000000), 4000000))) for n, o in UNITDEV] +
  [uj('back-%d-%s' % (u, n), 0, u=u, bound='every sector printed in unit %d and parsed' % u, **dict(o, len=min(o.get('len', 2000000), 1 << 24))) for u in (0, 1, 7) for n, o in UNITDEV] +
  [uj('bytes-%d-%s' % (u, n), 2, u=u, bound='every byte position printed in unit %d' % u, **dict(o, len=min(o.get('len', 2000000), 1 << 24))) for u in (0, 1, 7) for n, o in UNITDEV[:3]] +
  [uj('sizes', 1, bound='size and name of every unit, any geometry')] +
  [uj('num-%s-%s-%d%s' % (SFX[k], n, nd, 'n' if ng else ''), 3, sfx=k, digits=nd, neg=ng, bound='every number of %d digits%s with suffix %s' % (nd, ' after a minus sign' if ng else '', SFX[k]), **o) for k in range(17) for n, o in UNITDEV[:3] for nd in (1, 4, 7) for ng in (0, 1) if (n == 'd' or nd == 4) and not (nd == 7 and SFX[k] in ('GB', 'TB')) for nd in [2 if (SFX[k], nd) == ('TB', 4) else nd]] +
  [uj('num-%s-%s-sp%d%s' % (SFX[k], n, sp, 'n' if ng else ''), 3, sfx=k, digits=2, neg=ng, space=sp, bound='every number of 2 digits with suffix %s, with spaces (form %d)' % (SFX[k], sp), **o) for k in (0, 3, 6, 9, 10, 16) for n, o in UNITDEV[:1] for sp in (1, 2, 4, 7) for ng in (0, 1) if not (ng and sp & 2)] +
  [uj('chstext-%s-%d' % (n, c), 4, nc=c, bound='every cylinder,head,sector text of %d,3,2 digits' % c, **o) for n, o in UNITDEV[:3] for c in (1, 4)] +
  [uj('any-%d-%d' % (n, p), 5, n=n, pre=p, bound='every text of %d characters after prefix %d' % (n, p)) for n, p in ((1, 0), (2, 0), (3, 0), (4, 0), (2, 1), (2, 2), (2, 3))],
  must_reach=['back-chs', 'back-linear', 'back-cyl', 'whole', 'size', 'number', 'outside', 'chs', 'chs-refused', 'any-ok', 'any-bad'])
# ---------------------------------------------------------------- arbitrary bytes
FSP = {'filesys.c': ['-Dped_file_system_probe=real_ped_file_system_probe']}
H('bytes', filefl=FSP, drop=['labels/efi_crc32.c'], add=[vlib_V + '/harness/crcmodel.c'])
def bj(name, label, t=20, tt=200, case=0, **kw):
    cyl = label in ('pc98', 'sun', 'amiga'); bound = kw.pop('bound', '')
    return J(name, 'bytes', case, t, ttime=tt, params=dict(dict(label=(LAB + ['aix']).index(label), **(dict(len=400000) if cyl else {})), **kw), samples=1, bound=bound)
def wn(*w): # windows (sector, count, offset, length)
    o = {}
    for i, (a, n, c, e) in enumerate(w): o.update({'wa%d' % i: a, 'wn%d' % i: n, 'wo%d' % i: c, 'wl%d' % i: e})
    return o
# base 3 of an msdos label on 65536 sectors: extended 16384..57343, boot records at its start and before the 2nd and 3rd logical
def ent(sec, *es): return [w for e in es for w in ((sec, 1, 446 + 16 * e, 1), (sec, 1, 450 + 16 * e, 1), (sec, 1, 454 + 16 * e, 8))]
def chs(sec, *es): return [w for e in es for w in ((sec, 1, 447 + 16 * e, 3), (sec, 1, 451 + 16 * e, 3))]
P('C13', [bj('mbr', 'msdos', wa0=0, probe=1, skipfs=0, prop=13, bound='every content of sector 0: recognition')] +
  [bj('mbr-e%s%s' % (''.join(map(str, e)), 'i' if p else ''), 'msdos', base=0, policy=p, **wn(*ent(0, *e)), prop=13, bound='boot flag, type, start and length of %d primary entries arbitrary' % len(e)) for e, p in (((0,), 0), ((0, 1), 0), ((2, 3), 4), ((0, 1, 2), 0))] +
  [bj('mbr-chs%d' % b, 'msdos', base=b, **wn(*chs(0, 0)), prop=13, bound='all CHS fields of the first entry arbitrary') for b in (1,)] +
  [bj('ebr-%s%s' % (n, 'i' if p else ''), 'msdos', base=3, policy=p, **wn(*w), prop=13, bound='type, start and length of the entries of one or two boot records of the chain arbitrary') for n, w, p in (('first', ent(16384, 0), 0), ('both', ent(16384, 0, 1), 0), ('link', ent(16384, 1), 0), ('link', ent(16384, 1), 4), ('four', ent(16384, 1, 2), 0), ('two', ent(16384, 1) + ent(32767, 1), 0), ('magic', [(16384, 1, 510, 2)], 0), ('magic', [(16384, 1, 510, 2)], 4))] +
  [bj('ebr-loop', 'msdos', base=2, **wn((20000, 1, 462, 16), (16384, 1, 474, 4)), pa0=20000*4096+510, pv0=0xaa55, pl0=2, pa1=16384*4096+450, pv1=0, pa2=16384*4096+466, pv2=5, pa3=16384*4096+478, pv3=1000, pl3=4, prop=13, bound='two empty boot records linking to arbitrary sectors')],
  must_reach=['recognised', 'unrecognised', 'refused', 'table', 'empty-table'])
W17 = [('probe-%s' % n, n, -1, [(0, 2, 0, 0)], 'recognition of every content of sectors 0 and 1', dict(probe=1)) for n in ('sun', 'bsd', 'dvh', 'pc98', 'loop', 'atari', 'mac', 'amiga', 'aix')] + [
  ('sun-two', 'sun', 2, [(0, 1, 446, 6), (0, 1, 454, 6), (0, 1, 510, 2)], 'start and size of two entries and the checksum', {}), ('sun-parts', 'sun', 2, [(0, 1, 142, 8), (0, 1, 444, 24), (0, 1, 510, 2)], 'tags, start and size of three entries and the checksum', {}),
  ('sun-geom', 'sun', 2, [(0, 1, 420, 24), (0, 1, 510, 2)], 'geometry fields and the checksum', {}), ('sun-whole', 'sun', 0, [(0, 1, 452, 8), (0, 1, 460, 8), (0, 1, 150, 8), (0, 1, 510, 2)], 'whole-disk entry', {}),
  ('bsd-parts', 'bsd', 2, [(0, 1, 212, 36)], 'two entries arbitrary', {}), ('bsd-head', 'bsd', 2, [(0, 1, 64, 148)], 'header fields arbitrary', {}), ('bsd-parts4', 'bsd', 0, [(0, 1, 212, 8), (0, 1, 224, 1), (0, 1, 228, 8), (0, 1, 240, 1), (0, 1, 244, 8), (0, 1, 256, 1)], 'three entries arbitrary', {}),
  ('dvh-pt', 'dvh', 2, [(0, 1, 312, 24), (0, 1, 504, 4)], 'two partition entries and the checksum', {}), ('dvh-pt8', 'dvh', 2, [(0, 1, 312 + 96, 12), (0, 1, 504, 4)], 'volume header entry', {}), ('dvh-vd', 'dvh', 2, [(0, 1, 72, 32), (0, 1, 504, 4)], 'two boot-file entries', {}), ('dvh-boot', 'dvh', 3, [(0, 1, 4, 20), (0, 1, 504, 4)], 'root, swap and boot file fields', {}),
  ('pc98-e', 'pc98', 2, [(1, 1, 0, 32)], 'one entry arbitrary', {}), ('pc98-e2', 'pc98', 2, [(1, 1, 0, 2), (1, 1, 8, 8), (1, 1, 32, 2), (1, 1, 40, 8)], 'two entries arbitrary', {}), ('pc98-ei', 'pc98', 2, [(1, 1, 0, 32)], 'one entry arbitrary, complaints ignored', dict(policy=4)),
  ('mac-disk', 'mac', 2, [(0, 1, 2, 6), (0, 1, 16, 26)], 'driver descriptor: block size, count, drivers', {}), ('mac-diski', 'mac', 2, [(0, 1, 2, 6), (0, 1, 16, 2)], 'driver descriptor, complaints ignored', dict(policy=4)), ('mac-p2', 'mac', 2, [(2, 1, 0, 16), (2, 1, 80, 12)], 'geometry fields of a map entry', {}), ('mac-p1', 'mac', 2, [(1, 1, 0, 16), (1, 1, 80, 12)], 'geometry fields of the map itself', {}), ('mac-str', 'mac', 2, [(2, 1, 16, 64)], 'name and type of a map entry', {}), ('mac-cnt', 'mac', 2, [(1, 1, 4, 4), (2, 1, 4, 4), (3, 1, 4, 4)], 'map sizes', {}), ('mac-p2i', 'mac', 2, [(2, 1, 0, 16), (2, 1, 80, 12)], 'geometry fields of a map entry, complaints ignored', dict(policy=4)),
  ('amiga-rdb', 'amiga', 2, [(2, 1, 4, 8), (2, 1, 24, 20)], 'list heads, size and checksum of the RDB', {}), ('amiga-geom', 'amiga', 2, [(2, 1, 8, 4), (2, 1, 64, 12), (2, 1, 128, 20)], 'geometry fields of the RDB', {}), ('amiga-sum', 'amiga', 2, [(2, 1, 4, 8)], 'size and checksum of the RDB', {}),
  ('amiga-part', 'amiga', 2, [(3, 1, 4, 8), (3, 1, 16, 8), (3, 1, 164, 8)], 'link, flags and cylinders of a partition block', {}), ('amiga-parti', 'amiga', 2, [(3, 1, 4, 8), (3, 1, 16, 8), (3, 1, 164, 8)], 'the same with complaints ignored', dict(policy=4)), ('amiga-name', 'amiga', 2, [(3, 1, 8, 4), (3, 1, 36, 32), (3, 1, 20, 4)], 'name and flags of a partition block', {}), ('amiga-alt', 'amiga', -1, [(5, 1, 0, 80)], 'RDB in another sector', {}),
  ('atari-e', 'atari', 2, [(0, 1, 0x1c6, 24), (0, 1, 0x1f6, 8)], 'two entries and the bad-sector list', {}), ('atari-e4', 'atari', 2, [(0, 1, 0x1c6, 48)], 'four entries', {}), ('atari-icd', 'atari', 1, [(0, 1, 0x156, 24)], 'ICD entries', {}), ('atari-size', 'atari', 2, [(0, 1, 0x1c2, 4)], 'device size', {}), ('atari-xgm', 'atari', 3, [(16384, 1, 0x1c6, 24)], 'chain entries', {}), ('atari-ei', 'atari', 2, [(0, 1, 0x1c6, 24)], 'two entries, complaints ignored', dict(policy=4)),
  ('loop-any', 'loop', 0, [(0, 1, 0, 40)], 'signature area', {})]
P('C17', [bj(nm, n, t=12, tt=120, base=b, **wn(*w), prop=17, bound=bd, **o) for nm, n, b, w, bd, o in W17], must_reach=['recognised', 'unrecognised', 'refused', 'table', 'empty-table'])
# ---------------------------------------------------------------- file-system probes
NFS = 39
def fj(name, fs, ss, ln, st, gl, sym, t=5, tt=60): return bj(name, 'gpt', case=1, t=t, tt=tt, fs=fs, bg=2, ss=ss, len=ln, start=st, glen=gl, symlen=sym, prop=18, skipfs=0, bound='every content of the device: %s on a region of %s sectors of %d bytes' % ('file-system type number %d' % fs if fs >= 0 else 'all types', ('1 to %d' % gl) if sym else str(gl), ss))
P('C18', [fj('fs%d-%s' % (i, n), i, *a) for i in range(NFS) for n, a in (('tiny', (512, 64, 44, 20, 1)), ('big', (512, 1 << 22, 2048, 1 << 21, 0)), ('4k', (4096, 1 << 18, 256, 1 << 17, 0)), ('4ktiny', (4096, 40, 36, 4, 1)))] + [fj('all-%s' % n, -1, *a, t=20, tt=100) for n, a in (('tiny', (512, 64, 44, 3, 0)), ('big', (512, 1 << 20, 0, 1 << 20, 0)))], must_reach=['accepted', 'rejected', 'detected', 'undetected'])
# ---------------------------------------------------------------- GPT
HC, AC = (16, 4), (88, 4) # the two checksums
def gw(*r, s=1): return wn(*[(s, 1, o, n) for o, n in r])
G11 = [('sizes', 2, gw((80, 8), HC, AC), {}), ('count', 2, gw((80, 4), HC, AC), {}), ('esize', 2, gw((84, 4), HC, AC), {}), ('lbas', 2, gw((24, 32), HC), {}), ('usable', 2, gw((40, 16), HC), {}), ('ptelba', 2, gw((72, 8), HC, AC), {}), ('hsize', 2, gw((8, 8), HC), {}), ('guid', 2, gw((56, 16), HC), {}), ('all', 2, gw((0, 92)), {}), ('alli', 2, gw((0, 92)), dict(policy=4)), ('grown', 2, gw((32, 8), (48, 8), HC), dict(policy=1, ro=0)), ('growni', 2, gw((32, 8), (48, 8), HC), dict(policy=4)),
  ('bak-all', 2, wn((1, 1, 16, 4), (-2, 1, 0, 92)), dict(policy=4)), ('bak-usable', 2, wn((-2, 1, 40, 16), (-2, 1, 16, 4)), dict(pa0=4096 + 16, pv0=1, pl0=4, policy=4)), ('bak-sizes', 2, wn((-2, 1, 80, 12), (-2, 1, 16, 4)), dict(pa0=4096 + 16, pv0=1, pl0=4, policy=4)), ('bak-alt', 2, wn((1, 1, 32, 8), (1, 1, 16, 4), (-2, 1, 24, 16), (-2, 1, 16, 4)), dict(policy=4)),
  ('ent1', 2, wn((1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 32, 16)), {}), ('ent2', 2, wn((1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 32, 16), (2, 1, 160, 16)), {}), ('ent2i', 2, wn((1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 32, 16), (2, 1, 160, 16)), dict(policy=4)), ('ent-type', 2, wn((1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 0, 32), (2, 1, 48, 8)), {}), ('ent-name', 2, wn((1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 56, 72)), {}), ('ent-attr', 2, wn((1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 48, 8), (2, 1, 176, 8)), {}), ('ent-usable', 2, wn((1, 1, 40, 16), (1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 32, 16)), {}),
  ('pmbr', 2, wn((0, 1, 440, 72)), dict(probe=1)), ('pmbr-read', 2, wn((0, 1, 446, 64)), {})]
P('C11', [bj('%s-s%d' % (n, ss), 'gpt', t=15, tt=150, base=b, ss=ss, prop=11, bound='GPT header or entry bytes arbitrary (%s), %d-byte sectors' % (n, ss), **{**w, **o}) for n, b, w, o in G11 for ss in (512, 4096) if ss == 512 or n in ('sizes', 'all', 'bak-all', 'ent2')] +
  [bj('commit-%s' % n, 'gpt', t=15, tt=150, base=b, prop=11, commit=1, ro=0, bound='GPT header bytes arbitrary (%s), then a commit' % n, **w) for n, b, w in (('usable', 2, gw((40, 16), HC)), ('lbas', 2, gw((24, 32), HC)), ('count512', 2, dict(wn((1, 1, 40, 8), (1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 32, 8)), pa0=4096 + 80, pv0=512, pl0=4)), ('count8', 2, dict(wn((1, 1, 40, 16), (1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 32, 16)), pa0=4096 + 80, pv0=8, pl0=4)), ('end', 2, wn((1, 1, 48, 8), (1, 1, 16, 4), (1, 1, 88, 4), (2, 1, 40, 8))))] +
  [bj('small-%d' % l, 'gpt', t=10, len=l, prop=11, policy=p, bound='any bytes on a device of %d sectors' % l, **wn((0, l, 0, 0))) for l, p in ((2, 0), (3, 4), (5, 4))], must_reach=['recognised', 'unrecognised', 'refused', 'table', 'empty-table'])
def gj(name, case, **kw): return bj(name, 'gpt', case=case, **{**dict(base=3, t=20, tt=100), **kw})
P('C10', [gj('p%d-b%d-s%d%s' % (p, b, ss, 'r' if r else ''), 3, pri=p, bak=b, ss=ss, repair=r, prop=10, bound='primary copy damage %d, backup copy damage %d (0 none, 1 any header bytes, 2 checksum, 3 any bytes of an entry sector, 4 signature), %d-byte sectors' % (p, b, ss)) for p, b, ss, r in ((0, 0, 512, 0), (1, 0, 512, 0), (2, 0, 512, 1), (3, 0, 512, 1), (4, 0, 512, 1), (0, 1, 512, 0), (0, 2, 512, 1), (0, 3, 512, 1), (0, 4, 512, 1), (1, 1, 512, 0), (1, 3, 512, 0), (3, 1, 512, 0), (3, 3, 512, 0), (2, 2, 512, 0), (4, 3, 512, 0), (4, 4, 512, 0), (1, 0, 4096, 0), (3, 0, 4096, 1), (0, 3, 4096, 0), (3, 3, 4096, 0))] +
  [gj('p1-%d' % o, 3, pri=1, dlo=o, dhi=o + 8, repair=0, prop=10, t=10, bound='primary header bytes %d-%d arbitrary' % (o, o + 7)) for o in range(0, 92, 8)] + [gj('b1-%d' % o, 3, bak=1, dlo=o, dhi=o + 8, prop=10, t=10, bound='backup header bytes %d-%d arbitrary' % (o, o + 7)) for o in range(0, 92, 8)],
  must_reach=['intact', 'primary-damaged', 'backup-damaged', 'both-damaged', 'repaired'])
P('C09', [gj('%s-s%d' % (n, ss), 4, op=o, ss=ss, prop=9, bound='commit after one change (%s), every crash point, %d-byte sectors' % (n, ss)) for n, o in (('add', 0), ('delete', 1), ('flag-name', 2), ('add-delete', 3), ('delete-all', 4), ('pmbr-flag', 5)) for ss in (512, 4096)], must_reach=['complete', 'new', 'old'])
def cb(name, label, ss=512, **kw): return bj(name, label, case=2, ss=ss, t=20, tt=60, bound=kw.pop('bound', ''), **kw)
P('C19', [cb('%s-s%d' % (n, ss), n, ss, base=b, bound='a committed %s label, %d-byte sectors' % (n, ss)) for n in LAB for ss in (512, 1024, 2048, 4096) for b in (2,)  if ss == 512 or n in ('gpt', 'msdos', 'loop', 'bsd', 'dvh')] +
  [cb('any-s%d' % ss, 'gpt', ss, nogpt=1, bound='arbitrary bytes in the first and last sectors', **wn((0, 20 * 512 // ss + 2, 0, 0), (-(20 * 512 // ss) - 3, 20 * 512 // ss + 2, 0, 0))) for ss in (512, 1024, 2048, 4096)] +
  [cb('len%d' % l, 'gpt', 512, nogpt=1, len=l, bound='arbitrary bytes on a device of %d sectors' % l, **wn((0, l, 0, 0))) for l in (17, 18, 19, 20, 37, 38, 39, 40)] +
  [cb('gpt-any-s%d' % ss, 'gpt', ss, base=0, boot=1, bound='arbitrary bytes around a GPT', **wn((2, 8, 0, 0), (0, 1, 0, 446))) for ss in (512, 2048)],
  must_reach=['cleared', 'was-gpt'])

# ---------------------------------------------------------------- listings
CAP = tuple('-D%s=cap_%s' % (x, x) for x in ('fputc', 'fputs', 'puts', 'putchar', 'fwrite', 'fprintf', 'vfprintf', 'printf', 'vprintf')) + ('-Dputc=cap_fputc',)
REPO_ = '/repo'
WIDE = CAP + ('-DENABLE_NLS=1',) + tuple('-D%s=m_%s' % (x, x) for x in ('wcslen', 'wcscat', 'wcschr', 'wcsdup', 'wcscasecmp', 'wcsncasecmp', 'wcswidth', 'mbsrtowcs', 'wcrtomb', 'iswalnum', 'iswpunct', 'btowc', 'dgettext', 'setlocale', 'bindtextdomain', 'textdomain', 'sigaction', 'sigfillset', 'error'))
UI = [('%s/parted/%s.c' % (REPO_, x), WIDE) for x in ('ui', 'command', 'table', 'strlist', 'jsonwrt')]
H('json', add=UI + [vlib_V + '/shim/uistub.c', vlib_V + '/harness/wide.c', (vlib_V + '/harness/partedmain.c', WIDE + ('-I' + REPO + '/parted',))], flags=CAP)
def jj(name, case, **kw): return J(name, 'json', case, kw.pop('t', 30), ttime=120, bound=kw.pop('bound', ''), params=kw)
P('C30', [jj('string-%d-%d' % (n, m), 0, n=n, nn=m, bound='every text of %d and 20+%d bytes' % (n, m)) for n, m in ((0, 0), (1, 1), (2, 1), (1, 2), (3, 0))] + [jj('tree', 1, steps=4, t=60, bound='every sequence of 4 writer calls')] +
  [jj('%s-m%d-w%d-b%d' % (l, m, w, b), 2, label=LAB.index(l), mode=m, what=w, base=b, n=n, len=400000 if l in ('pc98', 'sun', 'amiga') else 65536) for l, b in (('gpt', 3), ('msdos', 3), ('mac', 1), ('dvh', 2), ('pc98', 1), ('amiga', 1), ('sun', 1), ('bsd', 1), ('atari', 2), ('loop', 0)) for m in (0, 1, 2) for w, n in ((0, 2), (1, 2), (2, 2), (3, 0), (4, 0), (5, 0), (6, 1)) if not (w == 2 and l not in ('gpt', 'mac', 'dvh', 'pc98', 'amiga'))] +
  [jj('%s-long-m%d' % (l, m), 2, label=LAB.index(l), mode=m, what=2, base=1, n=1, pad=p, len=400000 if l == 'amiga' else 65536) for l, p in (('gpt', 34), ('mac', 30), ('amiga', 29)) for m in (0, 1, 2)] + [jj('none-m%d-u%d' % (m, u), 2, label=0, mode=m, what=0, base=0, n=2, nodisk=1, unit=u) for m in (0, 1, 2) for u in (0, 3)] + [jj('gpt-m%d-u%d' % (m, u), 2, label=0, mode=m, what=3 if u < 5 else 6, base=2, n=0, unit=u) for m in (0, 1, 2) for u in range(1, 7)],
  must_reach=['string', 'tree', 'json', 'colon', 'json-part', 'colon-part', 'json-free', 'json-none', 'human'])

# ---------------------------------------------------------------- command line
H('text', add=UI + [vlib_V + '/shim/uistub.c', vlib_V + '/harness/wide.c', (vlib_V + '/harness/partedmain.c', WIDE + ('-I' + REPO + '/parted',))], flags=CAP + ('-I' + REPO + '/parted',))
def xj(name, case, **kw): return J(name, 'text', case, kw.pop('t', 30), ttime=120, bound=kw.pop('bound', ''), params=kw)
WORDS = ['part-type', 'state', 'align', 'unit', 'part-flag', 'disk-flag', 'fs-type', 'disk-type']
P('C32', [xj('list', 0), xj('match-1', 1, n=2, len=2), xj('match-2', 1, n=3, len=1)] +
  [xj('wrap-%s-%d-%d-%d' % (w, ll, off, ind), 2, shape=i, ll=ll, off=off, ind=ind) for i, w in enumerate(['words', 'window', 'parts']) for ll, off, ind in ((12, 0, 0), (14, 0, 2), (12, 12, 0), (12, 7, 0), (80, 0, 0))] +
  [xj('words-%d' % n, 3, n=n) for n in (1, 2, 3, 4)] + [xj('single-%d' % n, 3, n=n, single=1) for n in (1, 2, 3, 4)] + [xj('long', 3, n=1, pad=300), xj('long-single', 3, n=1, pad=300, single=1)] +
  [xj('%s-%d-l%d' % (w, n, l), 4, what=i, n=n, label=l) for i, w in enumerate(WORDS) for n in (1, 2, 3) for l in ((0, 1) if i in (0, 4, 5) else (0,))] + [xj('%s-whole' % w, 4, what=i, n=0, label=0) for i, w in enumerate(WORDS)] +
  [xj('integer-%d' % n, 5, n=n) for n in (1, 2, 3)] + [xj('integer-big', 5, n=1, pad=1)] + [xj('command-%d' % n, 6, n=n) for n in (0, 1, 2, 3)],
  must_reach=['list', 'matched', 'unmatched', 'wrapped', 'words', 'chosen', 'not-chosen', 'integer', 'command', 'no-command'])

H('cli', drop=['labels/efi_crc32.c'], add=[vlib_V + '/harness/crcmodel.c'] + UI + [vlib_V + '/shim/uistub.c', vlib_V + '/harness/wide.c', (vlib_V + '/harness/partedmain.c', WIDE + ('-I' + REPO + '/parted', '-Dcommand_line_get_sector=h_get_sector', '-Dped_disk_commit=h_commit'))], flags=CAP, filefl={'filesys.c': ['-Dped_file_system_probe=real_ped_file_system_probe']})
def cj(l, cmd, b, **kw): 
    nm = kw.pop('nm', '')
    if l == 'bsd': kw['lossy'] = 1
    return J('%s-%s-b%d%s' % (l, CMDS[cmd], b, nm), 'cli', 0, kw.pop('t', 20), ttime=120, samples=1, bound='%s on %s, base table %d' % (CMDS[cmd], l, b), params=dict(dict(label=LAB.index(l), cmd=cmd, base=b, len=400000 if l in ('pc98', 'sun', 'amiga') else 65536), **kw))
CMDS = ['mkpart', 'resizepart', 'rm', 'set', 'toggle', 'name', 'mklabel', 'align-check', 'type', 'disk_set']
P('C33', [cj(l, c, b) for l in LAB if l != 'loop' for c in range(10) for b in (1, 3) if not (c == 5 and l not in ('gpt', 'mac', 'dvh', 'pc98', 'amiga') or c == 8 and l not in ('gpt', 'msdos') or c == 9 and l not in ('gpt', 'msdos', 'sun'))] +
  [cj(l, c, b, script=0, nm='-inter') for l in ('gpt', 'msdos', 'sun') for c in (0, 1) for b in (1, 3)] + [cj(l, c, b, align=a, aoff=3, agrain=8, nm='-a%d' % a) for l in ('gpt', 'msdos') for c, b, a in ((0, 1, 5), (0, 3, 5), (0, 1, 4), (1, 1, 5), (7, 1, 5))] + [cj('msdos', c, 3, align=3, nm='-cyl') for c in (0, 1)] + [cj(l, c, 3, unread=1, nm='-unread') for l in ('gpt', 'msdos') for c in range(10) if not (c == 5 and l == 'msdos')],
  must_reach=['made', 'resized', 'shrunk', 'gone', 'flagged', 'named', 'label', 'aligned', 'misaligned', 'typed', 'dflagged', 'refused'])

# ---------------------------------------------------------------- the Linux device layer
SYSR = tuple('-D%s=sys_%s' % (f, f) for f in 'open close read write lseek fsync ioctl stat fopen fgets fclose fscanf opendir readdir closedir uname usleep getenv'.split())
H('sys', filefl=FSP, drop=['labels/efi_crc32.c'], add=[vlib_V + '/harness/crcmodel.c'] + [(REPO + '/libparted/arch/linux.c', SYSR)], envflags=('-DRT_NO_ARCH',))
def sj(name, case, /, **kw): return J(name, 'sys', case, kw.pop('t', 40), ttime=200, samples=kw.pop('samples', 2), bound=kw.pop('bound', ''), params=kw)
P('C21', [sj('%s-%s-ss%d%s' % (rw, w, ss, '-unhandled' if pol == 2 else ''), c, ss=ss, count=n, policy=pol, faults=f, bound='every start sector, %d sectors of %d bytes, up to %d faults, every answer' % (n, ss, f)) for c, rw in ((0, 'read'), (1, 'write')) for ss in (512, 2048, 4096) for w, n, f in (('1', 1, 3), ('2', 2, 3)) for pol in (3, 2)] +
  [sj('%s-%s' % (rw, nm), c, **dict(dict(ss=512, count=2, faults=2), **kw)) for c, rw in ((0, 'read'), (1, 'write')) for nm, kw in (('geom', dict(geom=1)), ('far', dict(big=1)), ('eintr', dict(eintr=1)), ('many', dict(count=16, faults=2)), ('bytes', dict(count=1, fine=1, faults=1)), ('more', dict(count=1, faults=4)))] +
  [sj('write-ro', 1, ro=1), sj('read-ro', 0, ro=1, count=1)] + [sj('check-%d-%d' % (ss, n), 2, ss=ss, count=n, faults=2) for ss in (512, 4096) for n in (1, 3)] + [sj('sync-%d' % b, 3, blk=b, faults=3) for b in (0, 1)],
  must_reach=['read', 'wrote', 'recovered', 'failed', 'read-only', 'checked', 'bad', 'synced', 'sync-failed'])
P('C25', [sj('history-%d%s' % (n, '-blk' if b else ''), 4, n=n, blk=b, faults=f, t=60, bound='every sequence of %d operations, %d faults' % (n, f)) for b in (0, 1) for n, f in ((3, 2), (4, 1), (5, 0))] +
  [sj('probe-file-ss%d' % ss, 5, ss=ss, stat=1) for ss in (512,)] + [sj('probe-file-size', 5, symlen=1)] + [sj('probe-%d%s-ss%d' % (m, nm, ss), 5, major=m, blk=1, ss=ss, name=n, faults=f, stat=st) for m, nm, n, f, st in ((8, '', 0, 2, 0), (3, '', 0, 2, 0), (48, '', 0, 2, 0), (179, '', 0, 1, 0), (259, '-nvme', 1, 1, 0), (259, '-pmem', 2, 1, 0), (259, '', 0, 1, 0), (252, '', 0, 1, 1), (7, '', 0, 1, 1), (9, '', 0, 1, 0), (1, '', 0, 1, 0), (200, '', 0, 1, 0), (72, '', 0, 1, 0), (202, '', 0, 1, 0), (94, '', 0, 1, 0)) for ss in (512, 4096)],
  must_reach=['opened', 'open-failed', 'closed', 'lent', 'returned', 'reopen-failed', 'done', 'probed', 'refused'])
P('C29', [sj('%s-%d%s' % (l, n, nm), 6, label=LAB.index(l), n=n, **kw) for l, n, nm, kw in [('msdos', 1, '', dict(kparts=2)), ('msdos', 2, '', dict(kparts=3)), ('gpt', 2, '', dict(kparts=3)), ('gpt', 2, '-4k', dict(kparts=3, ss=4096)), ('msdos', 2, '-ext', dict(kparts=3, kind=1)), ('msdos', 2, '-ext-4k', dict(kparts=3, kind=1, ss=4096)), ('msdos', 1, '-log0', dict(kparts=5, kind=1, logical=1)), ('msdos', 1, '-log1', dict(kparts=5, kind=1, logical=1, loff=1)), ('gpt', 3, '-gap', dict(kparts=3, gap=1)), ('gpt', 2, '-fail', dict(kparts=2, kfail=1)), ('gpt', 2, '-nosysfs', dict(kparts=2, sysfs=0, range=2)), ('gpt', 2, '-norange', dict(kparts=2, range=-1)), ('gpt', 2, '-range0', dict(kparts=2, range=1)), ('gpt', 3, '-small', dict(kparts=3, range=2)), ('loop', 0, '', dict(kparts=2))]] + [sj('busy-%d%s' % (n, '-blk' if b else ''), 7, n=n, blk=b) for n in (0, 1, 2) for b in (0, 1)],
  must_reach=['told', 'nothing to tell', 'not told', 'ignored', 'busy', 'idle'])

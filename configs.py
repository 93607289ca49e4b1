"""Per property: the harness configurations (sources, bounds) that decide it."""
import os

VERIF = os.path.dirname(os.path.abspath(__file__))


class C:
    """one CBMC run"""
    def __init__(self, name, harness, srcs, defs=(), unwind=4, unwindset=(), models=('vmem.c',), cbmc_models=('vstr.c',),
                 tier='quick', sat=None, flags=(), timeout=None, mem=8, cost=10, bounds='', object_bits=8, native_libs=(), incs=(), engine='cbmc', steps=400000):
        self.name, self.harness, self.srcs, self.defs, self.unwind = name, harness, list(srcs), list(defs), unwind
        unwindset = list(unwindset) + [u.replace('memset.0', 'memset.1') for u in unwindset if u.startswith('memset.0')]
        self.unwindset, self.models, self.cbmc_models, self.tier = list(unwindset), list(models), list(cbmc_models), tier
        self.sat, self.flags, self.mem, self.cost, self.bounds = sat, list(flags), mem, cost, bounds
        self.engine, self.steps = engine, steps
        self.timeout = timeout or (600 if tier == 'quick' else 7200)
        self.object_bits, self.native_libs, self.incs = object_bits, list(native_libs), list(incs)

    def inc(self, repo):
        return [i.replace('@REPO', repo).replace('@VERIF', VERIF) for i in self.incs]


class P:
    def __init__(self, assumptions):
        self.assumptions, self.configs = list(assumptions), []


def known_findings(prop):
    r = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            if l.startswith('finding: property=%s ' % prop):
                r.append(l.split(' ', 2)[2].strip())
    except OSError:
        pass
    return r


PROPS = {}
MSG = ['lib/src/coap_msg.c']


def prop(pid, *assumptions):
    PROPS[pid] = P(assumptions)
    return PROPS[pid].configs


MEMNOTE = 'pool allocator replaced by its contract with one heap object per block (the real pools are decided by C05)'

# ------------------------------------------------------------------ C01 parsing
c01 = prop('C01', MEMNOTE, 'memcpy/memset are byte-loop models; long datagrams use the tracked-byte model of model/vstr.c')


def parse_cfg(lst, name, n, k, med=16, extra=(), track=False, **kw):
    us = ['memset.0:97', 'memcpy.0:9', 'harness.0:10'] if track else \
         ['memset.0:%d' % max(81, med + 1), 'memcpy.0:%d' % max(9, med + 1), 'harness.0:10']
    d = ['N=%d' % n, 'VMEM_MEDIUM=%d' % med, 'KOPS=%d' % k] + list(extra) + (['VTRACK'] if track else [])
    lst.append(C('parse-' + name, 'msg_parse', MSG, d, unwind=k + 2, unwindset=us,
                 bounds='datagram of exactly %d bytes, at most %d options, pool block %d bytes %s' % (n, k, med, ' '.join(extra)), **kw))


for n in range(1, 10):
    parse_cfg(c01, 'n%d' % n, n, max(1, n - 4), cost=n * n, extra=['REJECT_ONLY'] if n < 4 else [])
for p0 in (0x40, 0x51, 0x64, 0x78, 0x43):
    parse_cfg(c01, 'n12-h%02x' % p0, 12, 3 if p0 != 0x40 else 4, extra=['PINH=0x%02x' % p0] + (['REJECT_ONLY'] if p0 == 0x78 else []), cost=100)
for op in (0x0e, 0xde, 0xee):
    parse_cfg(c01, 'n290-op%02x' % op, 290, 1, med=290, extra=['PIN0=0x41', 'PINOP=0x%02x' % op], track=True, cost=60)
for op in (0x0d, 0xdd, 0xed):
    parse_cfg(c01, 'n155-op%02x' % op, 155, 1, med=155, extra=['PIN0=0x41', 'PINOP=0x%02x' % op], track=True, cost=80)

# ------------------------------------------------------------------ C02 formatting
c02 = prop('C02', MEMNOTE, 'options are added in ascending order here (the ordering itself is C03); option numbers up to 65535')


def fmt_cfg(lst, name, k, vmax, pmax, cap, extra=(), med=None, track=False, **kw):
    med = med or max(vmax, pmax, 8)
    big = max(med, vmax, pmax, cap) + 2
    d = ['K=%d' % k, 'VMAX=%d' % vmax, 'PMAX=%d' % pmax, 'CAP=%d' % cap, 'VMEM_MEDIUM=%d' % med] + list(extra) + (['VTRACK'] if track else [])
    us = ['memset.0:%d' % max(81, big), 'memcpy.0:%d' % big] + ['harness.%d:%d' % (i, max(10, big)) for i in range(6)]
    lst.append(C('format-' + name, 'msg_format', MSG, d, unwind=k + 2, unwindset=us,
                 bounds='%d options, values <= %d bytes, payload <= %d bytes, every buffer length 0..%d %s' % (k, vmax, pmax, cap, ' '.join(extra)), **kw))


fmt_cfg(c02, 'k0', 0, 1, 4, 20)
fmt_cfg(c02, 'k1', 1, 3, 3, 28)
fmt_cfg(c02, 'k2', 2, 2, 2, 32, extra=['TKL=2'])
fmt_cfg(c02, 'k1-len13', 1, 15, 1, 28, extra=['VMIN=11', 'TKL=1'])

for dn, (a, b) in {'d0': (1, 12), 'd13': (13, 268), 'd269': (269, 65535)}.items():
    for ln, (x, y) in {'l0': (0, 12), 'l13a': (13, 40), 'l13b': (125, 144), 'l13c': (255, 268), 'l269': (269, 290)}.items():
        c02.append(C('format-long-%s-%s' % (dn, ln), 'msg_format_long', MSG,
                     ['VTRACK', 'DMIN=%d' % a, 'DMAX=%d' % b, 'LMIN=%d' % x, 'LMAX=%d' % y, 'VMEM_MEDIUM=%d' % max(y, 42)],
                     unwind=4, unwindset=['memset.0:97', 'memcpy.0:9'], cost=30,
                     bounds='one option, number %d..%d, value of %d..%d bytes, payload 0..40 bytes, every buffer length' % (a, b, x, y)))

# ------------------------------------------------------------------ C03 option list, copy, fields
c03 = prop('C03', MEMNOTE)
for k, v in ((1, 3), (2, 2), (3, 1)):
    c03.append(C('ops-k%d' % k, 'msg_ops', MSG, ['K=%d' % k, 'VMAX=%d' % v, 'VMEM_MEDIUM=8'], unwind=k + 2,
                 unwindset=['memset.0:81', 'memcpy.0:9'] + ['harness.%d:9' % i for i in range(9)], cost=10 ** k,
                 bounds='%d options of any 32-bit number, values <= %d bytes, any header, payload <= 2 bytes' % (k, v)))
c03.append(C('ops-k4', 'msg_ops', MSG, ['K=4', 'VMAX=1', 'VMEM_MEDIUM=8'], unwind=6, tier='thorough',
             unwindset=['memset.0:81', 'memcpy.0:9'] + ['harness.%d:9' % i for i in range(9)], bounds='4 options'))
c03.append(C('setters', 'msg_setters', MSG, ['VMEM_MEDIUM=12'], unwind=4, unwindset=['memset.0:81', 'memcpy.0:13', 'harness.0:13', 'harness.1:13'],
             bounds='every 32-bit field value, token/payload 0..12 bytes, datagram 0..6 bytes'))
for kinds, v in (('1', 4), ('0,1', 2), ('1,2', 2), ('0,1,1', 2), ('1,1,2', 2)):
    k = len(kinds.split(','))
    for ln in (2, 4, 5, 9) if k > 2 else (1, 2, 3, 7):
        c03.append(C('path-%s-len%d' % (kinds.replace(',', ''), ln), 'msg_path', MSG, ['LEN=%d' % ln, 'K=%d' % k, 'VMAX=%d' % v, 'KINDS=' + kinds, 'VMEM_MEDIUM=4'], unwind=k + 2,
                     unwindset=['memset.0:81', 'memcpy.0:9'] + ['harness.%d:9' % i for i in range(4)], cost=20, mem=4,
                     bounds='%d options (0 lower number, 1 URI-Path, 2 higher number: %s), values <= %d bytes, buffer of %d bytes' % (k, kinds, v, ln)))

# ------------------------------------------------------------------ C04 block option values
c04 = prop('C04', MEMNOTE)
c04.append(C('block', 'block_val', MSG, ['VMEM_MEDIUM=8'], unwind=5, unwindset=['memset.0:81', 'memcpy.0:9'] + ['harness.%d:8' % i for i in range(7)],
             bounds='no bound: every number, size, flag; value lengths 0..6; two options per message'))

# ------------------------------------------------------------------ C05 pool allocator
c05 = prop('C05', 'malloc/calloc succeed; the product of block count and block length does not overflow')
for pool in (0, 1, 2):
    for num, ln in ((8, 3), (16, 2)):
        c05.append(C('pool%d-%dx%d' % (pool, num, ln), 'pool', ['lib/src/coap_mem.c'], ['POOL=%d' % pool, 'NUM=%d' % num, 'LEN=%d' % ln], models=[],
                     unwind=num + 2, unwindset=['memset.0:41'], cost=num, tier='quick' if num == 8 or pool == 0 else 'thorough',
                     bounds='%d blocks of %d bytes, every occupancy, then any 2 operations, then drain' % (num, ln)))

# ------------------------------------------------------------------ C06 allocation failure
c06 = prop('C06', MEMNOTE)
for k in (1, 2):
    c06.append(C('fail-k%d' % k, 'mem_fail', MSG, ['K=%d' % k, 'VMEM_MEDIUM=8'], unwind=k + 3,
                 unwindset=['memset.0:81', 'memcpy.0:13'], cost=10 ** k, bounds='%d options, any subset of allocations fails' % k))
for n in (5, 6, 7, 8):
    parse_cfg(c06, 'fail-n%d' % n, n, n - 4, extra=['MAYFAIL=1'], cost=n * n)
for p0 in (0x40, 0x62):
    parse_cfg(c06, 'fail-n10-h%02x' % p0, 10, 3, extra=['MAYFAIL=1', 'PINH=0x%02x' % p0], cost=100)

# ------------------------------------------------------------------ C07 client exchange, C08 retransmission
CLIENT = ['vmem.c', 'msgio.c', 'msg_tu.c', 'vlog.c', 'client_tu.c', 'vclient.c']
LIBSRC = ['@REPO/lib/src']
IONOTE = 'coap_msg_parse/format replaced by message-level contracts (decided by C01/C02); sockets, select, timerfd, getaddrinfo, rand are stand-ins that return any value allowed'
c07 = prop('C07', MEMNOTE, IONOTE, 'build without DTLS')


def cli(lst, con, evs, extra=(), name='exchange', witness='ANSWERED', jitter=None, **kw):
    """evs: S a datagram arrives, T the timer expires, B both"""
    nev, nrx = len(evs), max(1, len(evs.replace('T', '')))
    d = ['CON=%d' % con, 'NEV=%d' % nev, 'NRX=%d' % nrx, 'NTX=%d' % (nev + 2), 'NTIM=%d' % (nev + 2), 'VMEM_MEDIUM=8', 'W_%s=1' % witness,
         'EVS=' + ','.join(dict(S='EV_SOCK', T='EV_TIMER', B='EV_BOTH')[e] for e in evs)] + list(extra)
    if jitter is not None:
        d += ['JITTER=%d' % jitter]
        extra = list(extra) + ['J%d' % jitter]
    lst.append(C('%s-%s-%s%s' % (name, 'con' if con else 'non', evs, '-' + '-'.join(x.lower() for x in extra) if extra else ''), 'client_exchange', [], d,
                 models=CLIENT, incs=LIBSRC, object_bits=10, cost=kw.pop('cost', 10 * nrx ** 2 + nev),
                 unwind=nev + 3, unwindset=['memset.0:400', 'memcpy.0:17', 'strncpy.0:130'] + ['vmsg_draw.%d:9' % i for i in range(2)] + ['vmsg_snap.%d:9' % i for i in range(5)]
                 + ['vmsg_eq.%d:9' % i for i in range(2)] + ['harness.%d:%d' % (i, max(9, nev + 2)) for i in range(8)]
                 + ['vtx_get.0:10', 'vrx_get.0:10', 'v_put.0:10', 'v_take.0:5', 'vrx_draw.0:5', 'memcmp.0:9', 'coap_msg_gen_rand_str.0:5'],
                 bounds='event sequence %s; %d datagrams with any header, token, payload <= 2 bytes, one further option of any number %s' % (evs, nrx, ' '.join(extra)), **kw))


for evs in ('S', 'B', 'SS', 'SB'):
    cli(c07, 1, evs)
cli(c07, 1, 'SSS', ['NOOPS'])
cli(c07, 1, 'SSS', tier='thorough')
cli(c07, 1, 'SSSS', ['NOOPS'], tier='thorough')
for evs in ('TS', 'TSS', 'STS'):
    cli(c07, 1, evs, jitter=737)
for evs in ('S', 'SS', 'SSS'):
    cli(c07, 0, evs)
cli(c07, 1, 'SS', ['SENDFAIL'])
cli(c07, 0, 'SS', ['SENDFAIL'])
c08 = prop('C08', MEMNOTE, IONOTE, 'build without DTLS')
cli(c08, 1, 'TS', name='retransmit', cost=500)
for evs in ('TT', 'TTT', 'TTTT'):
    cli(c08, 1, evs + 'S', name='retransmit', jitter=len(evs) * 1233)
for j in (0, 999, 500, 1000003, 2147483647):
    cli(c08, 1, 'TTTTT', witness='TIMEOUT', name='retransmit', jitter=j)
cli(c08, 1, 'TTTTT', ['SENDFAIL'], witness='TIMEOUT', name='retransmit', jitter=123, tier='thorough')
cli(c08, 1, 'TTS', ['SENDFAIL'], name='retransmit', jitter=124)
cli(c08, 1, 'TTTS', name='retransmit', tier='thorough')
cli(c08, 1, 'TTTTT', witness='TIMEOUT', name='retransmit', tier='thorough')
cli(c08, 1, 'STS', name='retransmit', jitter=55)
cli(c08, 1, 'ST', name='retransmit', jitter=812)
cli(c08, 0, 'T', witness='TIMEOUT', name='response')
cli(c08, 0, 'ST', name='response')

# ------------------------------------------------------------------ C09 client blockwise transfers
c09 = prop('C09', MEMNOTE, IONOTE, 'every response matches its request (C07) and carries no unrecognised critical option', 'build without DTLS')


def cblk(name, method, body, sz1, sz2, plens, rsz=None, b1=None, b2=None, rtype=1, extra=(), lst=None, **kw):
    """rsz: block size the server answers with in each response but the last (None: the client's)"""
    n = len(plens)
    b1 = b1 or [int(method != 1)] * n
    b2 = b2 or [int(method == 1 or p > 0) for p in plens]
    szx = lambda z: {16: 0, 32: 1, 64: 2, 128: 3, 256: 4, 512: 5, 1024: 6}[z]
    b1v, b2v, dets = [-1] * n, [-1] * n, [5 if method == 1 else 31] * n
    start, phase2, size = 0, method == 1, sz2 if method == 1 else sz1
    for i in range(n - 1):
        r = (rsz or [size] * n)[i]
        if not phase2:
            pl = min(size, body - start)
            size = min(size, r)
            b1v[i] = (start // size << 4) | 8 | szx(r)
            start += pl
            if start < body:
                continue
            phase2, start, size, dets[i] = True, 0, sz2, 4
            r = sz2
        else:
            dets[i] = 5 if method == 1 else 4
        size = min(size, r)
        b2v[i] = (start // size << 4) | 8 | szx(r)
        start += plens[i]
    pmax = max(max(plens), sz1 if method != 1 else 1, 1)
    js = lambda v: ','.join(map(str, v))
    d = ['METHOD=%d' % method, 'BODY=%d' % body, 'SZ1=%d' % sz1, 'SZ2=%d' % sz2, 'NRX=%d' % n, 'NEV=%d' % n, 'NTX=%d' % (n + 1), 'NTIM=%d' % (n + 1), 'JITTER=5', 'RANDC=7', 'RTYPE=%d' % rtype,
         'PLENS=' + js(plens), 'B1V=' + js(b1v), 'B2V=' + js(b2v), 'DETS=' + js(dets), 'BLOCKS', 'NOOPS', 'VMEM_TYPED', 'B1P=' + js(b1), 'B2P=' + js(b2),
         'PMAX=%d' % pmax, 'VMEM_MEDIUM=%d' % (pmax + 4 + (pmax % 8 == 4))] + list(extra)
    big = max(pmax, body) + 6
    (c09 if lst is None else lst).append(C('block-' + name, 'client_block', [], d, models=CLIENT, incs=LIBSRC, object_bits=10, unwind=n + 3, cost=20 * n * n,
                 unwindset=['memset.0:400', 'memcpy.0:%d' % big, 'strncpy.0:130', 'memcmp.0:9', 'coap_msg_gen_rand_str.0:5'] + ['vmsg_draw.%d:%d' % (i, big) for i in range(2)]
                 + ['vmsg_snap.%d:%d' % (i, big) for i in (0, 1, 2)] + ['harness.%d:%d' % (i, big) for i in range(6)] + ['vmsg_eq.%d:%d' % (i, big) for i in range(2)]
                 + ['vtx_get.0:10', 'vrx_get.0:10', 'v_put.0:10', 'v_take.0:9', 'v_take.1:9', 'vrx_draw.0:5'],
                 bounds='method %d, body %d bytes, block sizes %d/%d, response payload lengths %s, server block sizes %s, last response arbitrary' % (method, body, sz1, sz2, plens, rsz), **kw))


cblk('get-1', 1, 40, 16, 16, [16])
cblk('get-1-short', 1, 40, 16, 32, [7])
cblk('get-1-empty', 1, 40, 16, 32, [0], extra=['W_END'])
cblk('get-1-noopt', 1, 40, 16, 16, [16], b2=[0], extra=['W_END'])
cblk('get-1-over', 1, 20, 16, 32, [21], extra=['W_END'])
cblk('get-1-ack', 1, 40, 16, 16, [16], rtype=2)
cblk('get-2', 1, 40, 16, 16, [16, 5])
cblk('get-2-full', 1, 32, 16, 16, [16, 16])
cblk('get-2-over', 1, 31, 16, 16, [16, 16], extra=['W_END'])
cblk('get-3', 1, 40, 16, 16, [16, 16, 8])
cblk('get-shrink', 1, 48, 16, 32, [16, 16, 16], rsz=[16, 16, 16])
cblk('put-1', 3, 10, 16, 16, [0])
cblk('post-1-resp', 2, 10, 16, 16, [6])
cblk('put-2', 3, 20, 16, 16, [0, 0])
cblk('put-3', 3, 40, 16, 16, [0, 0, 0])
cblk('put-shrink', 3, 70, 32, 16, [0] * 4, rsz=[16] * 4)
cblk('post-2-resp', 2, 20, 16, 16, [0, 16, 4])
cblk('put-exact', 3, 32, 16, 16, [0, 0])
for k in range(1, 11):
    cblk('get-fail%d' % k, 1, 40, 16, 16, [16, 5], extra=['FAILAT=%d' % k], lst=c06)
    cblk('put-fail%d' % k, 3, 20, 16, 16, [0, 0], extra=['FAILAT=%d' % k], lst=c06)

# ------------------------------------------------------------------ C10 server exchanges
SERVER = ['vmem.c', 'msgio.c', 'msg_tu.c', 'vlog.c', 'server_tu.c', 'vserver.c']
c10 = prop('C10', MEMNOTE, IONOTE, 'build without DTLS, IPv6')


def srv(lst, name, evs, extra=(), ntrans=None, **kw):
    """evs: space separated.  t<client>: its timer expires; <client><what>[=k]: a datagram, what one of
    C/N con/non request, K/k empty ACK with the ID of the last separate response / of the request, Z any message, X any raw
    datagram or message, P ping, O con request with one arbitrary option; suffix s: on the path with separate responses;
    =k: a copy of datagram k (from 1)"""
    e, t = [], []
    for x in evs.split():
        if x[0] == 't':
            e.append('{EV_TIMER,%s}' % x[1]); continue
        e.append('{EV_RECV,%s}' % x[0])
        w, path = x[1:], "'a'"
        same = 0
        if '=' in w:
            w, same = w.split('=')
        if w.endswith('s'):
            w, path = w[:-1], "'s'"
        i = 1000 + len(t) * 7
        if w[1:]:
            w, i = w[0], int(w[1:])
        t.append({'C': '{0,0,0,1,%d,%s,0,%s}' % (i, path, same), 'N': '{0,1,0,1,%d,%s,0,%s}' % (i, path, same), 'O': '{0,0,0,1,%d,%s,1,%s}' % (i, path, same),
                  'Z': '{0,ANY,ANY,ANY,-1,%s,0,%s}' % (path, same), 'E': '{0,ANY,ANY,ANY,-1,0,0,%s}' % same, 'X': '{ANY,ANY,ANY,ANY,-1,%s,0,%s}' % (path, same),
                  'q': '{0,0,0,2,-1,%s,0,0}' % path, 'u': '{0,1,0,3,-1,%s,0,0}' % path, 'v': '{0,0,2,5,-1,%s,0,0}' % path, 'w': '{0,1,ANY,ANY,-1,%s,0,0}' % path,
                  'k': '{0,2,2,ANY,-1,%s,0,0}' % path, 'e': '{0,2,0,0,-1,0,0,0}', 'r': '{0,3,0,0,-1,0,0,0}', 'p': '{0,0,0,0,-1,0,0,0}',
                  'b': '{1,0,0,0,0,0,0,0,4,0x41}', 'd': '{1,0,0,0,0,0,0,0,5,0x51}', 'B': '{1,0,0,0,0,0,0,0}', 'A': '{2,0,0,0,0,0,0,0}', 'F': '{3,0,0,0,0,0,0,0}',
                  'K': '{0,2,0,0,%d,0,0,0}' % i, 'R': '{0,3,0,0,%d,0,0,0}' % i, 'P': '{0,0,0,0,%d,0,0,0}' % i}[w])
    nev, nrx = len(e), len(t)
    ncl = 1 + max(int(x[1] if x[0] == 't' else x[0]) for x in evs.split())
    ntx = 2 * nev + 2
    d = ['NEV=%d' % nev, 'NRX=%d' % nrx, 'NTX=%d' % ntx, 'NTIM=%d' % (nev + 2), 'NCLIENT=%d' % ncl, 'EVS=' + ','.join(e), 'TMPL=' + ','.join(t), 'PATHS', 'RANDC=7', 'JITTER=5',
         'VMEM_MEDIUM=12', 'VMEM_TYPED', 'COAP_IP6', 'PMAX=1', 'NTRANS=%d' % (ntrans or ncl)] + list(extra)
    lst.append(C('server-' + name, 'server_run', [], d, models=SERVER, incs=LIBSRC, object_bits=10, unwind=nev + 4, cost=kw.pop('cost', 20 * nev),
                 unwindset=['memset.0:1200', 'memcpy.0:33', 'strncpy.0:130', 'memcmp.0:33', 'coap_msg_gen_rand_str.0:5', 'strlen.0:6', 'strcmp.0:6']
                 + ['vmsg_draw.%d:9' % i for i in range(2)] + ['vmsg_snap.%d:9' % i for i in range(5)] + ['vmsg_eq.%d:9' % i for i in range(2)]
                 + ['harness.%d:%d' % (i, max(9, nev + 2)) for i in range(8)] + ['veq.%d:9' % i for i in range(2)] + ['v_select.%d:8' % i for i in range(3)] + ['expect.0:20', 'expect_timer.0:12']
                 + ['vtx_get.0:20', 'vrx_get.0:10', 'v_put.0:20', 'v_sendto.0:20', 'v_take.0:9', 'v_take.1:9', 'vrx_draw.0:5'],
                 bounds='event sequence %s (see configs.py srv); %d clients, %d transactions %s' % (evs, ncl, ntrans or ncl, ' '.join(extra)), **kw))


SID = 0x0708                       # first ID the server chooses (RANDC)
for nm, evs in (('C', '0C'), ('C-max', '0C65535'), ('P', '0P'), ('O', '0O'), ('B', '0B'), ('A', '0A'), ('F', '0F'),
                ('C-dup', '0C 0C=1 0C=1'), ('N-dup', '0N 0N=1 0N=1'), ('C-C-dup', '0C 0C 0C=2'), ('N-C-dup', '0N 0C 0C=2'),
                ('C-B', '0C 0B'), ('C-b', '0C 0b 0C=1'), ('C-d', '0C 0d 0C=1'), ('C-A', '0C 0A 0C=1'), ('C-F', '0C 0F 0C=1'), ('two', '0C 1C 0C=1 1C=2'), ('two-b', '0C 1b 0C=1'), ('two-d', '0C 1d 0C=1')):
    srv(c10, nm, evs)
for x in 'quvwkerp':
    srv(c10, x, '0' + x)
    srv(c10, 'C-' + x, '0C 0' + x)
    srv(c10, 'C-1' + x, '0C 1' + x, tier='quick' if x in 'qe' else 'thorough')
srv(c10, 'Z', '0Z', tier='thorough')
srv(c10, 'C-Z', '0C 0Z', tier='thorough')
for k in (1, 2, 3):
    srv(c10, 'two-addr%d' % k, '0C 1C 0C=1 1C=2', ['ADDRB=%d' % k])
srv(c10, 'hfail', '0C 0C=1', ['HFAIL=1'])
srv(c10, 'hfail2', '0C 0C 0C=2', ['HFAIL=2'])
srv(c10, 'lru', '0C 1C 0C=1 2C 0C=1 1C=2', ntrans=2)
srv(c10, 'lru2', '0C 1C 2C 1C=2 0C=1', ntrans=2)
c11 = prop('C11', MEMNOTE, IONOTE, 'build without DTLS, IPv6')
S = ['SEP']
for nm, evs in (('sep', '0Cs'), ('sep-pig', '0C'), ('sep-non', '0Ns'), ('sep-dup', '0Cs 0Cs=1'), ('sep-q', '0Cs 0qs'), ('sep-u', '0Cs 0us'), ('sep-k', '0Cs 0k'), ('sep-e', '0Cs 0e'), ('sep-r', '0Cs 0r'), ('sep-t5', '0Cs t0 t0 t0 t0 t0'),
                ('sep-t-ack', '0Cs t0 0K%d t0' % SID), ('sep-t-rst', '0Cs t0 0R%d t0' % SID), ('sep-ack-t', '0Cs 0K%d t0' % SID), ('sep-ack-dup', '0Cs 0K%d 0Cs=1 t0' % SID),
                ('sep-t-dup-t', '0Cs t0 0Cs=1 t0'), ('sep-new', '0Cs 0C t0'), ('sep-newsep', '0Cs 0Cs t0'), ('sep-two', '0Cs 1Cs t1 t0'), ('sep-two-ack', '0Cs 1Cs 0K%d t0 t1' % SID),
                ('sep-newnon', '0Cs 0N t0'), ('sep-t-e', '0Cs t0 0e')):
    srv(c11, nm, evs, S)
for k in (1, 2, 3):
    srv(c11, 'sep-fail%d' % k, '0Cs t0 t0', S + ['SENDFAIL=%d' % k])
srv(c11, 'sep-two-fail', '0Cs 1Cs t0 t1', S + ['SENDFAIL=5'])
srv(c11, 'sep-jitter', '0Cs t0', S + ['JITTER_ANY'])

# ------------------------------------------------------------------ C12 server blockwise transfers
c12 = prop('C12', MEMNOTE, IONOTE, 'build without DTLS, IPv6')


def sblk(name, sz1, sz2, body, rbody, msgs, extra=(), large=45, lst=None, **kw):
    """msgs: (method, path, block1, block2, payload length); a block is None, 'any' or (number, more, size)"""
    szx = {16: 0, 32: 1, 64: 2, 128: 3, 256: 4, 512: 5, 1024: 6}

    def b(v):
        return 'NONE' if v is None else 'ANY' if v == 'any' else str(v[0] << 4 | v[1] << 3 | (szx[v[2]] if v[2] else 7))
    n = len(msgs)
    pmax = max(max(m[4] for m in msgs), sz2, 1)
    d = ['NEV=%d' % n, 'NRX=%d' % n, 'NTX=%d' % (n + 1), 'NTIM=2', 'NCLIENT=1', 'NTRANS=1', 'EVS=' + ','.join(['{EV_RECV,0}'] * n), 'PATHS', 'BLOCKS', 'NOOPS', 'RANDC=7', 'JITTER=5',
         'TMPL=' + ','.join("{%d,'%s',%s,%s,%d}" % (m[0], m[1], b(m[2]), b(m[3]), m[4]) for m in msgs),
         'SZ1=%d' % sz1, 'SZ2=%d' % sz2, 'BODY=%d' % body, 'RBODY=%d' % rbody, 'VMEM_LARGE=%d' % large, 'VMEM_MEDIUM=%d' % (pmax + 3 + (pmax % 8 == 5)), 'VMEM_TYPED', 'COAP_IP6', 'PMAX=%d' % pmax] + list(extra)
    big = max(pmax, body, rbody, large) + 6
    (c12 if lst is None else lst).append(C('sblock-' + name, 'server_block', [], d, models=SERVER, incs=LIBSRC, object_bits=10, unwind=n + 4, cost=30 * n,
                 unwindset=['memset.0:1200', 'memcpy.0:%d' % big, 'strncpy.0:130', 'memcmp.0:33', 'coap_msg_gen_rand_str.0:5', 'strlen.0:6', 'strcmp.0:6']
                 + ['vmsg_draw.%d:%d' % (i, big) for i in range(2)] + ['vmsg_snap.%d:%d' % (i, big) for i in range(5)] + ['harness.%d:%d' % (i, big) for i in range(8)]
                 + ['block_rx.%d:%d' % (i, big) for i in range(2)] + ['v_select.%d:8' % i for i in range(3)]
                 + ['vtx_get.0:20', 'vrx_get.0:10', 'v_put.0:20', 'v_sendto.0:20', 'v_take.0:9', 'v_take.1:9', 'vrx_draw.0:5'],
                 bounds='requests (method, path, Block1, Block2, payload length) %s; body %d, response body %d, sizes %d/%d, body buffer %d' % (msgs, body, rbody, sz1, sz2, large), **kw))


sblk('get-1', 16, 16, 10, 0, [(1, 'a', None, None, 0)])
sblk('get-any', 16, 16, 20, 0, [(1, 'a', None, 'any', 0)])
sblk('get-any-both', 16, 32, 40, 0, [(1, 'a', 'any', 'any', 0)])
sblk('get-2', 16, 16, 20, 0, [(1, 'a', None, None, 0), (1, 'a', None, 'any', 0)])
sblk('get-3', 16, 16, 40, 0, [(1, 'a', None, None, 0), (1, 'a', None, (1, 0, 16), 0), (1, 'a', None, 'any', 0)])
sblk('get-shrink', 16, 32, 40, 0, [(1, 'a', None, (0, 0, 16), 0), (1, 'a', None, (1, 0, 16), 0), (1, 'a', None, 'any', 0)])
sblk('get-exact', 16, 16, 32, 0, [(1, 'a', None, None, 0), (1, 'a', None, (1, 0, 16), 0), (1, 'a', None, 'any', 0)])
sblk('get-path', 16, 16, 20, 0, [(1, 'a', None, None, 0), (1, 'b', None, (1, 0, 16), 0), (1, 'a', None, None, 0)])
sblk('get-method', 16, 16, 20, 0, [(1, 'a', None, None, 0), (3, 'a', None, (1, 0, 16), 0), (1, 'a', None, None, 0)])
sblk('put-1', 16, 16, 10, 0, [(3, 'a', (0, 0, 16), None, 16)], ['W_RX'])
sblk('put-any', 16, 16, 10, 0, [(3, 'a', 'any', None, 16)], ['W_RX'])
sblk('put-none', 16, 16, 10, 0, [(3, 'a', None, None, 9)], ['W_RX'])
sblk('put-empty', 16, 16, 10, 0, [(3, 'a', (0, 0, 16), None, 0)])
sblk('put-2', 16, 16, 10, 0, [(3, 'a', (0, 1, 16), None, 16), (3, 'a', 'any', None, 5)], ['W_RX'])
sblk('put-3', 16, 16, 10, 0, [(3, 'a', (0, 1, 16), None, 16), (3, 'a', (1, 1, 16), None, 16), (3, 'a', 'any', None, 13)], ['W_RX'])
sblk('put-over', 16, 16, 10, 0, [(3, 'a', (0, 1, 16), None, 16), (3, 'a', (1, 1, 16), None, 16), (3, 'a', 'any', None, 14)])
sblk('put-long', 16, 16, 10, 0, [(3, 'a', 'any', None, 46)])
sblk('put-shrink', 16, 16, 10, 0, [(3, 'a', (0, 1, 32), None, 32), (3, 'a', 'any', None, 7)], ['W_RX'])
sblk('put-shrink2', 32, 16, 10, 0, [(2, 'a', (0, 1, 16), None, 16), (2, 'a', 'any', None, 7)], ['W_RX'])
sblk('put-resp', 16, 16, 10, 20, [(3, 'a', (0, 0, 16), None, 12), (3, 'a', None, 'any', 0)], ['W_RX'])
sblk('post-resp2', 16, 16, 10, 20, [(2, 'a', (0, 1, 16), None, 16), (2, 'a', (1, 0, 16), (0, 0, 16), 4), (2, 'a', None, 'any', 0)], ['W_RX'])
sblk('put-rxerr', 16, 16, 10, 5, [(3, 'a', (0, 0, 16), None, 12), (3, 'a', (0, 0, 16), None, 3)], ['W_RX', 'RXERR'])
sblk('put-path', 16, 16, 10, 0, [(3, 'a', (0, 1, 16), None, 16), (3, 'b', (1, 0, 16), None, 5), (3, 'b', (0, 0, 16), None, 6)], ['W_RX'])
sblk('put-prefix', 16, 16, 10, 0, [(3, 'a', (0, 1, 16), None, 16), (3, 'A', (1, 0, 16), None, 5)])
sblk('put-prefix2', 16, 16, 10, 0, [(3, 'A', (0, 1, 16), None, 16), (3, 'a', (1, 0, 16), None, 5)])
sblk('get-prefix', 16, 16, 20, 0, [(1, 'a', None, None, 0), (1, 'A', None, (1, 0, 16), 0)])
sblk('get-prefix2', 16, 16, 20, 0, [(1, 'A', None, None, 0), (1, 'a', None, (1, 0, 16), 0)])
sblk('put-method', 16, 16, 10, 0, [(3, 'a', (0, 1, 16), None, 16), (2, 'a', (1, 0, 16), None, 5)])
sblk('reserved', 16, 16, 20, 0, [(1, 'a', None, (0, 0, 0), 0), (1, 'a', None, None, 0)])
for k in range(1, 10):
    srv(c06, 'fail%d' % k, '0Cs 0Cs', ['SEP', 'FAILAT=%d' % k])
for k in range(1, 15, 2):
    sblk('fail%d' % k, 16, 16, 10, 20, [(3, 'a', (0, 1, 16), None, 16), (3, 'a', (1, 0, 16), None, 4)], ['FAILAT=%d' % k], lst=c06)

# ------------------------------------------------------------------ C13 HTTP message parsing
c13 = prop('C13', 'string functions of the C library are modelled by byte loops (model/vlibc.c)', 'heap blocks of symbolic length are placed at the end of an object of fixed length')
HEAP = ['malloc=v_malloc', 'calloc=v_calloc', 'realloc=v_realloc', 'strdup=v_strdup', 'free=v_free', '__NO_CTYPE']
HTTP = ['proxy/common/src/http_msg.c', 'proxy/common/src/util.c']


def cstr(s):
    return '"' + ''.join('\\%03o' % ord(c) if ord(c) < 32 or c in '"\\?' else c for c in s) + '"'


def hparse(name, tmpl, extra=(), nhdr=2, lst=None, **kw):
    n = len(tmpl)
    d = ['TMPL=' + cstr(tmpl), 'NHDR=%d' % nhdr, 'VHEAP_CAP=%d' % max(24, n + 2)] + HEAP + list(extra)
    (c13 if lst is None else lst).append(C('hparse-' + name, 'http_parse', HTTP, d, models=['vheap.c'], cbmc_models=['vlibc.c'], engine='sym',
                 bounds='message of %d bytes %r (\\x01 any byte, \\x02 any byte but NUL, \\x03 any token byte), at most %d header fields' % (n, tmpl, nhdr), **kw))


GH = 'G / H\r\n'
HMSG = {'line': 'GE /a H1\r\n\r\n', 'hdr': GH + 'A: b\r\nC:d\r\n\r\n', 'fold': GH + 'A:b\r\n  c \r\n\r\n'}
CLEN, TE = GH + 'Content-Length:', GH + 'Transfer-Encoding:chunked\r\n\r\n'
for nm, m in HMSG.items():
    for w in range(0, len(m) - 2, 2):
        hparse('%s-%d' % (nm, w), m[:w] + '\2\2\2' + m[w + 3:], ['W_ANY', 'NO_W'])
    hparse(nm + '-prefix', m, ['PREFIX'])
    hparse(nm + '-nul', m[:7] + '\1\1' + m[9:], ['W_ANY', 'NO_W'])
hparse('start-tok', '\3\3 \3\3\3 \3\3\r\n\r\n')
hparse('hdr-tok', GH + '\3\3:\3\3\3\r\n\3: \3\r\n\r\n')
hparse('any4', '\1\1\1\1', ['W_ANY', 'NO_W'])
hparse('tail4', GH + '\2\2\2\2', ['W_ANY', 'NO_W'], nhdr=1)
hparse('tail4b', GH + 'A:\r\n\2\2\2\2', ['W_ANY', 'NO_W'])
hparse('cl3', CLEN + ' 3\r\n\r\n\1\1\1\1')
hparse('cl-prefix', CLEN + '3\r\n\r\n\1\1\1', ['PREFIX'])
hparse('cl-any', CLEN + '\2\2\r\n\r\n' + '\1' * 12)
hparse('cl-any3', CLEN + '1\2\2\r\n\r\nabcdefghijkl')
hparse('cl-name', GH + 'Cont\2\2\2-Length:2\r\n\r\nxy')
hparse('cl-zero', CLEN + '0\r\n\r\n\1\1')
hparse('cl-two', CLEN + '1\r\nContent-Length:2\r\n\r\n\1\1\1')
hparse('te-body', TE + '3\r\n\1\1\1\r\n02\r\n\1\1\r\n0\r\n\r\nz')
hparse('te-size', TE + '\2\2\r\nabc\r\n0\r\n\r\n', ['W_ANY'])
hparse('te-size2', TE + '2\r\nab\r\n\2\2\r\n\r\n\r\n', ['W_ANY', 'NO_W'])
hparse('te-end', TE + '2\r\nab\2\2\2\r\n\r\n', ['W_ANY', 'NO_W'])
hparse('te-param', TE + '2\2\2\r\nab\r\n0\r\n\r\n', ['W_ANY', 'NO_W'])
hparse('te-hex', TE + '00\2\r\nabcdefghijkl\r\n0\r\n\r\n')
hparse('te-trailer', TE + '1\r\nx\r\n0\r\nA:\2\2\r\n\r\n', ['W_ANY', 'NO_W'], nhdr=3)
hparse('te-trailer2', TE + '1\r\nx\r\n0\r\n\2\2\2\r\n\r\n', ['W_ANY', 'NO_W'], nhdr=3)
hparse('te-prefix', TE + '2\r\n\1\1\r\n1;p=v\r\nz\r\n0\r\nT: u\r\n\r\n', ['PREFIX'], nhdr=3)
hparse('te-word', GH + 'Transfer-Encoding:chu\2\2\2d\r\n\r\n1\r\nx\r\n0\r\n\r\n')
hparse('te-cl', CLEN + '1\r\n' + TE[7:] + '2\r\n\1\1\r\n0\r\n\r\n')
for k in range(1, 12):
    hparse('fail%d' % k, GH + 'A:\3\r\nTransfer-Encoding:chunked\r\n\r\n1\r\n\1\r\n0\r\n\r\n', ['FAILAT=%d' % k])

# ------------------------------------------------------------------ C14 HTTP message generation
c14 = prop('C14', 'string functions of the C library are modelled (sym.py, model/vlibc.c)')


def hgen(name, bounds, defs, **kw):
    c14.append(C('hgen-' + name, 'http_gen', HTTP, ['VHEAP_CAP=128'] + HEAP + defs, models=['vheap.c'], cbmc_models=['vlibc.c'], engine='sym', bounds=bounds, **kw))


def hmsg(name, texts, body, buflen=None, extra=()):
    hgen(name, 'texts %r, body %r (\\x03 any token byte, \\x01 any byte)%s' % (texts, body, '' if buflen is None else ', buffer of 0..%d bytes' % buflen),
         ['MSG=' + ','.join(cstr(t) for t in texts), 'BODY=' + cstr(body)] + (['BUFLEN=%d' % buflen] if buflen is not None else []) + list(extra))


hmsg('rt-start', ['\3\3', '\3\3', '\3\3'], '')
hmsg('rt-hdr', ['G', '/', 'H', '\3\3', '\3\3\3', 'A', '\3'], '')
hmsg('rt-body', ['G', '/', 'H', 'Content-Length', '4'], '\1\1\1\1')
hmsg('rt-body12', ['G', '/', 'H', 'Content-Length', '12'], '\1' * 12)
hmsg('buf', ['\2\2', '\2', '\2\2', '\2', '\2\2'], '\1\1\1', 26)
hmsg('buf-start', ['\2', '\2', '\2'], '', 12)
hmsg('buf-two', ['\2', '\2', '\2', '\2', '\2', '\2', '\2'], '\1', 30)
hmsg('buf-body', ['G', '/', 'H'], '\1' * 6, 20)
for k in range(1, 13):
    hmsg('fail%d' % k, ['\3', '/', 'H', 'A', 'b', 'C', 'd'], '\1', None, ['FAILAT=%d' % k]) if k <= 10 else None
for n, top in ((0, 9), (1, 10), (5, 14), (17, 28)):
    hgen('chunk%d' % n, 'chunk of %d symbolic bytes, buffer of 0..%d bytes' % (n, top), ['CHUNK=%d' % n, 'KIND=0', 'BUFLEN=%d' % top])
hgen('last', 'buffer of 0..6 bytes', ['CHUNK=1', 'KIND=1', 'BUFLEN=6'])
hgen('trailer', 'symbolic name and value, buffer of 0..12 bytes', ['CHUNK=1', 'KIND=2', 'BUFLEN=12'])
hgen('blank', 'buffer of 0..5 bytes', ['CHUNK=1', 'KIND=3', 'BUFLEN=5'])
for n, s in ((3, 1), (12, 5), (20, 17)):
    hgen('rt-chunks%d' % n, 'two chunks, %d symbolic bytes, symbolic trailer' % n, ['CHUNK=%d' % n, 'SPLIT=%d' % s])
hgen('strncpy', 'string of up to 4 symbolic bytes, buffer of 0..6', ['UTIL=4', 'KIND=0', 'BUFLEN=6', 'START=0'])
hgen('strncat', 'string of up to 4 symbolic bytes behind 0..5 bytes, buffer of 0..8', ['UTIL=4', 'KIND=1', 'BUFLEN=8', 'START=5'])

# ------------------------------------------------------------------ C15 URIs
c15 = prop('C15', 'string functions of the C library are modelled (sym.py, model/vlibc.c)')
URI = ['proxy/common/src/uri.c']


def uri(name, tmpl, extra=(), **kw):
    d = ['TMPL=' + cstr(tmpl), 'VHEAP_CAP=96'] + HEAP + list(extra)
    c15.append(C('uri-' + name, 'uri', URI, d, models=['vheap.c'], cbmc_models=['vlibc.c'], engine='sym',
                 bounds='URI of %d bytes %r (\\x02 any byte but NUL)' % (len(tmpl), tmpl), **kw))


def uriset(name, comps, extra=(), **kw):
    order = ['scheme', 'userinfo', 'host', 'port', 'path', 'query', 'fragment']
    d = ['SET=' + ','.join(cstr(comps[o]) if o in comps else 'NULL' for o in order), 'VHEAP_CAP=96'] + HEAP + list(extra)
    c15.append(C('uri-set-' + name, 'uri', URI, d, models=['vheap.c'], cbmc_models=['vlibc.c'], engine='sym',
                 bounds='components set to %r (\\x02 any byte but NUL, \\x03 nor %%)' % comps, **kw))


UFULL = 'ab://u:v@hst:80/p/q?r=s#f'
for w in range(0, len(UFULL) - 1, 2):
    uri('full-%d' % w, UFULL[:w] + '\2\2\2' + UFULL[w + 3:], ['W_ANY', 'NO_W', 'OLD'])
for nm, m in {'host': 'a://b', 'v6': 'a://[1:2]:3/x', 'pathonly': '/a/b', 'abs': 'a:/b', 'rootless': 'a:b/c?d', 'authority': '//h/p', 'short': 'a://b/?#'}.items():
    for w in range(0, max(1, len(m) - 2), 2):
        uri('%s-%d' % (nm, w), m[:w] + '\2\2\2' + m[w + 3:], ['W_ANY', 'NO_W'])
uri('any4', '\2\2\2\2', ['W_ANY', 'NO_W'])
uri('empty', '', ['W_ANY', 'NO_W'])
uri('auth4', 'a://\2\2\2\2', ['W_ANY', 'NO_W'])
for nm, m in {'path': 'a://h/%\2\2', 'query': 'a://h?%\2\2', 'frag': 'a://h#%\2\2', 'host': 'a://%\2\2', 'user': 'a://%\2\2@h', 'port': 'a://h:%\2\2', 'scheme': '%\2\2://h', 'po': '/%\2\2'}.items():
    uri('pct-' + nm, m, ['GEN'])
for nm, m in {'path': 'a://h/\2\2\2', 'query': 'a://h?\2\2', 'frag': 'a://h#\2\2', 'host': 'a://\2\2', 'user': 'a://\2@\2', 'port': 'a://h:\2', 'v6': 'a://[\2:\2]:\2', 'abs': 'a:/\2\2', 'po': '/\2\2\2'}.items():
    uri('gen-' + nm, m, ['GEN'])
    uri('copy-' + nm, m, ['COPY=1'])
for nm, m in {'path': 'a://h/\2%41\2', 'all': 'ab://u@h:8/\2?\2#\2', 'v6': 'a://[\2:]:1'}.items():
    uri('buf-' + nm, m, ['GEN', 'BUFLEN=%d' % (len(m) + 8)])
uri('copy-over', UFULL, ['COPY=2'])
uri('copy-noscheme', '//h:1/p', ['COPY=1'])
for k in range(1, 9):
    uri('fail%d' % k, 'a://u@h:1/\2?q#f', ['FAILAT=%d' % k])
for k in range(1, 8):
    uri('copyfail%d' % k, 'a://u@h:1/\2?q#f', ['COPY=1', 'COPYFAIL=%d' % k])
for o in ['scheme', 'userinfo', 'host', 'port', 'path', 'query', 'fragment']:
    base = {'scheme': 'a', 'host': 'h'}
    for nm, v in ({'raw': '\3\3', 'pct': '%\2\2', 'any': '\2\2'} if o == 'host' else {'raw': '\3\3', 'pct': '\2%\2\2', 'any': '\2\2\2'}).items():
        uriset('%s-%s' % (o, nm), dict(base, **{o: v}), [])
uriset('all', {'scheme': '\3', 'userinfo': '\3', 'host': '\3', 'port': '8', 'path': '/p', 'query': 'q', 'fragment': 'f'}, [])
uriset('all2', {'scheme': 's', 'userinfo': 'u', 'host': 'h', 'port': '8', 'path': '/\3', 'query': '\3', 'fragment': '\3'}, [])
uriset('slash', {'scheme': 'a', 'host': 'h', 'path': '', 'query': '', 'fragment': ''}, [])

# ------------------------------------------------------------------ C16 HTTP/CoAP mapping
c16 = prop('C16', 'string functions of the C library are modelled (sym.py, model/vlibc.c)', 'coap_mem is replaced by its contract (model/vmem.c, decided by C05)')
CROSS = ['proxy/common/src/cross.c'] + URI + HTTP + MSG


def cross(name, bounds, defs, **kw):
    c16.append(C('cross-' + name, 'cross', CROSS, ([] if 'VHEAP_CAP=1200' in defs else ['VHEAP_CAP=128']) + ['VMEM_SMALL=40', 'VMEM_MEDIUM=1024'] + HEAP + defs, models=['vheap.c', 'vmem.c'], cbmc_models=['vlibc.c'], engine='sym', bounds=bounds, **kw))


def creq(name, texts, body='', bigbody=0, bodycap=8, extra=()):
    cross('req-' + name, 'HTTP request %r body %r%s' % (texts, body, ' and %d more bytes' % bigbody if bigbody else ''),
          ['REQ=' + ','.join(cstr(t) for t in texts), 'BODY=' + cstr(body), 'BIGBODY=%d' % bigbody, 'BODYCAP=%d' % bodycap] + list(extra))


def cresp(name, ops, body='', pay='', extra=()):
    cross('resp-' + name, 'response with options %r, body %r, payload %r' % (ops, body, pay),
          ['RESP=' + ''.join('{%d,%s},' % (n, cstr(t)) for n, t in ops), 'BODY=' + cstr(body), 'PAYLOAD=' + cstr(pay)] + list(extra))


def c2h(name, ops, buflen=None, extra=()):
    cross('uri-' + name, 'options %r%s' % (ops, '' if buflen is None else ', buffer of 0..%d bytes' % buflen),
          ['C2H=' + ''.join('{%d,%s},' % (n, cstr(t)) for n, t in ops)] + (['BUFLEN=%d' % buflen] if buflen is not None else []) + list(extra))


RU = 'coap://h/r'
for nm in ('GET', 'POST', 'PUT', 'DELETE'):
    creq('method-' + nm.lower(), [nm[:-1] + '\2', RU])
creq('method-any', ['\2\2\2', RU])
creq('method-any4', ['\2\2S\2', RU])
for nm, u in {'path': 'coap://h/\2\2\2', 'path2': 'coaps://h/a\2\2/b', 'query': 'coap://h?\2\2\2', 'query2': 'coap:/?a&\2\2', 'host': 'coap://\2\2/p', 'port': 'coap://h:\2\2/p',
              'scheme': '\2\2ap://h/', 'scheme2': 'coap\2\2//h', 'nohost': 'coap:\2\2', 'frag': 'coap://h/a\2b', 'pct': 'coap://h/%\2\2', 'user': 'coap://u@\2/\2', 'v6': 'coap://[\2:\2]/'}.items():
    creq('uri-' + nm, ['GET', u])
creq('etag', ['GET', RU, '\2tag', '\2\2'])
creq('accept', ['GET', RU, 'Accept', 'text/\2\2ain\2'])
creq('accept-short', ['GET', RU, 'aCCept', 'text/pl\2\2'])
creq('accept-any', ['PUT', RU, 'Acc\2pt', '*/*'])
creq('age', ['GET', RU, 'Cache-Control', 'max-age=\2\2\2'])
creq('age2', ['GET', RU, 'cache-control', 'no, max-ag\2=6'])
creq('age3', ['GET', RU, 'Cache-Control', 'max-age=42949672\2\2'])
creq('headers', ['POST', 'coap:///a/b?c', 'Etag', 'x', 'X-\2', '\2', 'Accept', 'text/plain', 'Cache-Control', 'max-age=0\2'], '\1')
creq('body', ['PUT', RU], '\1\1\1\1')
creq('body1024', ['PUT', RU], '\1\1', 1022, 2000)
creq('body1025', ['PUT', RU], '\1\1', 1023, 1025)
creq('body-long', ['POST', RU], '\1\1', 1030, 1031)
for k in range(1, 4):
    creq('heap%d' % k, ['GET', 'coap://h:1/p?q', 'Etag', 'e'], 'b', 0, 8, ['FAILAT=%d' % k, 'FAILKIND=1'])
for k in range(1, 12, 2):
    creq('mem%d' % k, ['GET', 'coap://h:1/p?q', 'Etag', 'e'], 'b', 0, 8, ['FAILAT=%d' % k, 'FAILKIND=0'])
cresp('code', [], '', '', ['ANYCODE'])
cresp('code-all', [(4, 'e'), (14, '60')], '', '\1', ['ANYCODE'])
cresp('etag', [(4, '\1\1\1')])
cresp('age', [(14, '\2\2\2')])
cresp('accept', [(17, '\1')])
cresp('accept2', [(17, '\1\1')])
cresp('other', [(8, '\1'), (12, '\1'), (20, '\1')], '', '\1\1')
cresp('payload', [(4, 'x')], '', '\1' * 12)
cresp('body', [(14, '7')], '\1' * 11, '\1\1')
for k in range(1, 9):
    cresp('fail%d' % k, [(4, 'e')], '', '\1', ['FAILAT=%d' % (k + 1)]) if k < 8 else None
c2h('none', [])
c2h('host', [(3, '\2\2')])
c2h('host-nul', [(3, 'a\1b')])
c2h('port', [(7, '\2\2')])
c2h('path', [(3, 'h'), (11, '\2\2')])
c2h('path2', [(3, 'h'), (11, '\2'), (11, '\2')])
c2h('path-nul', [(11, '\1\1')])
c2h('query', [(3, 'h'), (15, '\2\2')])
c2h('query2', [(15, '\2'), (15, '\2'), (11, 'p')])
c2h('all', [(3, '\3'), (7, '8'), (11, '\3'), (15, '\3')])
c2h('buf', [(3, 'h'), (7, '8'), (11, '\2a'), (15, '\2')], 32)
for k in range(1, 6):
    c2h('fail%d' % k, [(3, 'h'), (7, '8'), (11, '\2'), (15, 'q')], None, ['FAILAT=%d' % k])
for nm, ops in {'etag255': [(4, 255)], 'etag256': [(4, 256)], 'etag257': [(4, 257)], 'other256': [(12, 256), (4, 4)], 'etag400': [(4, 400)], 'etag2': [(4, 8), (4, 100)]}.items():
    cross('long-' + nm, 'response with options (number, length) %r' % ops, ['LONG=' + ''.join('{%d,%d},' % o for o in ops), 'VHEAP_CAP=1200'])
for nm, ops in {'host': [(3, 150)], 'host255': [(3, 255)], 'host256': [(3, 256)], 'path253': [(3, 1), (11, 253)], 'path254': [(11, 254)], 'path255': [(11, 255)], 'path256': [(11, 256)],
                'path2': [(11, 126), (11, 127)], 'path2b': [(11, 127), (11, 127)], 'path3': [(11, 200), (11, 53), (11, 1)], 'query254': [(11, 1), (15, 254)], 'query255': [(11, 1), (15, 255)],
                'query2': [(11, 1), (15, 200), (15, 54)], 'query2b': [(11, 1), (15, 200), (15, 55)], 'all': [(3, 100), (11, 150), (15, 150)]}.items():
    cross('longuri-' + nm, 'URI of options (number, length) %r' % ops, ['TOURI', 'LONG=' + ''.join('{%d,%d},' % o for o in ops), 'VHEAP_CAP=1200'])

# ------------------------------------------------------------------ C17 configuration
c17 = prop('C17', 'string functions of the C library are modelled (sym.py, model/vlibc.c); the file is a model that fails at any call')
CONF = ['proxy/common/src/config.c']


def conf(name, tmpl, extra=(), srcs=CONF, ok=None):
    if ok is None:
        ok = ['W_OK', 'W_BAD'] if any(c in tmpl for c in '\1\2\3') and not [e for e in extra if e.startswith('FAILAT')] else []
    c17.append(C('conf-' + name, 'config', srcs, ['VHEAP_CAP=400', 'TMPL=' + cstr(tmpl)] + HEAP + ok + list(extra), models=['vheap.c'] + (['vlog.c'] if srcs is not CONF else []), cbmc_models=['vlibc.c'], engine='sym',
                 bounds='text %r (\\x01 any byte, \\x02 any byte but NUL, \\x03 a lower-case letter)%s' % (tmpl, ''.join(' ' + e for e in extra))))


conf('any3', '\2\2\2')
conf('any1nl', '\1\1\n')
for nm, t in {'assign': 'ab = c1\n', 'num': 'a=12\nb=3', 'quote': 'a="b c"\nd=""\n', 'section': '[s]\na=1\n', 'comment': 'a=1 ;x\n;y\nb=2'}.items():
    for w in range(0, len(t) - 1):
        conf('%s-%d' % (nm, w), t[:w] + '\2\2' + t[w + 2:])
for w in range(0, 6):
    conf('wide-%d' % w, 'a=b\nc=d\n'[:w] + '\2\2\2' + 'a=b\nc=d\n'[w + 3:])
conf('escape', 'a="\2\\\2"\2', )
conf('escape-nl', 'a="x\\\ny"\n\2=1\n')
conf('tab', '\t a\t=\t\2\t\n \t\2')
conf('dup', '\3=1\n\3=2\n\3=3\n', ok=['W_OK'])
conf('sections', '\3=1\n[\3]\nb=2\n[\3]\nb=3\n', ok=['W_OK'])
conf('prefix', 'a\3=1\na=2\na\3\3=3\n', ok=['W_OK'])
for n in (63, 64, 65, 128, 129):
    conf('long-name%d' % n, 'n' * (n - 1) + '\3=1\n', ok=['W_OK'])
    conf('long-value%d' % n, 'a=' + 'v' * (n - 1) + '\3\nb=1', ok=['W_OK'])
    conf('long-quote%d' % n, 'a="' + 'v' * (n - 1) + '\3"', ok=['W_OK'])
    conf('long-num%d' % n, 'a=' + '7' * n + '\n', ok=['W_OK'])
    conf('long-section%d' % n, '[' + 's' * (n - 1) + '\3]\na=1\n[t]\na=2\n', ok=['W_OK'])
for k in range(1, 24):
    conf('fail%d' % k, '[s]\na="b"\na=c\n', ['FAILAT=%d' % k])
conf('fail-grow', 'a=' + 'v' * 66 + '\n', ['FAILAT=8'])
c17.append(C('conf-set', 'config', CONF, ['VHEAP_CAP=64', 'SETS', 'FREESET=2', 'NAMES'] + HEAP, models=['vheap.c'], cbmc_models=['vlibc.c'], engine='sym', bounds='4 settings, sections, names and values of two of them symbolic, over {a,b} and empty; every error code'))
for k in range(1, 2):
    c17.append(C('conf-set-fail%d' % k, 'config', CONF, ['VHEAP_CAP=64', 'SETS', 'FAILAT=%d' % k] + HEAP, models=['vheap.c'], cbmc_models=['vlibc.c'], engine='sym', bounds='failing allocation %d when a value is replaced' % k))
PARAM = ['proxy/http_coap/src/param.c', 'proxy/common/src/config.c', 'proxy/common/src/util.c']
FILEDEFS = ['PARAM', 'fopen=v_fopen', 'fclose=v_fclose', 'fseek=v_fseek', 'ftell=v_ftell', 'fread=v_fread']
for nm, t in {'empty': '', 'port': 'port=\2\2\n', 'level': 'log_level=\3\3\3\3\3\n', 'level2': 'log_level=inf\2', 'http': '[http_server]\nkey_file="\2"\ncert_file=\3\ntrust_file=\3\n', 'coap': '[coap_client]\nkey_file="\2"\ncert_file=\3\ntrust_file=\3\n',
              'sections': 'key_file=a\n[http_serve\3]\nkey_file=b\n'}.items():
    conf('param-' + nm, t, FILEDEFS, PARAM, ok=[])
conf('param-fault', 'port=\3\n', FILEDEFS + ['FAULT'], PARAM, ok=[])
for k in range(1, 21):
    conf('param-fail%d' % k, 'port=5\n', FILEDEFS + ['FAILAT=%d' % k], PARAM, ok=[])

# ------------------------------------------------------------------ C18 connections of the proxy
c18 = prop('C18', 'string functions of the C library are modelled (sym.py, model/vlibc.c)', 'coap_mem is replaced by its contract (model/vmem.c, decided by C05)',
           'TLS, select and the CoAP client are scripted (harness/connection.c); the CoAP client itself is decided by C07 to C09')
CONN = ['proxy/http_coap/src/connection.c', 'proxy/common/src/data_buf.c', 'proxy/common/src/util.c'] + [x for x in CROSS if 'util.c' not in x]


def rq(meth, host='h', port=None, path='r', hdr='', body='', pad=0, fwd=1, res=0, cls=2, det=5, pay='', block2=-1, bres=0, longop=0, status=200):
    return '{%s,%s,%s,%s,%s,%s,%d,%d,%s,%d,%d,%s,%d,%s,%d,%d}' % (cstr(meth), cstr(host), 'NULL' if port is None else cstr(port), cstr(path), cstr(hdr), cstr(body), pad, fwd, res, cls, det, cstr(pay), block2, bres, longop, status)


def conn(name, reqs, bounds, extra=(), **kw):
    c18.append(C('conn-' + name, 'connection', CONN, ['RQ=' + ','.join(reqs), 'COAP_DTLS_EN', 'VMEM_SMALL=40', 'VMEM_MEDIUM=1024', 'VMEM_LARGE=2048', 'select=v_select', 'strerror=v_strerror'] + HEAP + list(extra),
                 models=['vheap.c', 'vmem.c', 'vlog.c'], cbmc_models=['vlibc.c'], engine='sym', bounds=bounds, steps=4000000, **kw))


ONE = rq('GET', 'h\4', '8\5', '\3', pay='\1\1')
conn('get', [ONE], 'one GET request, host, port, path and payload symbolic')
for m, det in (('GET', 5), ('PUT', 4), ('POST', 1), ('DELETE', 2)):
    conn('code-' + m.lower(), [rq(m, det=det, body='\1' if m[0] == 'P' else '', pay='\1')], 'one %s request' % m, ['ENDS'])
    conn('nobody-' + m.lower(), [rq(m, cls=4, det=4, status=404)], '%s without body, answered 4.04 without payload' % m, ['ENDS'])
    conn('result-' + m.lower(), [rq(m), rq('GET', pay='\1')] if 0 else [rq(m)], '%s, every result of the exchange from 0 to -200' % m, ['XRES'])
conn('valid', [rq('GET', det=3, status=304), rq('GET', pay='\1')], 'response 2.03 without payload, then another request')
for nm, sp in {'split': ['SPLIT'], 'bytes': ['RECLEN=1'], 'rec7': ['RECLEN=7'], 'one': []}.items():
    conn(nm + '-two', [rq('GET', path='a', pay='\1'), rq('PUT', path='b', body='\1\1', det=4)], 'two requests in one text, %s' % (nm,), sp + ([] if nm == 'split' else ['ENDS']))
    conn(nm + '-tail', [rq('POST', body='\1', det=1, pay='\1')], 'a request and the beginning of another, %s' % nm, sp + ['TAIL="GET coap://h/ HTTP/1.1\\r\\n"'] + ([] if nm == 'split' else ['ENDS']))
conn('three', [rq('GET', 'h', None, '\3', pay='1'), rq('DELETE', 'h', None, '\3', det=2), rq('GET', 'h', None, '\3', pay='\1')], 'three requests in one record', ['ENDS'])
conn('servers', [rq('GET', 'h\4', '\5', pay='1'), rq('GET', 'h\4', '\5', pay='\1')], 'two requests, hosts over {a,A,b} and ports over {1,2} symbolic')
conn('servers3', [rq('GET', '\4', pay='1'), rq('GET', '\4', '5684', pay='2'), rq('GET', '\4', '1', pay='3')], 'three requests, hosts over {a,A,b} symbolic, with and without port', ['RECLEN=20'])
conn('servers-prefix', [rq('GET', 'h', '56', pay='1'), rq('GET', 'hh', '56', pay='2'), rq('GET', 'h', '56', pay='2'), rq('GET', 'h', '5', pay='2'), rq('GET', 'h', '56', pay='\1')], 'servers whose names are prefixes of each other')
conn('nohost', [rq('GET', '', None, fwd=0, status=400), rq('GET', pay='\1')], 'a URI without host, then a good request')
conn('nohost2', [rq('GET', '', 'coap:/', fwd=0, status=400), rq('GET', pay='\1')], 'a URI without host, then a good request')
conn('scheme', [rq('GET', '', 'http://h/', fwd=0, status=400), rq('GET', pay='\1')], 'another scheme, then a good request')
conn('method', [rq('HEAD', fwd=0, status=501), rq('GET', pay='\1')], 'a method without counterpart, then a good request')
conn('accept', [rq('GET', hdr='Accept: image/x\r\n', fwd=0, status=406), rq('GET', pay='\1')], 'an encoding without counterpart, then a good request')
for n in (255, 256, 300):
    conn('longop%d' % n, [rq('GET', longop=n, status=502), rq('GET', pay='\1')], 'a response with an option of %d bytes, then a good request' % n) if n > 255 else None
for m in ('GET', 'PUT'):
    conn('xerr-%s' % m.lower(), [rq(m, res='-ETIMEDOUT', body='x' if m == 'PUT' else ''), rq(m, res='-EBADMSG'), rq(m, res='-EIO'), rq('GET', pay='\1')], 'exchanges that fail, then a good request')
for b, sz in ((0, 40), (2, 100), (5, 513), (6, 1025)):
    conn('block2-%d' % b, [rq('GET', pay='abc', block2=8 + b, bres=sz), rq('GET', pay='\1')], 'a response in blocks of size exponent %d, %d bytes' % (b, sz), ['MAXOUT=2000'])
conn('block2-empty', [rq('GET', pay='', block2=10, bres=99999), rq('GET', pay='\1')], 'a transfer in blocks that yields nothing')
conn('block2-err', [rq('GET', pay='abc', block2=10, bres='-ETIMEDOUT'), rq('GET', pay='\1')], 'a transfer in blocks that fails')
conn('block2-bad', [rq('GET', pay='abc', block2=15, status=501)], 'a response with a reserved block size', ['BADBLOCK=1'])
conn('block2-res', [rq('GET', pay='abc', block2=10, bres=50)], 'every result of a transfer in blocks', ['XRES'])
for m in ('PUT', 'POST'):
    conn('long-' + m.lower(), [rq(m, body='\1', pad=1024, res=1, bres=30, det=4), rq('GET', pay='\1')], 'a body of 1025 bytes', ['MAXIN=1400', 'ENDS'])
    conn('long2-' + m.lower(), [rq(m, body='\1', pad=3000, res=1, bres=2000, det=4), rq(m, body='\1', det=4)], 'a body of 3001 bytes, then a short one', ['MAXIN=3400', 'MAXOUT=2200'])
    conn('1024-' + m.lower(), [rq(m, body='\1', pad=1023, det=4, pay='\1')], 'a body of 1024 bytes', ['MAXIN=1400'])
    conn('413-' + m.lower(), [rq(m, body='\1\1abc', bres=5, det=4), rq(m, body='\1', det=4, pay='\1')], 'a request that is too large for the server and sent again in blocks', ['ENDS'])
    conn('413-empty-' + m.lower(), [rq(m, body='\1\1abc', bres=99999, det=4), rq(m, body='\1', det=4, pay='\1')], 'a request sent again in blocks, answered without a body')
    conn('413-413-' + m.lower(), [rq(m, body='\1\1abc', bres=99999, cls=4, det=13, status=413)], 'a request sent again in blocks and refused again')
    conn('long-empty-' + m.lower(), [rq(m, body='\1', pad=1024, res=1, bres=99999, det=4), rq('GET', pay='\1')], 'a body of 1025 bytes, answered without a body', ['MAXIN=1400'])
    conn('413-err-' + m.lower(), [rq(m, body='\1\1', bres='-EBADMSG'), rq('GET', pay='\1')], 'a request sent again in blocks without success')
conn('long-get', [rq('GET', body='\1', pad=1100, pay='\1')], 'a GET request with a long body', ['MAXIN=1400'])
conn('long-delete', [rq('DELETE', body='\1', pad=1100, det=2, pay='\1')], 'a DELETE request with a long body', ['MAXIN=1400'])
# responses and requests around the size of the buffers
for n in (4040, 4053, 4054, 4055, 4056, 4057, 4058, 8100, 8149, 8150, 8151, 8152, 8153, 8154, 8192):
    conn('out%d' % n, [rq('GET', pay='abc', block2=10, bres=n), rq('GET', pay='\1')], 'a response with a body of %d bytes' % n, ['MAXOUT=8400'])
for n in (3960, 4000, 4020, 4040, 4096, 7000, 8190, 8192):
    conn('in%d' % n, [rq('PUT', body='\1', pad=n - 1, res=1, bres=20, det=4), rq('GET', pay='\1')], 'a request with a body of %d bytes in one record' % n, ['MAXIN=9000', 'ENDS'])
conn('in-parts', [rq('PUT', body='\1', pad=8000, res=1, bres=20, det=4), rq('GET', pay='\1')], 'a request with a body of 8001 bytes in records of 1000 bytes', ['MAXIN=9000', 'RECLEN=1000', 'ENDS'])
conn('in-over', [rq('PUT', body='\1', pad=8192, fwd=0, status=502)], 'a request with a body of 8193 bytes', ['MAXIN=9000'])
conn('wfail', [rq('GET', pay='1'), rq('GET', pay='\1')], 'the write of the last response fails', ['WFAIL'])
conn('cfail', [rq('GET', 'a', pay='1'), rq('GET', 'b', pay='\1')], 'the server cannot be reached', ['CFAIL'])
conn('cfail2', [rq('GET', 'a', pay='1'), rq('GET', 'b', pay='\1')], 'the second server cannot be reached', ['CFAIL=2'])
for k in range(1, 40):
    conn('heap%d' % k, [rq('PUT', 'h', '1', body='ab', det=4, pay='c'), rq('GET', 'g', pay='d')], 'failing allocation %d' % k, ['FAILAT=%d' % k, 'FAILMEM=0'] + (['FAILNEW'] if k < 5 else []))
for k in range(1, 14):
    conn('mem%d' % k, [rq('PUT', 'h', '1', body='ab', det=4, pay='c'), rq('GET', 'g', pay='d')], 'failing pool allocation %d' % k, ['FAILAT=%d' % k, 'FAILMEM=1'])
for ops, size, size2, mx in (('0', 0, 4, 3), ('01', 4, 4, 8), ('001', 3, 3, 8), ('0101', 2, 2, 8), ('02', 3, 3, 6), ('0202', 2, 2, 8), ('0210', 3, 3, 6), ('2', 0, 5, 8), ('022', 3, 3, 11), ('0120', 4, 4, 8)):
    for fail in ([0, 1] if '2' in ops else [0]):
        c18.append(C('dbuf-%s%s' % (ops, '-fail' if fail else ''), 'connection', ['proxy/common/src/data_buf.c'],
                     HEAP + ['COAP_DTLS_EN', 'DBUF=%d' % len(ops), 'OPS="%s"' % ops, 'DSIZE=%d' % size, 'DSIZE2=%d' % size2, 'DMAX=%d' % mx] + (['FAILAT'] if fail else []),
                     models=['vheap.c', 'vmem.c'], cbmc_models=['vlibc.c'], engine='sym', bounds='operations %s (0 add, 1 consume, 2 expand%s) on a data buffer of size %d to %d of at most %d, amounts and contents symbolic' % (ops, ', failing' if fail else '', size, size2, mx)))

# ------------------------------------------------------------------ C19 authentication
c19 = prop('C19', 'GnuTLS is a model of its documented results (harness/gtls.h): every call may fail, certificates, times and verification results are symbolic', 'locks are modelled as always available')
SYSDEFS = ['%s=v_%s' % (f, f) for f in 'getaddrinfo freeaddrinfo socket close connect bind listen accept setsockopt fcntl timerfd_create timerfd_settime time sleep strerror inet_ntop random srandom select recv recvfrom sendto rand srand pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock'.split()]


def auth(name, role, srcs, extra, bounds, **kw):
    c19.append(C('auth-' + name, 'auth', srcs, ['ROLE=%d' % role, 'COAP_DTLS_EN', 'COAP_CLIENT_AUTH', 'TLS_CLIENT_AUTH', 'VMEM_SMALL=40', 'VMEM_MEDIUM=1024', 'VMEM_LARGE=2048'] + SYSDEFS + HEAP + list(extra),
                 models=['vheap.c', 'vmem.c', 'vlog.c'], cbmc_models=['vlibc.c'], engine='sym', bounds=bounds, steps=4000000, **kw))


DCLIENT = ['lib/src/coap_client.c'] + MSG
DSERVER = ['lib/src/coap_server.c'] + MSG
TLS = ['proxy/common/src/tls_sock.c', 'proxy/common/src/tls.c', 'proxy/common/src/sock.c', 'proxy/common/src/util.c']
for nm in ('NULL', '"name"'):
    for crl in ('NULL', '"crl.pem"'):
        auth('coap-client-%s%s' % ('name' if nm != 'NULL' else 'any', '-crl' if crl != 'NULL' else ''), 1, DCLIENT, ['WORLD', 'NAME=' + nm, 'CRLFILE=' + crl], 'CoAP client over DTLS; every call may fail, up to two repetitions of the handshake; certificate, times and results symbolic')
    auth('tls-client-' + ('name' if nm != 'NULL' else 'any'), 3, TLS, ['WORLD', 'NAME=' + nm], 'TLS client; every call may fail, up to two repetitions of the handshake; certificate, times and results symbolic')
auth('tls-server', 4, TLS, ['WORLD'], 'TLS server with client authentication; every call may fail, up to two repetitions of the handshake; certificate, times and results symbolic')
auth('coap-server-aa', 2, DSERVER, ['WORLD', 'NTRY=1', 'SCRIPT="AA"', 'CRLFILE=NULL', 'PERFECT=0'], 'CoAP server over DTLS, two packets of a client; every call may fail; certificate, times and results symbolic')
for sc in ('ABA', 'AAB', 'ABB', 'ABAB', 'AAA'):
    auth('coap-server-' + sc.lower(), 2, DSERVER, tier='thorough' if len(sc) > 3 else 'quick', extra=['WORLD', 'NTRY=0', 'NOFAULT', 'SCRIPT="%s"' % sc, 'CRLFILE=NULL'] + ['PERFECT=%d' % (sc.count('A') == 1)], bounds='CoAP server over DTLS, packets of clients %s; certificates, times and results of the verification symbolic' % sc)
auth('coap-server-create', 2, DSERVER, ['CREATE', 'SCRIPT="AA"', 'CRLFILE="crl.pem"'], 'creation of a CoAP server over DTLS; every call may fail')

# ------------------------------------------------------------------ C20 TLS sockets and session caches of the proxy
c20 = prop('C20', 'GnuTLS and the sockets are models (harness/gtls.h, harness/tlsio.c) that fail at any call', 'locks are modelled; they are used by one thread here')


def tlsio(name, mode, extra, bounds, **kw):
    c20.append(C('tls-' + name, 'tlsio', TLS, ['MODE=%d' % mode, 'COAP_DTLS_EN', 'TLS_CLIENT_AUTH'] + SYSDEFS + HEAP + list(extra),
                 models=['vheap.c', 'vlog.c'], cbmc_models=['vlibc.c'], engine='sym', bounds=bounds, steps=4000000, **kw))


for mode, nm in ((1, 'read'), (2, 'write')):
    tlsio(nm, mode, [], 'one call, up to 4 interruptions of any kind, then 1 to 3 bytes of up to 4')
    tlsio(nm + '-full', mode, ['FULL'], '4 symbolic bytes in pieces of 1 to 3, up to 4 interruptions of any kind at any point')
tlsio('read-again', 1, ['REHS', 'NTRY=1', 'EVENTS=3'], 'one call, a new handshake asked for by the peer and up to 3 interruptions of any kind')
for o in ('ss', 'sg', 'sds', 'ssg', 'ssdg', 'sdg', 'ls', 'sld', 'sss', 'sdsg', 'smg'):
    tlsio('server-' + o, 3, ['OPS="%s"' % o, 'FILL=0'], 'cache of the server: %s (s store, d delete, g look up, l too long), keys and data symbolic' % o)
    if 'd' not in o:
        tlsio('client-' + o, 4, ['OPS="%s"' % o, 'FILL=0'], 'cache of the client: %s, addresses and data symbolic' % o)
for n in (49, 50, 51):
    tlsio('server-full%d' % n, 3, ['OPS="ss"', 'FILL=%d' % n], 'cache of the server after %d other sessions' % n)
    tlsio('client-full%d' % n, 4, ['OPS="ss"', 'FILL=%d' % n], 'cache of the client after %d other sessions' % n)
tlsio('listen', 5, [], 'tls_ssock_open; every call may fail')

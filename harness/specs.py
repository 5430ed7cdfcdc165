import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from engine import Harness

CORE = 'milter/core/'
ENUM = 'gen:milter/core/milter-enum-types.c'
DEC = [CORE + 'milter-decoder.c', CORE + 'milter-command-decoder.c', CORE + 'milter-option.c', ENUM]
CHECKS, META = {}, {}


def prop(pid, **meta):
    CHECKS.setdefault(pid, [])
    META[pid] = meta


def add(pid, *a, **k):
    CHECKS[pid].append(Harness(*a, **k))


prop('C01')
for c in 'ODCHMRTLNBEAQU':
    lens = {'O': [1, 5, 9, 12, 13, 14, 17], 'T': [1, 2], 'N': [1, 2], 'A': [1, 2], 'Q': [1, 2], 'B': [1, 2, 3, 6], 'E': [1, 2, 3, 6],
            'H': [1, 2, 3, 6], 'M': [1, 2, 3, 6], 'R': [1, 2, 3, 6], 'U': [1, 2, 3, 6], 'L': [1, 2, 3, 4, 7], 'D': [1, 2, 3, 5, 7], 'C': [1, 3, 4, 5, 6, 8, 9]}[c]
    acc = {'O': [13], 'T': [1], 'N': [1], 'A': [1], 'Q': [1], 'D': [2, 5, 7], 'C': [4, 5, 6, 8, 9], 'L': [4, 7]}.get(c, [3, 6])
    if c in 'BE':
        acc = lens
    for n in lens:
        acc_ok = n in acc
        rej_ok = not (c in 'BE' or (c in 'TNAQ' and n == 1) or (c == 'O' and n == 13))
        add('C01', 'cmd_any@%s%d' % (c, n), 'v:harness/cmd_any.c', DEC,
            defs=["-DCMD='%s'" % c, '-DLEN=%d' % n] + (['-DW_ACCEPT'] if acc_ok else []) + (['-DW_REJECT'] if rej_ok else []),
            caps=['-DVEXACT', '-DVSTR_CAP=%d' % max(32, n + 4)])
add('C01', 'cmd_any@other', 'v:harness/cmd_any.c', DEC, defs=['-DLEN=3', '-DW_REJECT'], caps=['-DVEXACT'])

RDEC = [CORE + 'milter-decoder.c', CORE + 'milter-reply-decoder.c', CORE + 'milter-reply-signals.c', CORE + 'milter-option.c',
        CORE + 'milter-macros-requests.c', CORE + 'milter-utils.c', ENUM]
prop('C02')


def reply(c, n, accept, reject, tag='', defs=[], caps=[], tier='quick'):
    add('C02', 'reply_any@%s%d%s' % ({'+': 'plus', '-': 'minus'}.get(c, c), n, tag), 'v:harness/reply_any.c', RDEC,
        defs=["-DCMD='%s'" % c, '-DLEN=%d' % n] + (['-DW_ACCEPT'] if accept else []) + (['-DW_REJECT'] if reject else []) + defs,
        caps=['-DVEXACT', '-DVSTR_CAP=%d' % max(32, n + 4)] + caps, tier=tier)


for c in 'ctradpf4s':
    for n in (1, 2):
        reply(c, n, n == 1, n != 1)
for n in (1, 2, 3, 7):
    reply('b', n, True, False)
for c in 'q-+':
    for n in (1, 2, 3, 7):
        reply(c, n, n > 2, True)
for c in '2e':
    for n in (1, 2, 3, 4, 5, 8):
        reply(c, n, n > 2, True)
for n in (1, 2, 3, 4, 5, 8):
    reply('h', n, n > 3, True)
for c in 'im':
    for n in (1, 3, 5, 6, 7, 8, 9, 11):
        reply(c, n, n > 7, True)
for n in (1, 3, 4, 5, 6, 7, 10, 12):
    reply('y', n, n > 4, True)
for n in (1, 9, 12, 13, 14, 17, 18):
    reply('O', n, n in (13,), n != 13)
for n in (19,):
    reply('O', n, True, True)
for st in range(8):
    reply('O', 20, st < 7, True, '.s%d' % st, ['-DSTAGE=%d' % st], tier='quick' if st in (0, 6, 7) else 'thorough')
add('C02', 'reply_any@other', 'v:harness/reply_any.c', RDEC, defs=['-DLEN=3', '-DW_REJECT'], caps=['-DVEXACT'])

prop('C03')
CENC = [CORE + 'milter-encoder.c', CORE + 'milter-command-encoder.c']


def chunk(n):
    return ['-include', 'small_chunk.h', '-DVCHUNK=%d' % n]



def crt(c, n1=None, n2=None, tag='', defs=[], caps=[], tier='quick', **k):
    add('C03', 'cmd_rt@%s%s%s%s' % (c, '' if n1 is None else n1, '' if n2 is None else '.%d' % n2, tag), 'v:harness/cmd_rt.c', CENC + DEC,
        defs=["-DCMD='%s'" % c] + ([] if n1 is None else ['-DN1=%d' % n1]) + ([] if n2 is None else ['-DN2=%d' % n2]) + defs, caps=caps, tier=tier, vformat=c in 'DC', **k)


for c in 'OTNAQ':
    crt(c)
for c in 'HMRU':
    for n in (1, 2, 5):
        crt(c, n)
for n in ((1, 0), (1, 1), (2, 3), (4, 0), (3, 5)):
    crt('L', *n)
for n in (1, 2, 6):
    crt('B', n)
    crt('E', n)
crt('E', 0)
crt('B', 6, tag='.limit', repo_defs=chunk(4))
crt('B', 4, tag='.limit', repo_defs=chunk(4))
crt('B', 5, tag='.limit', repo_defs=chunk(4))
for n in ((1, 2), (2, 1), (2, 2)):
    crt('D', *n)
crt('C', 3, tag='.unknown', defs=["-DFAM='U'"])
for n in ((1, 1), (2, 4)):
    crt('C', *n, tag='.unix', defs=["-DFAM='L'"])
crt('C', 2, tag='.inet', defs=["-DFAM='4'"], caps=['-DVINET_TOKEN'])
crt('C', 1, tag='.inet6', defs=["-DFAM='6'"], caps=['-DVINET_TOKEN', '-DVSTR_CAP=64'], own=48)

prop('C04')
RENC = [CORE + 'milter-encoder.c', CORE + 'milter-reply-encoder.c']


def rrt(c, n1=None, n2=None, tag='', defs=[], caps=[], tier='quick', **k):
    add('C04', 'reply_rt@%s%s%s%s' % ({'+': 'plus', '-': 'minus'}.get(c, c), '' if n1 is None else n1, '' if n2 is None else '.%d' % n2, tag), 'v:harness/reply_rt.c', RENC + RDEC,
        defs=["-DCMD='%s'" % c] + ([] if n1 is None else ['-DN1=%d' % n1]) + ([] if n2 is None else ['-DN2=%d' % n2]) + defs, caps=caps, tier=tier, **k)


for c in 'ctradpf4s':
    rrt(c)
for c in 'q-':
    for n in (1, 2, 5):
        rrt(c, n)
for c in '+e':
    for n in (1, 3):
        rrt(c, n, 0)
    for n in ((1, 1), (2, 3)):
        rrt(c, *n, tag='.two', defs=['-DTWO'])
for c in 'him':
    for n in ((1, 0), (3, 0), (1, 1), (2, 4), (5, 2)):
        rrt(c, *n)
for n in (1, 2, 6):
    rrt('b', n)
for n in (4, 5, 6):
    rrt('b', n, tag='.limit', repo_defs=chunk(4))
for n in ((5, 1), (9, 1), (9, 5)):
    rrt('y', *n)
rrt('O', tag='.none', defs=['-DMACROS=0', '-DSTAGE=0'])
for st in range(7):
    rrt('O', 1, tag='.s%d' % st, defs=['-DMACROS=1', '-DSTAGE=%d' % st], tier='quick' if st in (0, 6) else 'thorough')
for n in ((3, 0), (1, 2), (2, 1)):
    rrt('O', *n, tag='.two' if n[1] else '.one', defs=['-DMACROS=%d' % (2 if n[1] else 1), '-DSTAGE=2'], tier='thorough')

prop('C06')
HDR = [CORE + 'milter-headers.c', CORE + 'milter-utils.c', ENUM]


def hdr(seq, k, tier='quick', nl=1):
    add('C06', 'headers@%s.%d%s' % (seq, k, '' if nl == 1 else '.n%d' % nl), 'v:harness/headers.c', HDR, defs=['-DSEQ="%s"' % seq, '-DK=%d' % k, '-DNL=%d' % nl], tier=tier)


for s in 'PAICDVRNFLXY':
    for k in (1, 3):
        hdr(s, k)
for s in ('AC', 'CD', 'DC', 'IX', 'DX', 'AD', 'RC', 'VA'):
    hdr(s, 2)
for s in ('CDA', 'ICD', 'DDX', 'ACX'):
    hdr(s, 2, tier='thorough')
for s in 'ACDX':
    hdr(s, 2, nl=2)

prop('C07')
for o in 'CMS':
    add('C07', 'option@' + o, 'v:harness/option.c', [CORE + 'milter-option.c', ENUM], defs=["-DOP='%s'" % o])

prop('C09')
MREQ = [CORE + 'milter-macros-requests.c', ENUM]
for n in ((1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)):
    add('C09', 'macros_req@%d.%d' % n, 'v:harness/macros_req.c', MREQ, defs=['-DN1=%d' % n[0], '-DN2=%d' % n[1]])
add('C09', 'macros_req@1.1.replaced', 'v:harness/macros_req.c', MREQ, defs=['-DN1=1', '-DN2=1', '-DOLD=2'])

prop('C11')
ESM = [CORE + 'milter-esmtp.c', ENUM]


def esm(name, rcpt, n, pre='', post='', defs=[], acc=True, rej=True, tier='quick'):
    add('C11', 'esmtp@%s.%s%d' % (name, 'rcpt' if rcpt else 'mail', n), 'v:harness/esmtp.c', ESM,
        defs=['-DRCPT=%d' % rcpt, '-DN=%d' % n, '-DPRE="%s"' % pre, '-DPOST="%s"' % post] + (['-DW_ACCEPT'] if acc else []) + (['-DW_REJECT'] if rej else []) + defs, tier=tier, own=16, caps=['-DVGS_OFF', '-DVSTR_CAP=20'])


for n in (0, 1, 2, 3, 5, 6):
    esm('free', n & 1, n, acc=n in (2, 5, 6), rej=n != 2 or True)
for n in (1, 3, 5):
    esm('path', n == 3, n, '<', '@b>')
    esm('domain', n == 3, n, '<a@', '>')
    esm('route', n == 3, n, '<@', ':a@b>')
for n in (1, 3, 5):
    esm('params', n == 3, n, '<>', acc=n > 1)
    esm('literal', n == 3, n, '<a@[', acc=n > 2)
    esm('quoted', n == 3, n, '<\\"', acc=n > 4)
esm('added', 0, 4, '<>', defs=['-DOLD'])
esm('postmaster', 1, 2, '<Postmaster>')
esm('postmaster', 0, 2, '<Postmaster>', acc=False)

prop('C10')
CONN = [CORE + 'milter-connection.c', ENUM]


def conn(name, n, pre='', post='', acc=True, rej=True, tier='quick', defs=[], caps=[]):
    add('C10', 'conn_spec@%s%d' % (name, n), 'v:harness/conn_spec.c', CONN, caps=['-DVSTR_CAP=%d' % (n + len(pre) + len(post) + 4)] + caps,
        defs=['-DN=%d' % n, '-DPRE="%s"' % pre, '-DPOST="%s"' % post] + (['-DW_ACCEPT'] if acc else []) + (['-DW_REJECT'] if rej else []) + defs, tier=tier, own=16)


for n in (0, 1, 3, 5):
    conn('free', n, acc=False)
for n in (6, 7, 8):
    conn('free', n, tier='quick' if n < 8 else 'thorough')
for n in (1, 2, 5, 6):
    conn('inet-port', n, 'inet:', acc=True, rej=True)
for n in (1, 2, 4):
    conn('inet6-port', n, 'inet6:', acc=True, rej=True, tier='quick' if n < 4 else 'thorough')
conn('inet-port', 10, 'inet:', acc=True)
conn('inet-port', 11, 'inet:', acc=True, tier='thorough')
for n in (0, 2, 7, 8):
    conn('inet-host', n, 'inet:25@[', ']', acc=n >= 7)
for n in (2, 3, 5):
    conn('inet6-host', n, 'inet6:25@[', ']', tier='quick' if n == 5 else 'thorough')
for n in (2, 3, 4):
    conn('inet-tail', n, 'inet:25@[1.2.3.')
conn('inet-split', 3, 'inet:', '@[1.2.3.4]')
for n in (1, 4):
    conn('unix', n, 'unix:', rej=False)
    conn('local', n, 'local:', rej=False)
for n in (106, 107, 108, 109, 112):
    conn('unix-long', n, 'unix:', acc=n < 108, rej=n >= 108, defs=['-DFILL'], caps=['-DVSTR_CAP=128'])
for k in (1, 2, 3, 4, 5):
    for v in (4, 6):
        add('C10', 'conn_spec@format%d.p%d' % (v, k), 'v:harness/conn_spec.c', CONN, defs=['-DROUNDTRIP=%d' % v, '-DDIGITS=%d' % k],
            caps=['-DVINET_TOKEN', '-DVPUT_DIGITS=%d' % k, '-DVSTR_CAP=64'], vformat=True, own=48)

prop('C12')
CCTX = ['milter/client/milter-client-context.c', 'milter/client/milter-client.c', 'gen:milter/client/milter-client-enum-types.c'] + [CORE + 'milter-%s.c' % x for x in ('agent', 'protocol-agent', 'decoder', 'command-decoder', 'encoder', 'reply-encoder', 'option', 'macros-requests', 'reply-signals', 'finished-emittable', 'error-emittable', 'writer', 'reader', 'message-result', 'utils', 'headers', 'protocol', 'event-loop')] + [ENUM]


def rc(name, n1, n2, acc=True, tier='quick', defs=[]):
    add('C12', 'reply_code@%s%d.%d' % (name, n1, n2), 'v:harness/reply_code.c', CCTX,
        defs=['-DN1=%d' % n1, '-DN2=%d' % n2] + (['-DW_ACCEPT'] if acc else []) + defs, tier=tier, vformat=True, own=16)


for n in (0, 2):
    rc('set', 0, n)
for n in (1, 4, 5, 6, 7, 9, 10, 11):
    rc('set', n, n & 1, acc=4 < n < 10, tier='quick' if n in (4, 5, 9, 10) else 'thorough')
for n in ((0, 0), (0, 1), (0, 2), (0, 3), (5, 0), (5, 2)):
    rc('format', *n, defs=['-DFORMAT'])

prop('C14')
UTL = [CORE + 'milter-utils.c', CORE + 'milter-protocol.c', ENUM]


def utl(name, op, n=0, pre='', post='', acc=True, rej=True, tier='quick'):
    add('C14', 'utils@%s%d' % (name, n), 'v:harness/utils.c', UTL, tier=tier, own=16, caps=['-DVSPLIT_FLAT=%d' % (n + len(pre) + len(post)), '-DVSPLIT_MAX=%d' % (n + 2 + (pre + post).count('|'))] if op == 'F' else [],
        defs=["-DOP='%s'" % op, '-DN=%d' % n, '-DPRE="%s"' % pre, '-DPOST="%s"' % post] + (['-DW_ACCEPT'] if acc else []) + (['-DW_REJECT'] if rej else []))


utl('stages', 'S')
utl('strcmp', 'C')
utl('priority', 'P')
utl('merge', 'H')
for n in (0, 1, 2, 3, 4, 5, 7):
    utl('mode', 'M', n, rej=n > 0)
utl('mode-set', 'M', 4, 'ugoa=')
for n in (0, 3, 4, 5, 7):
    utl('flags', 'F', n, acc=n in (0, 3, 4, 5, 7), rej=n > 0, tier='quick' if n < 5 else 'thorough')
utl('flags-one', 'F', 1, post='critical')
utl('flags-two', 'F', 2, 'error', 'info')
for n, (a, b) in enumerate((('error|-info', 'debug'), ('info|-all', 'trace'), ('-info|error', '+debug'))):
    utl('flags-mid%d.' % n, 'F', 1, a, b)
utl('flags-minus', 'F', 1, '-all|', 'trace')
utl('flags-default', 'F', 1, 'default|', 'none')
for n in (4, 6, 7):
    utl('status', 'E', n)
utl('status-long', 'E', 3, 'temporary', 'failure', acc=False)

prop('C05')


def strm(c1, n1, c2, n2, cut, tag='', defs=[], reply=False, base=False, tier='quick'):
    nm = lambda c: {'+': 'plus', '-': 'minus'}.get(c, c)
    add('C05', 'stream@%s%d.%s%d.%d%s' % ('base' if base else ('r' if reply else '') + nm(c1), n1, '' if base else nm(c2), n2, cut, tag), 'v:harness/stream.c', DEC[:1] + [ENUM] if base else RDEC if reply else DEC,
        defs=["-DC1='%s'" % c1, '-DL1=%d' % n1, "-DC2='%s'" % c2, '-DL2=%d' % n2, '-DCUT=%d' % cut] + (['-DREPLY'] if reply else []) + (['-DBASE'] if base else []) + defs, tier=tier, own=24)


for n1, n2 in ((1, 1), (3, 2), (6, 5)):
    for k in range(0, n1 + n2 + 9):
        strm('B', n1, 'B', n2, k, base=True, tier='quick' if n1 < 4 or k in (0, 5, 10, 12) else 'thorough')
for k in range(1, 13):
    for k2 in range(k + 1, 13):
        strm('B', 3, 'B', 2, k, tag='.%d' % k2, defs=['-DCUT2=%d' % k2], base=True, tier='quick' if k % 3 == 1 and k2 % 2 else 'thorough')
for k in range(1, 14):
    strm('B', 3, 'B', 2, k, tag='.bad', defs=['-DBAD'], base=True, tier='quick' if k in (5, 6, 7, 9, 13) else 'thorough')
for n in (1, 2, 3, 4, 5, 6):
    strm('B', 2, 'Q', 1, 0, tag='.len%d' % n, defs=['-DFREELEN=%d' % n], base=True)
for a, r in ((('B', 1, 'E', 2), 0), (('Q', 1, 'A', 1), 0), (('E', 3, 'B', 2), 0), (('b', 2, 'c', 1), 1), (('d', 1, 'b', 3), 1)):
    t1 = 4 + a[1]
    for k in sorted({2, 4, t1 - 1, t1, t1 + 1, t1 + 4, t1 + 4 + a[3]}):
        strm(*a, k, reply=bool(r), tier='quick' if k in (t1 - 1, t1 + 1) else 'thorough')

prop('C13')
MG = 'milter/manager/milter-manager-'
MCOD = [CORE + 'milter-decoder.c', CORE + 'milter-encoder.c', ENUM]
MC = {'C': [MG + 'control-command-decoder.c', MG + 'control-command-encoder.c', CORE + 'milter-command-encoder.c'],
      'R': [MG + 'control-reply-decoder.c', MG + 'control-reply-encoder.c', MG + 'reply-decoder.c', MG + 'reply-encoder.c'],
      'L': [MG + 'launch-command-decoder.c', MG + 'launch-command-encoder.c']}


def mdec(kind, pre, n, acc=True, rej=True, tier='quick'):
    add('C13', 'manager_codec@%s.%s%d' % (kind, pre.replace('\\0', '0') or 'free', n), 'v:harness/manager_codec.c', MCOD + MC[kind], tier=tier, own=30,
        defs=["-DKIND='%s'" % kind, '-DPRE="%s"' % pre, '-DN=%d' % n, '-DDEC'] + (['-DW_ACCEPT'] if acc else []) + (['-DW_REJECT'] if rej else []))


for k in 'CRL':
    for n in (1, 3, 6, 7, 8):
        mdec(k, '', n, acc=(k == 'C' and n == 7) or (k == 'R' and n in (6, 7, 8)), tier='quick' if n < 8 else 'thorough')
for w, k in (('set-configuration', 'C'), ('configuration', 'R'), ('failure', 'R'), ('error', 'R'), ('launch', 'L')):
    for n in (0, 1, 4):
        mdec(k, w + '\\0', n, acc=w != 'launch' or n > 1, rej=w == 'launch')
for w, k in (('get-configuration', 'C'), ('reload', 'C'), ('get-status', 'C'), ('success', 'R')):
    for n in (0, 2):
        mdec(k, w + '\\0', n, acc=not n, rej=n)
for w, k in (('set-configuratio', 'C'), ('configuratio', 'R'), ('get-statu', 'C')):
    mdec(k, w, 3, acc=w != 'get-statu')


def mrt(kind, op, word, n, m=0):
    add('C13', 'manager_codec@rt.%s%d.%d' % (word, n, m), 'v:harness/manager_codec.c', MCOD + MC[kind], own=30,
        defs=["-DKIND='%s'" % kind, '-DPRE="%s\\0"' % word, '-DN=%d' % n, '-DM=%d' % m, '-DOP=' + op])


for n in (0, 1, 5):
    mrt('C', 'SET', 'set-configuration', n)
    mrt('R', 'CONF', 'configuration', n)
    mrt('R', 'FAILURE', 'failure', n)
    mrt('R', 'ERROR', 'error', n)
mrt('C', 'RELOAD', 'reload', 0)
mrt('C', 'STATUS', 'get-status', 0)
mrt('R', 'SUCCESS', 'success', 0)
for n in ((1, 0), (3, 0), (1, 1), (3, 4)):
    mrt('L', 'LAUNCH', 'launch', *n)

prop('C08')
AGENT = [CORE + 'milter-%s.c' % x for x in ('agent', 'protocol-agent', 'decoder', 'command-decoder', 'encoder', 'reply-encoder', 'option', 'macros-requests', 'finished-emittable', 'error-emittable', 'writer', 'reader', 'utils', 'protocol', 'event-loop')] + [ENUM]


def mac(seq, tier='quick', defs=[], acc=None, rej=True):
    if acc is None:         # some macro can be seen at the end
        acc = True
    add('C08', 'macros@%s%s' % (seq.replace('?', '_'), '.br' if defs else ''), 'v:harness/macros.c', AGENT, defs=['-DSEQ="%s"' % seq] + defs + (['-DW_ACCEPT'] if acc else []), tier=tier, own=16, caps=['-DVTEXT_MAX=3'])


for a, b in ('CH', 'HC', 'MR', 'RM', 'EB', 'TL', 'LN', 'NB', 'HE', 'MM'):
    for c in sorted({a, b}) + ['C' if 'C' not in (a, b) else 'U', 'E' if 'E' not in (a, b) else 'Q']:
        mac('s%ss%sx%sg-' % (a, b, c), tier='quick' if c != 'E' and (a in 'CM' or c == b) else 'thorough', acc=c != 'C' or 'C' in (a, b))
for s in ('sCxRg-sCg-', 'sMxRg-mMg-', 'sMxRg-mCg-', 'sRhRxRg-', 'sCsHkHxRg-', 'sCr-xEg-', 'hHxBb-', 'sTxNb-', 'sCsMxMt-', 'mLxBg-', 'xEsMg-xCg-', 'xEsMg-hMg-'):
    mac(s)
for s in ('sMdMxMg-', 'sMkMxRg-', 'sMr-xRg-', 'sRr-xRg-', 'sTr-xBg-', 'sLr-xBg-', 'sNr-xBg-', 'sBr-xBg-', 'sEr-xEg-', 'xCsMg-xLg-'):
    mac(s, rej=True, acc=s[-5] == 'x' and 'r' not in s and 'd' not in s and 'k' not in s)
for s in ('xEsEg-dEg-', 'xEsEg-kEg-', 'xEsMg-r-g-'):
    mac(s)
for c in 'MC':
    mac('sMx%sg-' % c, defs=['-DBRACKETS'], acc=c == 'M')
mac('sCsCxCg-', defs=['-DBRACKETS'])
for s in ('sCsHsMxRg-', 'sRsMsCxMg-', 'hMhRxRg-', 'sMhMsMxMg-', 'sNdNsMxNg-', 'sCx?g-', 'sMsRx?g-'):
    mac(s, tier='thorough')

prop('C15')
IOW = [CORE + 'milter-%s.c' % x for x in ('writer', 'finished-emittable', 'error-emittable', 'utils', 'protocol', 'event-loop')] + [ENUM]
IOR = [CORE + 'milter-reader.c'] + IOW[1:]


def io(kind, seq, again=0, tier='quick'):
    add('C15', 'io@%s.%s%s' % (kind, seq, '.again%d' % again if again else ''), 'v:harness/io.c', IOW if kind == 'w' else IOR,
        defs=['-DSEQ="%s"' % seq, '-DAGAIN=%d' % again] + (['-DWRITER'] if kind == 'w' else []), tier=tier, own=18)


for s in ('1f1foo', '2f1foo', '2fo1foo', '1', '2o', '2oo', '2oao', '1o2o', '2fo', '2fo1o', '1f1fo', '2foaf', '2oafa', 'f', '0f', 'fa1', '2f1oo', '2s', '2os', '2xo', 'x2xx1a', '2ox', '2fe', 'e', 'so', '2so1', '2oos1f', '1fafa'):
    io('w', s)
for s in ('h1fa', 'h2fo', 'h1oaf'):
    for k in (1, 2):
        io('w', s, again=k)
for s in ('3f2oofo', '2f1fooo', '1o1o1of', '2oo1fs', '2xo1fo', '3ofo2o'):
    io('w', s, tier='thorough')
for s in ('1', '2n3', '1z', 'z', '1z1', 'x', '1x1', '2s', 's1', '2H1', '2e1', 'h1', '1h21', 'sz', 'ze', 'h2z', 'h1x'):
    io('r', s)

C17_READY = True
if C17_READY:
    prop('C17')


    ST = ['REJECT', 'TEMPORARY_FAILURE', 'DISCARD', 'ACCEPT', 'SKIP', 'CONTINUE', 'DEFAULT', 'NOT_CHANGE']

    def cli(seq, cases, ops='', tag='', defs=[], tier='quick'):
        cs = ','.join('{K_(%s),K_(%s),%s,%s}' % (c[0], c[1] or c[0], c[2], "'%s'" % c[3] if c[3] else '0') for c in (tuple(c) + (None, 0, '')[len(c) - 1:] if isinstance(c, tuple) else (c, None, 0, '') for c in cases))
        add('C17', 'client@%s%s%s' % (seq.replace('.', '_'), '.' + ops if ops else '', tag), 'v:harness/client.c', CCTX, caps=['-DVEXACT', '-DVSTR_CAP=64'],
            defs=['-DSEQ="%s"' % seq, '-DCASES=%s' % cs] + (['-DOPS="%s"' % ops] if ops else []) + defs, tier=tier, vformat='y' in ops, own=24)

    for s in 'CHMRUTLNBE':
        cli(s, ST)
    for s in 'MRE':
        cli(s, [tuple(x.split(',')) for x in ('CONTINUE,REJECT', 'REJECT,ACCEPT', 'NOT_CHANGE,TEMPORARY_FAILURE', 'DEFAULT,DISCARD', 'CONTINUE,NOT_CHANGE', 'SKIP,REJECT')], tag='.two', defs=['-DTWO'], tier='quick' if s == 'R' else 'thorough')
    for i, s in enumerate('CHMRUTLNBE'):
        cli(s + '.', ST[:7], tier='quick' if s in 'RE' else 'thorough')
    for s in 'RE':
        cli(s, [('REJECT', None, 550), ('REJECT', None, 451), ('TEMPORARY_FAILURE', None, 421), ('TEMPORARY_FAILURE', None, 554), ('CONTINUE', None, 550), ('ACCEPT', None, 450)], 'y')
    for s in 'aimxfFrRdb':
        cli('E', [('CONTINUE', None, 0, 'N'), ('REJECT', None, 0, 'A'), ('CONTINUE', None, 0, 'O'), ('ACCEPT', None, 0, 'X')], s)
    for s, o in (('M', 'a'), ('B', 'm'), ('N', 'd'), ('R', 'b')):
        cli(s, [('CONTINUE', None, 0, 'A'), ('REJECT', None, 0, 'N')], o)
    for s in ('q', 'aq', 'qb', 'xa'):
        cli('E', [('CONTINUE', None, 0, 'A'), ('ACCEPT', None, 0, 'A')], s)
    for s in ('MR', 'EM', 'MAM', 'CH', 'MRE', 'EMRE'):
        cli(s, ['CONTINUE', 'ACCEPT'])
    cli('MRTLNBE', ['CONTINUE'], tier='thorough')

C16_READY = True
if C16_READY:
    prop('C16')
    SCTX = ['milter/server/milter-server-context.c', 'milter/server/milter-server.c', 'gen:milter/server/milter-server-enum-types.c'] + [CORE + 'milter-%s.c' % x for x in ('agent', 'protocol-agent', 'decoder', 'reply-decoder', 'encoder', 'command-encoder', 'option', 'macros-requests', 'reply-signals', 'finished-emittable', 'error-emittable', 'writer', 'reader', 'message-result', 'utils', 'headers', 'protocol', 'event-loop', 'connection')] + [ENUM]
    STEP = {'C': ('CONNECT', 'CONNECT'), 'H': ('HELO', 'HELO'), 'M': ('ENVELOPE_FROM', 'ENVELOPE_FROM'), 'R': ('ENVELOPE_RECIPIENT', 'ENVELOPE_RECIPIENT'), 'U': ('UNKNOWN', 'UNKNOWN'),
            'T': ('DATA', 'DATA'), 'L': ('HEADERS', 'HEADER'), 'N': ('END_OF_HEADER', 'END_OF_HEADER'), 'B': ('BODY', 'BODY')}

    def srv(seq, cases, tag='', defs=[], tier='quick'):
        name = seq.replace('*', '_').replace('^', 'v').replace('!', 'T').replace('%', 'X').replace('+', 'P').replace('-', 'D')
        cs = ','.join("{%s,'%s'}" % c for c in cases)
        add('C16', 'server@%s%s' % (name, tag), 'v:harness/server.c', SCTX, caps=['-DVEXACT', '-DVSTR_CAP=64'],
            defs=['-DSEQ="%s"' % seq, '-DCASES=%s' % cs] + defs, tier=tier, own=24)

    def steps(c):
        n, r = STEP[c]
        return [('0', 'c'), ('S(NO_%s)' % n, 'c'), ('S(NO_REPLY_%s)' % r, 'c'), ('OTHERS(%s,%s)' % (n, r), 'c')]
    for c in 'CHMRUTLNB':
        srv(c + '*', steps(c), '.steps')
    for c in 'CHMRUTLNBE':
        srv(c + '*', [('0', k) for k in ('rtadyYc' if c in 'MRBE' else 'ryc')], '.final')
        srv(c + '*', [('0', k) for k in ('sphmq' if c != 'E' else 'shixmpq')], '.other', tier='quick' if c in 'RBE' else 'thorough')
    srv('E*', [('NO_STEPS|NO_REPLIES', 'c')], '.steps')
    srv('E*c', [('0', k) for k in 'e+2-b'], '.changes')
    srv('M*', [('0', 'c'), ('S(NO_ENVELOPE_FROM)', 'c')], '.macros', ['-DMACROS'])
    for c in 'CHMRTLNBE':
        srv('%' + c, [('0', 'c')], '', ['-DSTOPS'], tier='quick' if c in 'CRBE' else 'thorough')
    for q in ('CH', 'C^H', 'RT', 'E^E', 'B^B', 'BB', 'BsM', 'MUc'):
        srv(q, [('0', 'c')], tier='quick' if q in ('C^H', 'RT', 'BB') else 'thorough')
    srv('BB*', [('S(NO_REPLY_BODY)', 'c')], '.noreply')
    for q in ('M!', 'M^!', 'E!', 'Ep!', 'B!', 'E^!', 'C!'):
        srv(q, [('0', 'c')], tier='quick' if q in ('M^!', 'Ep!', 'B!') else 'thorough')
    srv('MQ^*', [('0', k) for k in 'rtadyc'])
    srv('HQ^*', [('0', k) for k in 'rtadyc'])
    srv('EQ^*', [('0', k) for k in 'rtadycph'], tier='thorough')
    for q in ('MA', 'M^A', 'McA', 'McRcA', 'CcA'):
        srv(q, [('0', 'c')], tier='quick' if q in ('M^A', 'McRcA') else 'thorough')
    srv('McR*A', [('0', k) for k in 'rt'])
    srv('McR*AMcRcA', [('0', k) for k in 'rt'])
    for q in ('McRrRcEc', 'MrMcEc', 'EhqcMcEc', 'McATcMcEc'):
        srv(q, [('0', 'c')], tier='thorough' if q == 'McATcMcEc' else 'quick')
    srv('McR*RcEc', [('0', k) for k in 'ty'])
    srv('CcHcMcRcTcLcNcBcEc', [('0', 'c')], tier='thorough')

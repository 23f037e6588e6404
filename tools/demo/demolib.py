"""Helpers shared by the demonstrations: builds a converter from the source tree
in the current directory (with the stand-in libsbp/libswiftnav packed beside this
file) in a temporary directory, and reads and writes RTCM and SBP."""
import contextlib, glob, os, struct, subprocess, sys, tarfile, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))

@contextlib.contextmanager
def program(name, extra=None, cflags=()):
    """Build c/<name> (or the C file `extra` beside this one with all libraries)."""
    root = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='demo_') as w:
        with tarfile.open(os.path.join(HERE, 'shim.tgz')) as t:
            t.extractall(w)
        R = os.path.join(root, 'c')
        inc = [f'{w}/shim/include']
        for d in ['gnss_converters', 'gnss_converters_extra', 'librtcm', 'libubx', 'libixcom', 'nov2sbp', 'rtcm3tosbp', 'ubx2sbp', 'ixcom2sbp', 'sbp2rtcm']:
            for s in ['include', 'src', 'parser', '.']:
                p = os.path.join(R, d, s)
                if os.path.isdir(p) and (s != '.' or d == 'nov2sbp'):
                    inc.append(p)
        inc = ['-I' + i for i in inc]
        c = []
        for d in ['gnss_converters', 'gnss_converters_extra', 'librtcm', 'libubx', 'libixcom']:
            c += glob.glob(f'{R}/{d}/src/*.c') + glob.glob(f'{R}/{d}/src/*/*.c')
        c += glob.glob(f'{w}/shim/src/*.c') + glob.glob(f'{w}/shim/gen/*.c')
        cc = []
        if name == 'nov2sbp':
            cc = [f for f in glob.glob(f'{R}/nov2sbp/parser/*.cc') + glob.glob(f'{R}/nov2sbp/src/*.cc') if not os.path.basename(f).startswith('test_')]
        elif extra:
            (cc if extra.endswith('.cc') else c).append(os.path.join(HERE, extra))
        else:
            c += glob.glob(f'{R}/{name}/src/*.c')
        jobs, objs = [], []
        for i, f in enumerate(c + cc):
            o = f'{w}/{i}.o'
            objs.append(o)
            comp = ['g++', '-std=c++14'] if f.endswith('.cc') else ['gcc', '-std=gnu11']
            jobs.append(comp + ['-O1', '-w', '-g', *cflags, *inc, '-c', f, '-o', o])
        procs = []
        for j in jobs:
            procs.append(subprocess.Popen(j))
            if len(procs) >= 8:
                if procs.pop(0).wait():
                    sys.exit('build failed')
        if any([p.wait() for p in procs]):
            sys.exit('build failed')
        exe = f'{w}/prog'
        subprocess.check_call(['g++', '-o', exe, *cflags, *objs, '-lm', '-lpthread'])
        yield exe

def crc24(b):
    c = 0
    for x in b:
        c ^= x << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864CFB
    return c

class Bits:
    def __init__(self):
        self.b = []
    def u(self, v, n):
        v &= (1 << n) - 1
        self.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]
        return self
    def bytes(self):
        b = self.b + [0] * (-len(self.b) % 8)
        return bytes(int(''.join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))

def rtcm(payload):
    h = bytes([0xD3, len(payload) >> 8, len(payload) & 255]) + payload
    return h + struct.pack('>I', crc24(h))[1:]

MSMBASE = {'G': 1070, 'R': 1080, 'E': 1090, 'C': 1120}
def msm(cons, kind, stn, t_ms, more, sats, sigs, base=20000, cn0=40, lock=10):
    """MSM4..7 with all cells present; sats from 1, sigs = RTCM signal ids."""
    w = Bits()
    w.u(MSMBASE[cons] + kind, 12).u(stn, 12)
    if cons == 'R':
        w.u(0, 3).u(t_ms, 27)
    else:
        w.u(t_ms, 30)
    w.u(more, 1).u(0, 3 + 7 + 2 + 2 + 1 + 3)
    for i in range(1, 65):
        w.u(int(i in sats), 1)
    for i in range(1, 33):
        w.u(int(i in sigs), 1)
    n = len(sats) * len(sigs)
    w.u((1 << n) - 1, n)
    for i in range(len(sats)):
        w.u(70 + i, 8)
    if kind in (5, 7):
        for i in range(len(sats)):
            w.u(7, 4)
    for i in range(len(sats)):
        w.u(100 + 7 * i, 10)
    if kind in (5, 7):
        for i in range(len(sats)):
            w.u(100 + i, 14)
    ext = kind >= 6
    for i in range(n):
        w.u(base // 10 + i, 20 if ext else 15)
    for i in range(n):
        w.u(base + 3 * i, 24 if ext else 22)
    for i in range(n):
        w.u(lock * 30 if ext else lock, 10 if ext else 4)
    for i in range(n):
        w.u(0, 1)
    for i in range(n):
        w.u(cn0 * 16 if ext else cn0, 10 if ext else 6)
    if kind in (5, 7):
        for i in range(n):
            w.u(50 + i, 15)
    return rtcm(w.bytes())

def legacy_gps(num, stn, t_ms, sync, sats):
    w = Bits()
    w.u(num, 12).u(stn, 12).u(t_ms, 30).u(sync, 1).u(len(sats), 5).u(0, 4)
    for s in sats:
        w.u(s, 6).u(0, 1).u(1000000 + 1000 * s, 24).u(200, 20).u(100, 7).u(70, 8).u(160, 8)
        if num == 1004:
            w.u(0, 2).u(20, 14).u(300, 20).u(100, 7).u(140, 8)
    return rtcm(w.bytes())

def legacy_glo(num, stn, tod_ms, sync, sats):
    w = Bits()
    w.u(num, 12).u(stn, 12).u(tod_ms, 27).u(sync, 1).u(len(sats), 5).u(0, 4)
    for s in sats:
        w.u(s, 6).u(0, 1).u(7, 5).u(1000000 + 1000 * s, 25).u(200, 20).u(100, 7).u(33, 7).u(160, 8)
        if num == 1012:
            w.u(0, 2).u(20, 14).u(300, 20).u(100, 7).u(140, 8)
    return rtcm(w.bytes())

def sbp_crc(b):
    c = 0
    for x in b:
        c ^= x << 8
        for _ in range(8):
            c = (c << 1) ^ (0x1021 if c & 0x8000 else 0)
        c &= 0xFFFF
    return c

def sbp(mtype, sender, payload):
    b = struct.pack('<HHB', mtype, sender, len(payload)) + payload
    return b'\x55' + b + struct.pack('<H', sbp_crc(b))

def sbp_parse(data):
    r, i = [], 0
    while i + 8 <= len(data):
        assert data[i] == 0x55, 'not SBP at %d' % i
        t, s, n = struct.unpack_from('<HHB', data, i + 1)
        p = data[i + 6:i + 6 + n]
        assert struct.unpack_from('<H', data, i + 6 + n)[0] == sbp_crc(data[i + 1:i + 6 + n])
        r.append((t, s, p))
        i += 8 + n
    assert i == len(data), 'torn SBP output'
    return r

def obs(p):
    """(tow, wn, total, index, [obs dict])"""
    tow, ns, wn, n = struct.unpack_from('<IiHB', p)
    o = []
    for k in range(11, len(p), 17):
        P, Li, Lf, Di, Df, cn0, lock, flags, sat, code = struct.unpack_from('<IiBhBBBBBB', p, k)
        o.append(dict(P=P, L=Li + Lf / 256, D=Di + Df / 256, cn0=cn0, lock=lock, flags=flags, sat=sat, code=code))
    return tow, wn, n >> 4, n & 15, o

def run(exe, args, data, timeout=60):
    p = subprocess.run([exe, *args], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout, p.stderr

def fail(msg):
    print('FAIL:', msg)
    sys.exit(1)

def epochs(out):
    """list of (tow, wn, sender, [obs]) from SBP bytes; incomplete sequences fail"""
    r, cur = [], None
    for t, s, p in sbp_parse(out):
        if t != 0x4A:
            continue
        tow, wn, tot, i, o = obs(p)
        if i == 0:
            cur = [tow, wn, s, []]
        elif cur is None or cur[:3] != [tow, wn, s]:
            fail('observation sequence broken')
        cur[3] += o
        if i + 1 == tot:
            r.append(tuple(cur))
            cur = None
    return r

def ubx(cls, mid, payload):
    b = bytes([cls, mid]) + struct.pack('<H', len(payload)) + payload
    x = y = 0
    for v in b:
        x = (x + v) & 255
        y = (y + x) & 255
    return b'\xb5\x62' + b + bytes([x, y])

def sfrbx(gnss, sat, words, freq=0):
    return ubx(2, 0x13, struct.pack('<8B', gnss, sat, 0, freq, len(words), 0, 2, 0) + b''.join(struct.pack('<I', w) for w in words))

def ixcom(mid, sec, usec, payload, cnt=0):
    b = bytes([0x7E, mid, cnt & 255, 0]) + struct.pack('<HHII', 20 + len(payload), 2200, sec, usec) + payload + b'\0\0'
    return b + struct.pack('<H', sbp_crc(b))

def crc32(b):
    c = 0
    for x in b:
        c ^= x
        for _ in range(8):
            c = c >> 1 ^ 0xEDB88320 if c & 1 else c >> 1
    return c

def novatel(mid, week, ms, payload, short=False):
    if short:
        b = bytes([0xAA, 0x44, 0x13, len(payload)]) + struct.pack('<HHI', mid, week, ms)
    else:
        b = bytes([0xAA, 0x44, 0x12, 28]) + struct.pack('<HBBHHBBHIIHH', mid, 0, 0x20, len(payload), 0, 60, 180, week, ms, 0, 0, 0)
    b += payload
    return b + struct.pack('<I', crc32(b))

def nov_imu(week, ms, itype=41, vals=(1000, 2000, 3000, 100, 200, 300)):
    return novatel(1462, week, ms, struct.pack('<BBHdI6i', 0, itype, week, ms / 1000, 0, *vals), True)

def nov_pos(week, ms, typ=50, lat=37.0, lon=-122.0):
    return novatel(42, week, ms, struct.pack('<IIdddfIfffIff8B', 0, typ, lat, lon, 50.0, -30.0, 61, 1.0, 1.0, 2.0, 0, 0, 0, 20, 15, 15, 15, 0, 0, 0, 0))

def nov_vel(week, ms):
    return novatel(99, week, ms, struct.pack('<IIffdddf', 0, 16, 0, 0, 10.0, 45.0, 0.5, 0))

#!/usr/bin/env python3
"""Build the simulation harnesses from /repo's working tree.

  build.py [--repo /repo] [--variant pattern|msan] harness...

Everything is written to /verif/build (ignored by git).  An object is reused
only when the content of its source, of every header it could include and of
its command line is unchanged, so a check always sees the current tree.
"""
import argparse, concurrent.futures, glob, hashlib, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SAN = ['-fsanitize=address,bounds,null,integer-divide-by-zero',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
COV = ['-fsanitize-coverage=inline-8bit-counters,pc-table']


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def rust(repo, out):
    """The Rust programs of /repo/rust in one library; returns its path."""
    tools = ['rtcm3tosbp', 'ubx2sbp', 'ixcom2sbp', 'nov2sbp', 'sbp2rtcm']
    src = sorted(glob.glob(f'{repo}/rust/*.rs')) + sorted(glob.glob(f'{V}/rust/*.rs'))
    lib, kf = os.path.join(out, 'librustprog.a'), os.path.join(out, 'key')
    key = digest(src) + digest([os.path.abspath(__file__)])
    try:
        if os.path.exists(lib) and open(kf).read() == key:
            return lib
    except OSError:
        pass
    os.makedirs(f'{out}/empty', exist_ok=True)
    flags = ['--edition', '2018', '-C', 'panic=abort', '-C', 'opt-level=1', '--cap-lints', 'allow', '-L', out, '-L', f'{out}/empty', '--out-dir', out]
    ex = lambda *n: [x for c in n for x in ('--extern', f'{c}={out}/lib{c}.rlib')]
    dep = ('libc', 'if_chain', 'lazy_static')
    cmds = [['rustc', f'{V}/rust/{c}.rs', '--crate-type', 'rlib', '--crate-name', c] + flags for c in dep]
    cmds.append(['rustc', f'{repo}/rust/lib.rs', '--crate-type', 'rlib', '--crate-name', 'gnss_converters'] + flags + ex(*dep))
    # a panic says what it is and ends the process, without looking up a backtrace
    top = 'fn quiet() { std::panic::set_hook(Box::new(|i| eprintln!("thread {}", i))); }\n'
    for t in tools:
        with open(f'{repo}/rust/{t}.rs') as f:
            s = f.read()
        # a status as the end of the program makes it from what main returns
        s += """
pub fn verif_program() -> i32 {
    let c = std::process::Termination::report(main());
    if format!("{:?}", c) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 }
}
"""
        with open(f'{out}/{t}.rs', 'w') as f:
            f.write(s)
        for l in set(x.split('"')[1] for x in s.splitlines() if x.strip().startswith('#[link(name')):
            if not os.path.exists(f'{out}/empty/lib{l}.a'):
                sh(['ar', 'rcs', f'{out}/empty/lib{l}.a'])
        top += f'#[path = "{t}.rs"] mod {t};\n#[no_mangle] pub extern "C" fn rust_{t}() -> i32 {{ quiet(); {t}::verif_program() }}\n'
    with open(f'{out}/top.rs', 'w') as f:
        f.write(top)
    cmds.append(['rustc', f'{out}/top.rs', '--crate-type', 'staticlib', '--crate-name', 'rustprog'] + flags + ex('gnss_converters', *dep))
    for c in cmds:
        rc, txt = sh(c)
        if rc:
            print('BUILD FAILED:', ' '.join(c), txt[:4000], file=sys.stderr)
            return None
    with open(kf, 'w') as f:
        f.write(key)
    return lib


def build(repo, variant, harnesses, quiet=False):
    R = os.path.join(repo, 'c')
    out = os.path.join(V, 'build', variant)
    os.makedirs(out, exist_ok=True)
    inc = [f'{V}/shim/include', f'{V}/sim']
    for d in ['gnss_converters', 'gnss_converters_extra', 'librtcm', 'libubx', 'libixcom', 'nov2sbp',
              'rtcm3tosbp', 'ubx2sbp', 'ixcom2sbp', 'sbp2rtcm', 'sbp2nmea']:
        for s in ['include', 'src', 'parser', '']:
            p = os.path.join(R, d, s) if s else os.path.join(R, d)
            if os.path.isdir(p) and (s or d == 'nov2sbp'):
                inc.append(p)
    inc = ['-I' + i for i in inc]

    # msan: memory nothing has been written to is tracked; the simulator itself
    # is not (what it writes counts as written)
    msan = variant == 'msan'
    san = ['-fsanitize=memory', '-fno-omit-frame-pointer'] if msan else SAN
    base = ['-g1', '-O1', '-w'] + ([] if msan else ['-ftrivial-auto-var-init=pattern']) + inc

    def srcs(*pats):
        r = []
        for p in pats:
            r += glob.glob(p)
        return sorted(x for x in r if not os.path.basename(x).startswith('test_')
                      and not x.endswith('_main.c') and not x.endswith('_main.cc'))

    c_repo = srcs(*[f'{R}/{d}/src/**/*.c' for d in []])
    for d in ['gnss_converters', 'gnss_converters_extra', 'librtcm', 'libubx', 'libixcom',
              'rtcm3tosbp', 'ubx2sbp', 'ixcom2sbp', 'sbp2rtcm', 'sbp2nmea']:
        c_repo += srcs(f'{R}/{d}/src/*.c', f'{R}/{d}/src/*/*.c')
    cc_repo = srcs(f'{R}/nov2sbp/parser/*.cc', f'{R}/nov2sbp/src/*.cc')
    c_shim = srcs(f'{V}/shim/src/*.c', f'{V}/shim/gen/*.c')

    hdrs = []
    for root in [R, f'{V}/shim', f'{V}/sim']:
        for dp, dn, fn in os.walk(root):
            if os.path.relpath(dp, root).split(os.sep)[0] in ('build', '.git'):
                continue
            hdrs += [os.path.join(dp, f) for f in fn if f.endswith(('.h', '.hpp', '.inc'))]
    simh = digest([h for h in hdrs if h.startswith(f'{V}/sim')])
    reph = digest([h for h in hdrs if not h.startswith(f'{V}/sim')])

    jobs = []

    def job(src, tag, cmd, hh):
        rel = src.replace(os.sep, '_').lstrip('_')
        obj = os.path.join(out, tag + '_' + rel + '.o')
        key = hashlib.sha256((' '.join(cmd) + hh + digest([src])).encode()).hexdigest()
        jobs.append((cmd + ['-c', src, '-o', obj], obj, key))
        return obj

    lib = []
    for s in c_repo:
        lib.append(job(s, 'r', ['clang', '-std=gnu11'] + base + san + COV, reph))
    for s in cc_repo:
        lib.append(job(s, 'r', ['clang++', '-std=c++14'] + base + san + COV, reph))
    for s in c_shim:
        lib.append(job(s, 's', ['clang', '-std=gnu11'] + base + san, reph))
    tsan_objs = []
    if 'timetruth' in harnesses:
        s = f'{R}/gnss_converters/src/time_truth.c'
        # compiled for instrumentation only: every memory access becomes a call
        # into the simulator's scheduler (no ThreadSanitizer runtime is linked)
        tsan_objs.append(job(s, 't', ['clang', '-std=gnu11', '-fsanitize=thread', '-Dpthread_mutex_lock=sim_mutex_lock', '-Dpthread_mutex_unlock=sim_mutex_unlock',
                         '-Dpthread_mutex_init=sim_mutex_init', '-Dsched_yield=sim_sched_yield'] + base, reph))
        for s in c_shim:
            if s.endswith('swiftnav.c'):
                tsan_objs.append(job(s, 'tp', ['clang', '-std=gnu11'] + base, reph))
    progs = []
    if 'prog' in harnesses:
        # the programs around the converters, their main functions renamed
        for t in ['rtcm3tosbp', 'ubx2sbp', 'ixcom2sbp', 'sbp2rtcm']:
            progs += [job(s, 'p', ['clang', '-std=gnu11', f'-Dmain={t}_program'] + base + san + COV, reph) for s in sorted(glob.glob(f'{R}/{t}/src/*_main.c'))]
        progs += [job(s, 'p', ['clang++', '-std=c++14', '-Dmain=nov2sbp_program'] + base + san + COV, reph) for s in sorted(glob.glob(f'{R}/nov2sbp/src/*_main.cc'))]
    hobj = {}
    for h in harnesses:
        hobj[h] = []
        # 'verif' is every h_*.cc harness in one binary
        own = sorted(glob.glob(f'{V}/sim/h_*.cc')) + [f'{V}/sim/{h}.cc'] if h in ('verif', 'prog') else [f'{V}/sim/{h}.cc']
        names = own + [f'{V}/sim/core.cc']
        for s in names:
            f = ['clang++', '-std=c++17'] + [x for x in base if not x.startswith('-ftrivial')]
            tag = 'hn' if h == 'timetruth' else 'h'
            f = f + ([] if h == 'timetruth' else ['-fsanitize=memory', f'-fsanitize-ignorelist={V}/sim/msan_ignore.txt'] if msan else ['-fsanitize=address'])
            hobj[h].append(job(s, tag, f, simh + reph))

    def run(j):
        cmd, obj, key = j
        kf = obj + '.key'
        try:
            if os.path.exists(obj) and open(kf).read() == key:
                return 0, '', False
        except OSError:
            pass
        rc, txt = sh(cmd)
        if rc == 0:
            with open(kf, 'w') as f:
                f.write(key)
        return rc, txt, True

    seen, uj = set(), []
    for j in jobs:
        if j[1] not in seen:
            seen.add(j[1])
            uj.append(j)
    fail = False
    changed = 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for (cmd, obj, key), (rc, txt, did) in zip(uj, ex.map(run, uj)):
            changed += did
            if rc:
                fail = True
                print('BUILD FAILED:', ' '.join(cmd), file=sys.stderr)
                print(txt[:4000], file=sys.stderr)
    if fail:
        return 2
    ar = os.path.join(out, 'libsut.a')
    if os.path.exists(ar):
        os.unlink(ar)
    rc, txt = sh(['ar', 'rcs', ar] + lib)
    if rc:
        print(txt, file=sys.stderr)
        return 2
    if progs:
        rs = rust(repo, os.path.join(out, 'rust'))
        if not rs:
            return 2
        progs.append(rs)
    for h in harnesses:
        exe = os.path.join(out, h)
        if h == 'timetruth':
            cmd = ['clang++', '-o', exe] + hobj[h] + tsan_objs + ['-lm']
        else:
            cmd = ['clang++'] + (['-fsanitize=memory'] if msan else ['-fsanitize=address', '-fsanitize=undefined']) + ['-Wl,--wrap=malloc', '-Wl,--wrap=time', '-o', exe] + hobj[h] + (['-Wl,--wrap=read', '-Wl,--wrap=write'] + progs if h == 'prog' else []) + [ar, '-lm', '-lpthread', '-ldl']
        rc, txt = sh(cmd)
        if rc:
            print('LINK FAILED:', h, txt[:6000], file=sys.stderr)
            return 2
    if not quiet:
        print(f'built {variant}: {", ".join(harnesses)} ({changed} objects compiled)')
    return 0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--variant', default='pattern')
    ap.add_argument('harness', nargs='+')
    a = ap.parse_args()
    sys.exit(build(a.repo, a.variant, a.harness))

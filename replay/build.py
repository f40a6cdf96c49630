"""Builds the replay harness from /repo's current sources (sanitized)."""
import os, sys, subprocess, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dv'))
import front
HERE = os.path.dirname(os.path.abspath(__file__))

LIB = ['src/serial/842_compress.c', 'src/serial/842_decompress.c', 'src/serial_optimized/842_compress.cpp',
       'src/serial_optimized/842_decompress.cpp', 'src/serial_optimized/bitstream.cpp']
STREAM = ['src/stream/DataCompressionStream.cpp', 'src/stream/DataDecompressionStream.cpp', 'src/stream/numa_spread.cpp']
SAN = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-w']

ENV = ['open', 'open64', 'fcntl', 'fcntl64', 'close', 'ioctl', 'access', 'call_once', 'pthread_once', 'tss_create', 'tss_set', 'tss_get', 'pthread_key_create', 'pthread_setspecific', 'pthread_getspecific']

def extra_sources(dirs, known):
    """source files of the same directories that are not listed above (helpers split out of them)"""
    r = []
    for d in dirs:
        p = os.path.join(front.REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith(('.c', '.cpp')) and d + '/' + f not in known: r.append(d + '/' + f)
    return r

def build(mode, outdir):
    inc = front.includes() + ['-I' + HERE]
    srcs = LIB + extra_sources(['src/serial', 'src/serial_optimized', 'src/common'], LIB)
    defs = []
    if mode in ('strdec', 'strcomp'):
        srcs += STREAM; defs += ['-DWITH_STREAM']
    if mode in ('thr', 'thrt'):
        srcs += STREAM; defs += ['-DWITH_THREADS']
    if mode == 'cl': defs += ['-DWITH_CL']
    san, lsan = SAN, '-fsanitize=address,bounds'
    if mode in ('hw', 'hw0'): defs += ['-DWITH_HW']
    if mode in ('conc', 'thrt'):
        san = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-w']; lsan = '-fsanitize=thread'
    jobs = []
    for s in srcs:
        cxx = s.endswith('.cpp')
        o = os.path.join(outdir, s.replace('/', '_') + '.o')
        rn = not s.startswith('src/stream')
        jobs.append(([('clang++-18' if cxx else 'clang-18'), '-std=gnu++17' if cxx else '-std=gnu11', '-c', os.path.join(front.REPO, s), '-o', o] + san + inc, o, s, rn))
    o = os.path.join(outdir, 'harness.o')
    jobs.append((['clang++-18', '-std=gnu++17', '-c', os.path.join(HERE, 'harness.cpp'), '-o', o] + defs + san + inc, o, 'harness.cpp', False))
    if mode == 'cl':
        o = os.path.join(outdir, 'kernel.o'); k = os.path.join(outdir, 'kernel.cl')
        open(k, 'w').write(front.CL_PRE + front.cl_source())
        jobs.append((['clang-18'] + front.CL_FLAGS + ['-c', k, '-o', o] + SAN, o, 'src/ocl/decompress.cl', False))
    if mode in ('hw', 'hw0'):
        o = os.path.join(outdir, 'hw.o')
        stub = ['-I' + os.path.join(HERE, '..', 'dv', 'stub'), '-DLIB842_HAVE_CRYPTODEV_LINUX_COMP'] + (['-DVERIF_NO_SESSINFO'] if mode == 'hw0' else [])
        defs += stub
        jobs[-1] = (jobs[-1][0] + stub,) + jobs[-1][1:]
        jobs.append((['clang-18', '-std=gnu11', '-c', os.path.join(front.REPO, front.HW_SRC), '-o', o, '-Dstatic_assert=_Static_assert'] + SAN + inc + stub, o, front.HW_SRC, 'hw'))
    def go(j):
        r = subprocess.run(j[0], capture_output=True, text=True)
        if r.returncode == 0 and j[3]:      # the library's heap memory comes from the harness
            r = subprocess.run(['objcopy'] + [x for n in ('malloc', 'calloc', 'free') for x in ('--redefine-sym', '%s=h_%s' % (n, n))] + [j[1]], capture_output=True, text=True)
        if r.returncode == 0 and mode in ('thr', 'thrt') and j[2].startswith('src/stream'):     # the schedule is disturbed there
            r = subprocess.run(['objcopy', '--redefine-sym', 'pthread_mutex_lock=h_pthread_mutex_lock', '--redefine-sym', 'pthread_mutex_unlock=h_pthread_mutex_unlock', j[1]], capture_output=True, text=True)
        if r.returncode == 0 and j[3] == 'hw':      # the environment of the backend comes from the harness, its variables can be reset
            r = subprocess.run(['objcopy'] + [x for n in ENV for x in ('--redefine-sym', '%s=h_%s' % (n, n))] +
                               ['--rename-section', '.bss=hwbss,alloc,load,data,contents', '--rename-section', '.data=hwdata,alloc,load,data,contents', j[1]], capture_output=True, text=True)
        return r.returncode, r.stderr, j
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, err, j in ex.map(go, jobs):
            if rc: raise RuntimeError('cannot build %s: %s' % (j[2], err[-2000:]))
            objs.append(j[1])
    exe = os.path.join(outdir, 'harness')
    r = subprocess.run(['clang++-18', lsan, '-o', exe] + objs + ['-lpthread', '-ldl'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('cannot link: ' + r.stderr[-2000:])
    return exe

if __name__ == '__main__':
    os.makedirs(sys.argv[2], exist_ok=True)
    print(build(sys.argv[1], sys.argv[2]))

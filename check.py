#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current source.

1. dv/targets.py generates and discharges the proof obligations.
2. A failed obligation is replayed: replay/harness runs the real code (with
   sanitizers) on generated inputs until one shows the violation.
3. Code the verifier cannot bring in reach is checked by the same harness,
   bounded, and labelled so in the evidence.
"""
import sys, os, json, time, subprocess, shutil, tempfile, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/dv'); sys.path.insert(0, HERE + '/replay')

ALWAYS = ['inv', 'pointer', 'unreachable', 'contract']
# property -> proof targets, kinds of obligations that decide it, (replay mode, violation classes)
PROPS = {
    'C01': (['swdec'], ['func', 'olen'], [('swdec', 'func,olen,hang')]),
    'C02': (['optdec'], ['func', 'olen'], [('optdec', 'func,olen,hang')]),
    'C03': (['swdec', 'optdec'], ['memory', 'align', 'shift', 'div', 'frame', 'heap', 'termination'], [('swdec', 'memory,hang'), ('optdec', 'memory,hang')]),
    'C04': (['swdec', 'optdec'], ['errlen', 'enospc', 'bounds', 'olen'], [('swdec', 'errlen,enospc,bounds,olen'), ('optdec', 'errlen,enospc,bounds,olen')]),
    'C06': (['optenc'], ['func'], [('optenc', 'func')]),
    'C05': (['swenc'], ['func'], [('swenc', 'func')]),
    'C07': (['swenc', 'optenc'], ['memory', 'align', 'shift', 'div', 'frame', 'heap', 'termination'], [('swenc', 'memory,leak,hang'), ('optenc', 'memory,leak,hang')]),
    'C08': (['swenc', 'optenc'], ['std', 'size'], [('swenc', 'std,size'), ('optenc', 'std,size')]),
    'C09': (['swenc', 'optenc'], ['enospc', 'errlen', 'bounds', 'olen'], [('swenc', 'enospc,errlen,bounds'), ('optenc', 'enospc,errlen,bounds')]),
    'C10': (['crc'], ['func', 'memory', 'align', 'shift', 'div'], [('crc', 'func,memory')]),
    'C11': (['chunked'], ['func', 'memory', 'align', 'frame', 'heap'], [('chunked', 'func,memory')]),
    'C12': (['crc', 'chunked', 'align', 'optenc', 'swenc', 'swdec', 'optdec'], ['state', 'frame'], [('conc', 'state'), ('swdec', 'state'), ('optdec', 'state'), ('swenc', 'state'), ('optenc', 'state')]),
    'C16': (['cl'], ['func', 'olen', 'memory', 'align', 'shift', 'div', 'frame', 'heap', 'termination', 'errlen', 'enospc', 'bounds'], [('cl', 'func,memory,olen,errlen,enospc,bounds,hang')]),
    'C14': (['strdec'], ['func', 'memory', 'align', 'shift', 'div', 'frame', 'heap', 'state'], [('strdec', 'func,memory,hang')]),
    'C15': (['strcomp'], ['func', 'memory', 'align', 'shift', 'div', 'frame', 'heap', 'state'], [('strcomp', 'func,memory,hang')]),
    'C17': (['hw'], ['func', 'memory', 'align', 'shift', 'div', 'frame', 'heap', 'state'], [('hw', 'func,memory,hang'), ('hw0', 'func,memory,hang')]),
    'C18': (['threads'], ['thread', 'race', 'func', 'memory', 'align', 'shift', 'div', 'frame', 'heap', 'state'], [('thr', 'func,memory,hang'), ('thrt', 'state,func,hang')]),
    'C13': (['align'], ['func', 'memory', 'align', 'frame', 'heap'], [('align', 'func,memory')]),
}
TRUST = ['verifier: dv/*.py (IR reader, path executor, term simplifier; models found by the solver are re-evaluated in Python)',
         'clang-18 -O0-level lowering plus opt sroa/simplifycfg', 'z3 (python binding)', 'dv/spec842.py: the statement of the 842 format']

TECH = {'': 'contract-based deductive verification: loop invariants and function contracts on the LLVM IR clang makes from the current source, obligations discharged by syntactic linear reasoning and z3; failures replayed on the real code'}
_B = ' Trusted: clang-18 front end with sroa/simplifycfg (the IR that is verified is rebuilt from /repo on every run), the verifier dv/*.py, z3. '
NOTES = {
    'C01': 'Unbounded proof: one arbitrary step of the decoding loop against the format (dv/spec842.py) for every template, bit phase and output position, plus loop entry and exit; the bit reader is verified against its own contract.' + _B + 'The CRC function is a contract (result = CRC of the range), decided by C10.',
    'C02': 'Unbounded proof: one arbitrary step of the decoding loop against the format for every template, each of the 64 fill levels and every output position, plus entry and exit.' + _B + 'The CRC function is a contract (decided by C10); the unaligned fallback is C13.',
    'C03': 'Unbounded proof: every load and store of both decoders lies inside the stated buffers, no undefined shift, and each loop step consumes input (variant).' + _B + 'crc32_be reads exactly its range by contract (C10).',
    'C04': 'Unbounded proof on every return path of both decoders from an arbitrary loop state.' + _B,
}
NOTES.update({
    'C10': 'Unbounded proof for every length, content and start alignment: checksum loop invariant over the bitwise CRC state; each step is an identity of GF(2)-affine forms decided by comparing normal forms, all table entries checked for affinity; every read inside the buffer. The contract covers crc == 0, the only value callers pass (checked where they are verified).' + _B,
    'C11': 'Unbounded proof: loop invariant over the chunk index with 64-bit wrapping offsets (products distributed over sums), callee replaced by an arbitrary-result contract.' + _B,
    'C13': 'Unbounded in content, lengths and capacity, exhaustive over the 63 unaligned pairs of start addresses: exactly one call of the portable function with the same arguments, its result returned, no access to either buffer.' + _B,
})
NOTES['C06'] = 'Unbounded proof: loop invariant over (blocks consumed, pending repeats) with the hash tables and ring buffers as arbitrary contents constrained by their invariant; one arbitrary block is compressed and the emitted bits are decoded by the format (dv/spec842.py) to exactly that block, plus entry, exit (repeat, end, CRC-32 of the whole input, flush) and the bit writer against its own contract for all 64 fill levels and all widths.' + _B + 'Assumes malloc succeeds; the CRC function is a contract (decided by C10).'
LEVEL = {}
NOTES['C12'] = 'Unbounded proof over the same obligations as C01-C13: no store reaches an object other than the call\'s own buffers and allocations, no load reaches a global that anything writes, and no branch, emitted bit, table entry, key or result depends on a value nobody wrote (uninitialised memory, unset variables, ring slots before their first use), tracked through the loop invariants; together with the functional proofs the result is a function of the arguments.' + _B + 'Assumes malloc/free and stdio are thread-safe and uthash/utlist results are functions of the operations performed.'
_SW = 'Portable compressor: unbounded proof, loop invariant over (blocks consumed, pending repeats, bits emitted) and over its three hash tables (present(i) => key(i) == ring entry i and the format ring holds that data), the bit writer against its own contract for all 8 x 64 (offset, width) pairs. '
_OPT = 'Optimized compressor: unbounded proof, one arbitrary block from an arbitrary loop state, entry, exit and the bit writer against its own contract (see C06). '
_SWA = ' Assumes malloc succeeds and that the uthash/utlist macros behave as documented (contract-level stand-in headers dv/stub over ghost tables; the replay harness runs the real headers); the CRC function is a contract (C10).'
NOTES['C05'] = _SW + 'Emitted bits are decoded by the format (dv/spec842.py) to exactly the consumed blocks.' + _B + _SWA
NOTES['C07'] = _SW + _OPT + 'Every load and store inside its buffer, every allocation released on every return, no undefined shift, termination variant.' + _B + _SWA
NOTES['C08'] = _SW + _OPT + 'Only template codes of the standard (0..25, repeat, short data, zeros, end), padding zero, at most 69 bits per block.' + _B + _SWA
NOTES['C09'] = _SW + _OPT + 'Every return: -ENOSPC iff the writer did not fit, *olen 0 on error and the exact size otherwise, no store beyond the capacity.' + _B + _SWA
NOTES['C16'] = 'Unbounded proof of the kernel text (842.h + decompress.cl, the program the library builds) compiled by clang as OpenCL C: one arbitrary step of the decoding loop against the format for every template and each of the 64 fill levels, with the six look-ahead words in the invariant, entry, exit, and the kernel entry (chunk selection, offsets, lengths, results) for arbitrary chunk sizes and strides.' + _B + 'Covers the plain input format; the OpenCL compiler, address spaces and the host code are not covered.'
NOTES['C14'] = 'Proof of the block handler for every block: the loops have the constant 16 of the code and are explored completely with states merged at loop heads; the implementation behind the function pointer is a contract (any result, any per-chunk results).' + _B + 'The worker threads around the handler are cross-checked on the real stream (bounded), not proved.'
NOTES['C15'] = 'Proof of the block handler for every per-chunk outcome, then of Block::get_chunk and the destructor on the block it returns; the loops have the constant 16 of the code and are explored completely with states merged at loop heads.' + _B + 'The worker threads around the handler are cross-checked on the real stream (bounded), not proved.'
NOTES['C17'] = 'Proof of the four entry points from the first call in a thread (key, context, session) and from a later one, for every outcome of the system calls, all lengths, strides and buffer addresses, all 17 alignment masks, every chunk count up to the limit of the device and any above; the loops have that constant bound and are explored completely.' + _B + 'The header of the kernel module is not available here: dv/stub/crypto/cryptodev.h stands in for it with a limit of 16 chunks, and the device is a contract. This source is not part of the default build.'
NOTES['C18'] = 'Rely-guarantee proof, thread by thread: between two of its own steps under the mutex a thread sees everything the mutex guards as arbitrary within the invariant; loops by inferred abstractions closed under an arbitrary iteration, so any number of threads, blocks, epochs and operations; the epoch size is a symbolic power of two. The interface functions, barrier and latch are proved over arbitrary states of their monitors.' + _B + 'That the parts compose (all threads take part in an operation, every wait has a waker) is argued on paper in DESIGN.md; constructor and destructor are unrolled for stated thread counts; the thread primitives are contracts. Cross-checked on the real streams under the address and thread sanitizers.'
NA = {}

def log(*a): print(*a, flush=True)

def run(cmd, secs, **kw):
    """with everything it started ended at the limit"""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        p.wait(timeout=secs)
        return p.returncode
    except subprocess.TimeoutExpired:
        return None
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    targets, kinds, modes = PROPS[pid]
    kinds = kinds + ALWAYS
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='check842.')
    procs = min(8, os.cpu_count() or 8)
    try:
        # ---- 1. proof
        secs = 480 if tier == 'quick' else 3000
        out = tmp + '/proof.json'
        err = open(tmp + '/proof.err', 'w')
        env = dict(os.environ)
        if tier != 'quick': env['DV_CROSS'] = '1'
        py = shutil.which('python3-vt') or 'python3'
        run([py, HERE + '/dv/targets.py', out, str(secs), tier] + targets, secs + 40, stderr=err, stdout=err, env=env)
        err.close()
        try: rs = json.load(open(out))
        except Exception: rs = []
        byk = {r['key']: r for r in rs}
        fails = []; other = []; unsup = []
        for t in targets:
            r = byk.get(t)
            if r is None:
                unsup.append('%s: the verifier did not finish' % t); continue
            unsup += ['%s: %s' % (t, u) for u in r['unsupported']]
            if r.get('stopped'): unsup.append('%s: %s' % (t, r['stopped']))
            for f in r['fails']:
                (fails if f[0] in kinds else other).append([t] + f)
        proved = not fails and not unsup and not other
        obl = sum(r['obligations'] for r in rs)
        log('%s: %d obligations, %d failed (%d of other properties), %d undecided, %.0f s' % (pid, obl, len(fails), len(other), len(unsup), time.time() - t0))
        for f in fails[:8]: log('  FAILED %s: %s obligation: %s [%s]' % (f[0], f[1], f[2], f[3]))
        for u in unsup[:5]: log('  UNDECIDED ' + u.replace('\n', ' ')[:300])
        # ---- 2./3. replay on the real code
        if fails: per = 100
        elif unsup or other: per = 90
        else: per = {'s': 30, 't': 24}.get(modes[0][0][:1] if modes[0][0][:3] in ('str', 'thr') else '', 8)
        if tier != 'quick': per *= 5
        per = per / len(modes)
        found = None; cases = 0; herr = None
        import build
        for mode, classes in modes:
            try:
                d = tmp + '/h_' + mode
                os.makedirs(d)
                exe = build.build(mode, d)
                ho = d + '/out'
                rc = run([exe, mode, str(seed), str(per), str(procs), ho, classes], per + 60,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:symbolize=1:abort_on_error=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', ASAN_SYMBOLIZER_PATH=shutil.which('llvm-symbolizer-18') or ''))
                txt = open(ho).read() if os.path.exists(ho) else ''
                if rc == 1: found = (mode, txt); break
                if rc == 0 and txt.startswith('cases'): cases += int(txt.split()[1])
                else: herr = 'replay harness %s ended with %s' % (mode, rc)
            except RuntimeError as e:
                herr = str(e)
        if herr: log('  replay: ' + herr[:500])
        viol = None
        if found or fails:
            rd = HERE + '/replays'
            os.makedirs(rd, exist_ok=True)
            rp = '%s/%s.txt' % (rd, pid)
            with open(rp, 'w') as f:
                f.write('property %s\n' % pid)
                if fails:
                    f.write('\nfailed obligations (dv/targets.py %s):\n' % ' '.join(targets))
                    for x in fails[:40]: f.write('  %s: %s: %s [%s]%s\n' % (x[0], x[1], x[2], x[3], ' (solver model)' if x[4] else ''))
                if found:
                    f.write('\nfailing input (harness %s, built from /repo by replay/build.py; repeat: harness %s SEED only INDEX OUT):\n%s' % (found[0], found[0], found[1]))
                else:
                    f.write('\nno failing input found in %d replayed cases\n' % cases)
            viol = 'VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(rp, HERE), '' if found else ' no-failing-input-found')
        for l in known(pid): log('KNOWN-FINDING: property=%s %s' % (pid, l))
        # ---- evidence
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
              'assumptions': sorted({a for r in rs for a in r['assumptions']})}
        if unsup or not rs:
            ev['level'] = 'exploration'
            ev['coverage'] = {'evaluations': cases, 'distinct_nontrivial': cases, 'rule': 'bounded stand-in: generated streams/data (replay/harness.cpp, modes %s) run against the reference; each case has a different generator seed' % [m for m, _ in modes],
                              'samples': [{'mode': m, 'seed': seed, 'index': 0} for m, _ in modes], 'bounded_because': unsup[:20], 'obligations': obl}
        else:
            ev['level'] = 'proof'
            ev['coverage'] = {'obligations': obl, 'discharged': obl - sum(len(r['fails']) for r in rs),
                              'discharged_by': {'syntactic (linear facts of the path)': sum(r['syntactic'] for r in rs), 'z3 linear integer arithmetic': sum(r['lia'] for r in rs), 'z3 queries in all': sum(r['queries'] for r in rs)},
                              'checker_cmd': 'python3-vt dv/targets.py OUT %d %s %s' % (secs, tier, ' '.join(targets)), 'trusted_base': TRUST,
                              'deciding_kinds': kinds,
                              'targets': [{k: r.get(k) for k in ('target', 'functions', 'contracts', 'kinds', 'cases', 'paths', 'obligations', 'queries', 'solver_s', 'cpu_s', 'wall_s', 'invariants', 'bounded')} for r in rs],
                              'cross_check': {'executions of the real code against the reference': cases, 'found': bool(found)}}
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
        if viol:
            log(viol)
            return 1
        log('%s: held%s, %.0f s' % (pid, '' if proved else ' (bounded)' if unsup else ' (obligations of other properties failed)', time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def known(pid):
    r = []
    try:
        for l in open(HERE + '/known-findings.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): r.append(l.split(' ', 2)[2])
    except OSError: pass
    return r

if __name__ == '__main__':
    try: rc = main()
    except KeyboardInterrupt: rc = 2
    sys.exit(rc)

"""Front end: /repo's current sources -> LLVM IR modules (every run).

clang runs with every optimisation disabled; opt then only builds SSA form
(sroa) and removes empty blocks (simplifycfg).  What the extraction drops is
stated in DESIGN.md (debug builds, -DNDEBUG builds, other targets)."""
import os, subprocess, tempfile, shutil, atexit
import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
_tmp = None

def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='dv842.')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
        shim(_tmp)
    return _tmp

def shim(d):
    os.makedirs(d + '/shim/uthash/src', exist_ok=True)
    for h in ('uthash.h', 'utlist.h'):
        p = d + '/shim/uthash/src/' + h
        if not os.path.lexists(p): os.symlink('/usr/include/' + h, p)
    os.makedirs(d + '/include/lib842', exist_ok=True)
    try:
        txt = open(REPO + '/include/lib842/config.h.in').read()
    except OSError:
        txt = ''
    have = {'LIB842_HAVE_OPENCL'}
    out = []
    for l in txt.splitlines():
        if l.startswith('#cmakedefine'):
            n = l.split()[1]
            out.append('#define ' + n if n in have else '/* #undef %s */' % n)
        else: out.append(l)
    open(d + '/include/lib842/config.h', 'w').write('\n'.join(out) + '\n')

def includes(extra=()):
    d = tmpdir()
    r = []
    for x in extra: r += ['-I' + x]
    return r + ['-I%s/include' % REPO, '-I%s/include' % d, '-I%s/shim' % d, '-I%s/src' % REPO]

class FrontError(Exception):
    pass

def compile_ir(src, extra_inc=(), defs=(), flags=()):
    """source path -> (IR text)"""
    d = tmpdir()
    cxx = src.endswith(('.cpp', '.cc'))
    n = os.path.basename(src).replace('.', '_') + '_%d' % (hash((src, tuple(defs), tuple(extra_inc))) & 0xffffff)
    a = os.path.join(d, n + '.0.ll'); b = os.path.join(d, n + '.ll')
    cmd = ['clang++-18' if cxx else 'clang-18', '-std=gnu++17' if cxx else '-std=gnu11', '-S', '-emit-llvm', '-O1',
           '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-Wno-error'] + list(flags) + \
          ['-D' + x for x in defs] + includes(extra_inc) + [src, '-o', a]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise FrontError(' '.join(cmd) + '\n' + r.stderr)
    cmd = ['opt-18', '-S', '-passes=function(sroa,simplifycfg)', a, '-o', b]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise FrontError(' '.join(cmd) + '\n' + r.stderr)
    return open(b).read()

def cl_source():
    """the kernel as the library hands it to the OpenCL compiler: the 842
    definitions followed by the kernel text (src/ocl/cl842decompress.cpp)"""
    return open(REPO + '/src/common/842.h').read() + '\n' + open(REPO + '/src/ocl/decompress.cl').read()

CL_PRE = 'ulong verif_chunk_size(void); ulong verif_chunk_stride(void);\n'
CL_FLAGS = ['-x', 'cl', '-cl-std=CL1.2', '-Xclang', '-finclude-default-header', '-target', 'x86_64-pc-linux-gnu', '-w',
            '-DCL842_CHUNK_SIZE=verif_chunk_size()', '-DCL842_CHUNK_STRIDE=verif_chunk_stride()', '-DEINVAL=22', '-DENOSPC=28']

def cl_module(defs=()):
    """OpenCL C compiled by clang for this machine; the chunk size and stride,
    numbers in the library's build options, stay arbitrary values here"""
    d = tmpdir()
    k = os.path.join(d, 'kernel_%d' % (hash(tuple(defs)) & 0xffffff))
    open(k + '.cl', 'w').write(CL_PRE + cl_source())
    cmd = ['clang-18'] + CL_FLAGS + ['-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names'] + ['-D' + x for x in defs] + [k + '.cl', '-o', k + '.0.ll']
    for c in (cmd, ['opt-18', '-S', '-passes=function(sroa,simplifycfg)', k + '.0.ll', '-o', k + '.ll']):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode: raise FrontError(' '.join(c) + '\n' + r.stderr)
    return ir.Module(open(k + '.ll').read(), 'src/ocl/decompress.cl')

STREAM_PRE = """
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <climits>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <ostream>
#include <queue>
#include <stdexcept>
#include <thread>
#include <utility>
#include <vector>
#include <stdlib.h>
#define private public
#include "%s"
#undef private
using namespace lib842::stream;
extern "C" {
size_t verif_off_compress_chunked() { return offsetof(lib842_implementation, compress_chunked); }
size_t verif_off_decompress_chunked() { return offsetof(lib842_implementation, decompress_chunked); }
size_t verif_off_compress() { return offsetof(lib842_implementation, compress); }
size_t verif_off_decompress() { return offsetof(lib842_implementation, decompress); }
size_t verif_off_required() { return offsetof(lib842_implementation, required_alignment); }
size_t verif_off_preferred() { return offsetof(lib842_implementation, preferred_alignment); }
void verif_block_init(Block *b) { new (b) Block; }
size_t *verif_block_size(Block *b, size_t i) { return &b->sizes[i]; }
size_t *verif_block_offset(Block *b) { return &b->offset; }
size_t *verif_block_padding(Block *b) { return &b->chunk_padding; }
const void **verif_block_source(Block *b) { return &b->source; }
uint8_t *verif_block_alloc(Block *b, size_t a, size_t p) { return b->allocate_buffer(a, p); }
const uint8_t *verif_block_chunk(const Block *b, size_t i) { return b->get_chunk(i); }
void verif_block_done(Block *b) { b->~Block(); }
size_t verif_sizeof_block() { return sizeof(Block); }
const void *verif_impl(const STREAM *s) { return &s->_impl842; }
const void *verif_ptr(const STREAM *s) { return &s->_ptr; }
size_t verif_sizeof_stream() { return sizeof(STREAM); }
}
"""
STREAM_KIND = {
    'decomp': ('src/stream/DataDecompressionStream.cpp', 'DataDecompressionStream', """
extern "C" bool verif_handle(const STREAM *s, const Block *b) { STREAM::stats_per_thread_t st; return s->handle_block(*b, st); }
"""),
    'comp': ('src/stream/DataCompressionStream.cpp', 'DataCompressionStream', """
extern "C" void verif_handle(const STREAM *s, Block *r, size_t offset) { STREAM::stats_per_thread_t st; new (r) Block(s->handle_block(offset, st)); }
"""),
}
def stream_module(kind):
    """a stream source with access to its private members (the source itself is
    included, not copied)"""
    src, cls, tail = STREAM_KIND[kind]
    p = os.path.join(tmpdir(), 'stream_%s.cpp' % kind)
    open(p, 'w').write('#define STREAM lib842::stream::%s\n' % cls + STREAM_PRE % (REPO + '/' + src) + tail)
    return ir.Module(compile_ir(p), src)

THREAD_FIELDS = {'common': '_mutex _trigger _trigger_changed _error _finalizing _finalize_callback _finalize_barrier _quit _ptr _threads _threads_ready _error_logger _debug_logger',
                 'decomp': '_queue _queue_available', 'comp': '_size _current_offset _block_available_callback _offset_sync_epoch_multiple_log2'}
THREAD_TAIL = {'common': """
#define OFF(n) extern "C" size_t verif_off##n() { return offsetof(STREAM, n); } extern "C" size_t verif_size##n() { return sizeof(STREAM::n); }
#define BOFF(n) extern "C" size_t verif_barrier##n() { return offsetof(lib842::detail::barrier, n); }
BOFF(_mutex) BOFF(_cv) BOFF(_num_threads) BOFF(_count) BOFF(_generation) BOFF(_interrupted)
#define LOFF(n) extern "C" size_t verif_latch##n() { return offsetof(lib842::detail::latch, n); }
LOFF(_mutex) LOFF(_cv) LOFF(_value)
extern "C" {
void verif_loop(STREAM *s, size_t id) { s->LOOP(id); }
void verif_ctor(STREAM *s, const lib842_implementation &i, unsigned n, std::function<std::ostream&(void)> *e, std::function<std::ostream&(void)> *d) { new (s) STREAM(i, n, thread_policy::use_defaults, *e, *d); }
using S_ = STREAM;
void verif_dtor(STREAM *s) { s->~S_(); }
void verif_ready(STREAM *s) { s->wait_until_ready(); }
void verif_finalize(STREAM *s, bool c, std::function<void(bool)> *f) { s->finalize(c, std::move(*f)); }
void verif_arrive(lib842::detail::barrier *b) { b->arrive_and_wait(); }
void verif_interrupt(lib842::detail::barrier *b) { b->interrupt(); }
void verif_latch_down(lib842::detail::latch *b) { b->count_down(); }
void verif_latch_wait(lib842::detail::latch *b) { b->wait(); }
size_t verif_block_size_const() { return BLOCK_SIZE; }
}
""", 'decomp': """
extern "C" bool verif_push(STREAM *s, Block *b) { return s->push_block(std::move(*b)); }
extern "C" void verif_start(STREAM *s, void *p) { s->start(p); }
""", 'comp': """
extern "C" void verif_start(STREAM *s, const void *p, size_t n, std::function<void(Block &&)> *f) { s->start(p, n, std::move(*f)); }
extern "C" void verif_epoch(STREAM *s, size_t n) { s->set_offset_sync_epoch_multiple(n); }
"""}
def thread_module(kind):
    """the same source with access to the fields the threads share"""
    src, cls, tail = STREAM_KIND[kind]
    p = os.path.join(tmpdir(), 'thread_%s.cpp' % kind)
    fs = (THREAD_FIELDS['common'] + ' ' + THREAD_FIELDS[kind]).split()
    loop = {'decomp': 'loop_decompress_thread', 'comp': 'loop_compress_thread'}[kind]
    open(p, 'w').write('#define STREAM lib842::stream::%s\n#define LOOP %s\n' % (cls, loop) + STREAM_PRE % (REPO + '/' + src) + tail + THREAD_TAIL['common'] + ''.join('OFF(%s)\n' % f for f in fs) + THREAD_TAIL[kind])
    return ir.Module(compile_ir(p), src), fs

HW_TAIL = """
#include <stddef.h>
#define OFF(s, f) size_t verif_off_##s##_##f(void) { return offsetof(struct s, f); }
OFF(session_op, compr) OFF(session_op, ses) OFF(session_info_op, ses) OFF(session_info_op, alignmask) OFF(session_info_op, flags)
OFF(crypt_op, ses) OFF(crypt_op, op) OFF(crypt_op, flags) OFF(crypt_op, len) OFF(crypt_op, dlen) OFF(crypt_op, src) OFF(crypt_op, dst)
OFF(crypt_op, numchunks) OFF(crypt_op, chunklens) OFF(crypt_op, chunkdlens) OFF(crypt_op, chunkrets)
#define CONST(n) size_t verif_##n(void) { return n; }
#ifndef CIOCGSESSINFO
#define CIOCGSESSINFO 0
#endif
CONST(CIOCGSESSION) CONST(CIOCFSESSION) CONST(CIOCCRYPT) CONST(CIOCGSESSINFO) CONST(CRYPTO_842) CONST(COP_ENCRYPT) CONST(COP_DECRYPT) CONST(CRYPTODEV_COMP_MAX_CHUNKS)
"""
HW_SRC = 'src/cryptodev/842_interface.c'
def hw_module(defs=()):
    """the kernel-crypto backend (the source itself is included) against a
    stand-in for the header of the kernel module"""
    p = os.path.join(tmpdir(), 'hw%d.c' % len(defs))
    open(p, 'w').write('#include "%s/%s"\n' % (REPO, HW_SRC) + HW_TAIL)
    return ir.Module(compile_ir(p, extra_inc=(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub'), REPO + '/src/cryptodev'), defs=('LIB842_HAVE_CRYPTODEV_LINUX_COMP',) + tuple(defs)), HW_SRC)

def module(src, **kw):
    if not src.startswith('/'): src = REPO + '/' + src
    return ir.Module(compile_ir(src, **kw), os.path.relpath(src, REPO))

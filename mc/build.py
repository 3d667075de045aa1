"""Builds the checker and one shared object per library variant from /repo's working tree."""
import os, sys, re, shutil, subprocess, hashlib, glob, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('OSHMC_REPO', '/repo')
ROOT = os.path.join(VERIF, '.build')

class BuildError(Exception):
    pass

BASE_DEFS = '''
HAVE_ATEXIT 1|HAVE_ATOL 1|HAVE_DLFCN_H 1|HAVE_FCNTL_H 1|HAVE_GCC_ATTRIBUTE 1|HAVE_INTTYPES_H 1|HAVE_MATH_H 1|HAVE_MEMCPY 1
HAVE_MEMSET 1|HAVE_MPI_H 1|HAVE_MPI_IALLGATHER 1|HAVE_MPI_IALLGATHERV 1|HAVE_MPI_IALLREDUCE 1|HAVE_MPI_IALLTOALL 1
HAVE_MPI_IBARRIER 1|HAVE_MPI_IBCAST 1|HAVE_MULTIPLE_PRAGMA_WEAK 1|HAVE_PRAGMA_WEAK 1|HAVE_STDINT_H 1|HAVE_STDIO_H 1|HAVE_STDLIB_H 1
HAVE_STRINGS_H 1|HAVE_STRING_H 1|HAVE_STRTOF 1|HAVE_SYS_MMAN_H 1|HAVE_SYS_STAT_H 1|HAVE_SYS_TIME_H 1|HAVE_SYS_TYPES_H 1|HAVE_UNISTD_H 1
HAVE_WCHAR_H 1|HAVE_WEAK_ATTRIBUTE 1|OSHMPI_MPI_PTRDIFF_T MPI_INT64_T|OSHMPI_MPI_SIZE_T MPI_UINT64_T|PACKAGE "oshmpi"
SIZEOF_INT16_T 2|SIZEOF_INT32_T 4|SIZEOF_INT64_T 8|SIZEOF_INT8_T 1|SIZEOF_PTRDIFF_T 8|SIZEOF_SIZE_T 8|SIZEOF_UINT16_T 2|SIZEOF_UINT32_T 4
SIZEOF_UINT64_T 8|SIZEOF_UINT8_T 1|STDC_HEADERS 1|USE_LINUX 1|_GNU_SOURCE 1|USE_WEAK_SYMBOLS 1|VERSION "2.1a1"|restrict __restrict__
OSHMPI_ENABLE_SYMM_ALLOC 1
'''
# variant -> extra configuration defines (what configure would have produced for the given options)
T = 'OSHMPI_DISABLE_AM_ASYNC_THREAD 1|OSHMPI_ENABLE_OP_TRACKING 1|OSHMPI_ENABLE_STRIDED_DTYPE_CACHE 1|'
VARIANTS = {
    'base': T + 'OSHMPI_ENABLE_THREAD_SERIALIZED 1',                    # the tested configuration
    'big': T + 'OSHMPI_ENABLE_THREAD_SERIALIZED 1',                     # the same, with the scenarios that need large static data
    'memy': T + 'OSHMPI_ENABLE_THREAD_SERIALIZED 1',                    # the same, with a scheduling point at every plain access to symmetric memory
    'single': T + 'OSHMPI_ENABLE_THREAD_SINGLE 1',                      # --enable-threads=single
    'notrack': 'OSHMPI_DISABLE_AM_ASYNC_THREAD 1|OSHMPI_ENABLE_STRIDED_DTYPE_CACHE 1|OSHMPI_ENABLE_THREAD_SERIALIZED 1',
    'nocache': 'OSHMPI_DISABLE_AM_ASYNC_THREAD 1|OSHMPI_ENABLE_OP_TRACKING 1|OSHMPI_ENABLE_THREAD_SERIALIZED 1',
    'dynwin': T + 'OSHMPI_ENABLE_THREAD_SERIALIZED 1|OSHMPI_ENABLE_DYNAMIC_WIN 1',
    'fast': T + 'OSHMPI_ENABLE_THREAD_SERIALIZED 1|OSHMPI_ENABLE_FAST 1|OSHMPI_DISABLE_DEBUG 1',
    'mt': T + 'OSHMPI_ENABLE_THREAD_MULTIPLE 1|OSHMPI_THREAD_CS_LOCK OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX',
    'mtasync': 'OSHMPI_ENABLE_OP_TRACKING 1|OSHMPI_ENABLE_STRIDED_DTYPE_CACHE 1|OSHMPI_ENABLE_THREAD_MULTIPLE 1|OSHMPI_THREAD_CS_LOCK OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX',
}
WRAP = '''malloc calloc realloc free strdup posix_memalign aligned_alloc getenv sysconf getpagesize mmap munmap msync gettimeofday time atexit
abort exit __assert_fail usleep sched_yield pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_attr_init pthread_attr_destroy
pthread_attr_setdetachstate pthread_create pthread_join pthread_self'''.split()

TYPED = 'rma amo_std amo_ext amo_bitws coll reduce_minmax_aset reduce_sumprod_aset reduce_bitws_aset reduce_minmax_team reduce_sumprod_team reduce_bitws_team signal p2p'.split()
SIZED = 'rma signal'.split()

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ('src', 'include', 'maint'):
        for p, ds, ns in os.walk(os.path.join(REPO, d)):
            ds[:] = [x for x in ds if x not in ('.libs', '.deps', 'openpa')]
            for n in ns:
                if n.endswith(('.c', '.h', '.tpl', '.in', '.txt', '.pl', '.mk')):
                    fs.append(os.path.join(p, n))
    for d in (HERE, os.path.join(VERIF, 'scen')):
        for p, ds, ns in os.walk(d):
            fs += [os.path.join(p, n) for n in ns if n.endswith(('.c', '.h', '.cpp', '.py', '.in'))]
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def insert(key, add, text):
    out = []
    for l in text.splitlines(True):
        out.append(l)
        if key in l:
            out.append(add)
    return ''.join(out)

def codegen(dst):
    """private copy of the sources with the generated files regenerated from the templates, as autogen.sh does"""
    for d in ('src', 'include', 'maint'):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), ignore=shutil.ignore_patterns('.libs', '.deps', 'openpa', '*.o', '*.lo', '*.la'))
    sh = open(dst + '/include/shmem.h.in.tpl').read()
    jobs = []
    for kind, names, script, opt, suf in (('typed', TYPED, 'build_typed_api.pl', '--typefile', 'typedef'), ('sized', SIZED, 'build_sized_api.pl', '--sizefile', 'sizedef')):
        for n in names:
            t = 'maint/%s_%s.txt' % (n, suf)
            jobs.append(('h', n, kind, ['perl', 'maint/' + script, opt, t, '--tplfile', 'include/shmem_%s_%s.h.tpl' % (n, kind), '--outfile', 'include/shmem_%s_%s.h' % (n, kind)]))
            jobs.append(('c', n, kind, ['perl', 'maint/' + script, opt, t, '--tplfile', 'src/shmem/%s_%s.c.tpl' % (n, kind), '--outfile', 'src/shmem/%s_%s.c' % (n, kind)]))
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, j[3], dst) for j in jobs]:
            f.result()
    for w, n, kind, _ in jobs:
        if w == 'h':
            sh = insert('SHMEM_%s_%s_H start' % (n.upper(), kind.upper()), open(dst + '/include/shmem_%s_%s.h' % (n, kind)).read(), sh)
    for k, v in (('OSHMPI_VERSION', '2.1a1'), ('OSHMPI_NUMVERSION', '20100101'), ('OSHMPI_RELEASE_DATE', 'none'), ('CONFIGURE_ARGS_CLEAN', '')):
        sh = sh.replace('@%s@' % k, v)
    open(dst + '/include/shmem.h', 'w').write(sh)
    shutil.copy(dst + '/include/shmemx.h.in', dst + '/include/shmemx.h')

def sources(dst):
    r = []
    for f in glob.glob(dst + '/src/**/*.mk', recursive=True):
        for m in re.findall(r'(src/[\w/]+\.c)\b(?!\.)', open(f).read()):
            if m.endswith('/ze.c') or not os.path.exists(os.path.join(dst, m)):
                continue
            if m not in r:
                r.append(m)
    return sorted(r)

CFLAGS = '-O1 -g1 -fPIC -fno-strict-aliasing -mno-red-zone -ftrivial-auto-var-init=zero -fno-stack-protector -U_FORTIFY_SOURCE -w -fcommon'.split()

def build(variants, log=lambda s: None):
    """returns (mcmpi path, {variant: so path})"""
    key = tree_hash()
    bd = os.path.join(ROOT, key)
    os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, 'mcmpi')
    src = os.path.join(bd, 'tree')
    pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
    futs = []
    if not os.path.exists(exe):
        objs = []
        def cxx(f):
            o = os.path.join(bd, os.path.basename(f) + '.o')
            run(['g++', '-std=c++17', '-O2', '-g1', '-w', '-fno-strict-aliasing', '-I', HERE, '-c', f, '-o', o])
            return o
        futs = [pool.submit(cxx, os.path.join(HERE, f)) for f in ('explore.cpp', 'mockmpi.cpp')]
    if not os.path.exists(src + '/.done'):
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        codegen(src)
        open(src + '/.done', 'w').write('')
    todo = [v for v in variants if not os.path.exists(os.path.join(bd, v + '.so'))]
    comp = []
    scen = sorted(glob.glob(os.path.join(VERIF, 'scen', '*.c')))
    for v in todo:
        vd = os.path.join(bd, v)
        os.makedirs(vd, exist_ok=True)
        with open(vd + '/oshmpiconf.h', 'w') as f:
            f.write('#ifndef OSHMPICONF_H\n#define OSHMPICONF_H\n')
            for d in (BASE_DEFS.replace('\n', '|') + VARIANTS[v]).split('|'):
                if d.strip():
                    f.write('#define %s\n' % d.strip())
            f.write('#endif\n')
        def cc(f, o, extra, vd=vd):
            run(['gcc'] + CFLAGS + ['-DONLY_MSPACES', '-D__data_start=__start_symmdata', '-D_end=__stop_symmdata', '-I', vd, '-I', HERE, '-I', HERE + '/opa',
                 '-I', src + '/include', '-I', src + '/src/include', '-I', src + '/src/internal', '-I', src + '/src/internal/util', '-I', src] + extra + ['-c', f, '-o', o])
            return o
        # memy: the compiler reports every load and store of the library's code (not the allocators') to the explorer
        memy = ['-fsanitize=thread', '-Dmemcpy=mc_memcpy', '-Dmemset=mc_memset', '-Dmemmove=mc_memmove'] if v == 'memy' else []
        fs = [(os.path.join(src, s), os.path.join(vd, s.replace('/', '_') + '.o'), [] if 'dlmalloc' in s or 'mem_pool' in s else memy) for s in sources(src)]
        fs += [(s, os.path.join(vd, 'scen_' + os.path.basename(s) + '.o'), ['-I', VERIF + '/scen', '-DMC_VARIANT_' + v.upper()]) for s in scen]
        # big files first
        fs.sort(key=lambda x: -os.path.getsize(x[0]))
        comp.append((v, [pool.submit(cc, *x) for x in fs]))
    for f in futs:
        f.result()
    if futs:
        run(['g++', '-rdynamic', '-o', exe + '.tmp'] + [f.result() for f in futs] + ['-ldl'])
        os.rename(exe + '.tmp', exe)
    out = {}
    for v, fl in comp:
        objs = [f.result() for f in fl]
        objs.sort(key=lambda o: (o.endswith('scen_z_last.c.o'), not o.endswith('scen_a_first.c.o'))) # first and last symmetric variable
        so = os.path.join(bd, v + '.so')
        run(['gcc', '-shared', '-nodefaultlibs', '-o', so + '.tmp', '-Wl,-Bsymbolic', '-Wl,-z,norelro', '-Wl,-z,now', '-nostartfiles'] + ['-Wl,--wrap=' + w for w in WRAP] + objs + ['-lm', '-lc'])
        os.rename(so + '.tmp', so)
        shutil.rmtree(os.path.join(bd, v))
    for v in variants:
        out[v] = os.path.join(bd, v + '.so')
    pool.shutdown()
    # keep at most a few old builds
    olds = sorted((d for d in glob.glob(ROOT + '/*') if d != bd), key=os.path.getmtime)
    for d in olds[:-1]:
        shutil.rmtree(d, ignore_errors=True)
    return exe, out

if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1:] or ['base']), time.time() - t)

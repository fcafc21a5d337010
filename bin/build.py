"""Builds the extension under test from /repo's current working tree, outside /repo."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
PHP = 'php8.3'
VARIANTS = {
    # memory errors in the extension become visible failures
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'],
    # as shipped: optimised, with the Zend allocator
    'plain': ['-O2', '-g'],
    # counts basic blocks executed and bytes moved (harness/work.c), to judge cost without a clock
    'work': ['-O1', '-g', '-fsanitize-coverage=trace-pc'],
}
WORK = os.path.join(VERIF, 'harness/work.c')
ASSERTS = os.path.join(VERIF, 'harness/asserts.h')
WRAP = ['memmove', 'memcpy', 'memset', '_emalloc', '_erealloc', '_erealloc2', '_safe_emalloc', '_safe_erealloc', '_ecalloc']


class BuildError(Exception):
    pass


def sources():
    m4 = open(os.path.join(REPO, 'config.m4')).read()
    cs = [f for f in dict.fromkeys(re.findall(r'[\w./-]+\.c\b', m4)) if os.path.exists(os.path.join(REPO, f))]
    if 'teds.c' not in cs:
        cs = sorted(os.path.basename(p) for p in glob.glob(REPO + '/*.c'))
    hs = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == '.':
            dirs[:] = [d for d in dirs if d not in ('.git', 'tests', '_build', 'build', 'modules', 'autom4te.cache',
                                                    'include', 'benchmarks', 'ci', '.libs')]
        for f in files:
            if f.endswith(('.h', '.inc')) and f not in ('config.h',):
                hs.append(os.path.normpath(os.path.join(rel, f)))
    return cs, sorted(hs)


def _cflags():
    return subprocess.check_output(['php-config8.3', '--includes'], text=True).split()


def build(variant):
    """Returns the directory holding teds.so for this variant (cached by content)."""
    cs, hs = sources()
    h = hashlib.sha256()
    flags = VARIANTS[variant] + ['-fPIC', '-DHAVE_CONFIG_H', '-DZEND_COMPILE_DL_EXT', '-DZEND_ENABLE_STATIC_TSRMLS_CACHE=1',
                                 '-Wno-unused', '-w']
    h.update(repr((flags, cs)).encode())
    h.update(subprocess.check_output(['php-config8.3', '--version']))
    for f in cs + hs + [os.path.join(VERIF, 'harness/config.h')] + ([WORK] if variant == 'work' else []) + ([ASSERTS] if variant == 'asan' else []):
        h.update(f.encode() + b'\0' + open(os.path.join(REPO, f), 'rb').read() + b'\0')
    out = os.path.join(BUILD, 'ext', variant + '-' + h.hexdigest()[:20])
    so = os.path.join(out, 'teds.so')
    os.makedirs(os.path.join(BUILD, 'ext'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return out
        # keep the cache small
        old = sorted(glob.glob(os.path.join(BUILD, 'ext', variant + '-*')), key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        src = os.path.join(tmp, 'src')
        os.makedirs(src)
        for f in cs + hs:
            os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), os.path.join(src, f))
        shutil.copyfile(os.path.join(VERIF, 'harness/config.h'), os.path.join(src, 'config.h'))
        inc = _cflags()

        oc = os.environ.get('VERIF_OBJCACHE')  # development only: reuse objects between trees that differ in a few files
        if oc:
            os.makedirs(oc, exist_ok=True)
            hh = hashlib.sha256(repr(flags).encode() + b''.join(open(os.path.join(src, x), 'rb').read() for x in hs + ['config.h']))
            hh.update(open(ASSERTS, 'rb').read())

        def cc(f):
            o = os.path.join(tmp, f.replace('/', '__')[:-2] + '.o')
            if oc:
                k = hh.copy()
                k.update(f.encode() + open(os.path.join(src, f), 'rb').read())
                c = os.path.join(oc, k.hexdigest()[:32] + '.o')
                if os.path.exists(c):
                    shutil.copyfile(c, o)
                    return o
            p = subprocess.run(['gcc'] + flags + ['-I' + src] + (['-include', ASSERTS] if variant == 'asan' else []) + ['-ffile-prefix-map=' + src + '/='] + inc + ['-c', os.path.join(src, f), '-o', o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError(p.stdout)
            if oc and p.returncode == 0:
                shutil.copyfile(o, c + '.%d' % os.getpid())
                os.rename(c + '.%d' % os.getpid(), c)
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, cs))
        link = []
        if variant == 'work':
            o = os.path.join(tmp, 'vwork.o')
            subprocess.check_call(['gcc', '-O2', '-fPIC', '-c', WORK, '-o', o])
            objs.append(o)
            link = ['-Wl,--wrap=' + x for x in WRAP]
        p = subprocess.run(['gcc', '-shared'] + link + [x for x in VARIANTS[variant] if x.startswith('-fsanitize=')] + objs +
                           ['-o', os.path.join(tmp, 'teds.so')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout)
        for o in objs:
            os.unlink(o)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


def build_vprobe():
    src = os.path.join(VERIF, 'harness/vprobe/vprobe.c')
    h = hashlib.sha256(open(src, 'rb').read() + subprocess.check_output(['php-config8.3', '--version'])).hexdigest()[:16]
    out = os.path.join(BUILD, 'vprobe-' + h)
    so = os.path.join(out, 'vprobe.so')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-vprobe'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            os.makedirs(out, exist_ok=True)
            p = subprocess.run(['gcc', '-O1', '-g', '-fPIC', '-w', '-shared', '-DZEND_COMPILE_DL_EXT', '-DCOMPILE_DL_VPROBE'] + _cflags() +
                               [src, '-o', so + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError(p.stdout)
            os.rename(so + '.tmp', so)
    return so


def build_shim():
    src = os.path.join(VERIF, 'harness/nodeepbind.c')
    so = os.path.join(BUILD, 'nodeepbind.so')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-shim'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            subprocess.check_call(['gcc', '-O1', '-fPIC', '-shared', src, '-o', so + '.tmp', '-ldl'])
            os.rename(so + '.tmp', so)
    return so


_ASAN = None


def php_cmd(variant, dirs):
    """(argv prefix, env) to run PHP with the given build of the extension."""
    global _ASAN
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    env.update(LC_ALL='C.UTF-8', TZ='UTC', ZEND_DONT_UNLOAD_MODULES='1')
    if variant == 'asan':
        if _ASAN is None:
            _ASAN = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
        env.update(LD_PRELOAD=build_shim() + ' ' + os.path.realpath(_ASAN), USE_ZEND_ALLOC='0',
                   ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:'
                                'max_free_fill_size=4096:free_fill_byte=221:malloc_fill_byte=190:max_malloc_fill_size=4096:'
                                'quarantine_size_mb=64:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:verify_asan_link_order=0')
    argv = [PHP, '-n', '-d', 'extension=' + os.path.join(dirs[variant], 'teds.so'), '-d', 'extension=' + dirs['vprobe'],
            '-d', 'memory_limit=3G', '-d', 'display_errors=stderr', '-d', 'error_reporting=32767', '-d', 'zend.assertions=-1',
            '-d', 'serialize_precision=17', '-d', 'precision=17', '-d', 'max_execution_time=0']
    return argv, env


if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS:
        print(build(v))
    print(build_vprobe())

"""Prepares what the rules analyse: builds the extractor, generates the analysis
store from the working tree's generator, and extracts a program model of every
translation unit and configuration. Everything derives from the current working
tree of the repository; results are cached by the content of their inputs."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


class Broken(Exception):
    """The analysis cannot give an answer (neither pass nor violation)."""


def sha(paths, extra=''):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha1(f.read()).digest())
    return h.hexdigest()[:20]


def tree(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, dn, fn in os.walk(r):
            dn[:] = [x for x in dn if x not in ('__pycache__', 'node_modules')]
            for f in fn:
                if f.endswith(('.pyc',)):
                    continue
                out.append(os.path.join(d, f))
    return out


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Broken('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd)[:400], r.stdout[-4000:]))
    return r.stdout


def build_extractor():
    src = os.path.join(VERIF, 'xtract', 'xtract.cpp')
    key = sha([src])
    exe = os.path.join(BUILD, 'xtract-' + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.tmp%d' % os.getpid()
    run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
         '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib'])
    os.rename(tmp, exe)
    return exe


GENSRC = ['include/libstored/store.h.tmpl', 'src/store.cpp.tmpl', 'CMakeLists.txt.tmpl', 'doc', 'LICENSES',
          'fpga/rtl', 'fpga/vivado', 'python/libstored/generator', 'python/libstored/__init__.py']


def venv_python():
    for p in ('/opt/vp/venv/bin/python3', '/opt/veriftools/pyvenv/bin/python3', sys.executable):
        if os.path.exists(p):
            r = subprocess.run([p, '-c', 'import jinja2, textx'], capture_output=True)
            if r.returncode == 0:
                return p
    raise Broken('no python with jinja2 and textx to run the store generator')


def generate(work):
    """A scratch copy of the generator (its version file is made by cmake) and
    the store it generates from the analysis store definition."""
    src = os.path.join(work, 'src')
    os.makedirs(os.path.join(src, 'python'), exist_ok=True)
    for d in ('include', 'src', 'LICENSES', 'doc', 'fpga'):
        shutil.copytree(os.path.join(REPO, d), os.path.join(src, d), ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copy(os.path.join(REPO, 'CMakeLists.txt.tmpl'), src)
    shutil.copytree(os.path.join(REPO, 'python/libstored'), os.path.join(src, 'python/libstored'),
                    ignore=shutil.ignore_patterns('__pycache__', 'gui', 'visu', 'data'))
    with open(os.path.join(src, 'python/libstored/version.py'), 'w') as f:
        f.write("__version__ = '0.0.0'\nlibstored_version = '0.0.0'\n")
    vin = os.path.join(REPO, 'include/libstored/version.h.in')
    s = open(vin).read()
    for k, v in (('MAJOR', '0'), ('MINOR', '0'), ('PATCH', '0'), ('SUFFIX', ''), ('HASH', '')):
        s = s.replace('@LIBSTORED_VERSION_%s@' % k, v)
    gen = os.path.join(work, 'gen')
    os.makedirs(os.path.join(gen, 'include', 'libstored'), exist_ok=True)
    with open(os.path.join(gen, 'include', 'libstored', 'version.h'), 'w') as f:
        f.write(s)
    py = venv_python()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.path.join(src, 'python'))
    run([py, '-m', 'libstored.generator', os.path.join(VERIF, 'drivers', 'VStore.st'), gen],
        cwd=os.path.join(src, 'python'), env=env)
    genb = os.path.join(work, 'genb')
    os.makedirs(genb)
    run([py, '-m', 'libstored.generator', '-b', os.path.join(VERIF, 'drivers', 'VStore.st'), genb],
        cwd=os.path.join(src, 'python'), env=env)
    return gen


LIBSRC = ['compress', 'debugger', 'directory', 'pipes', 'poller', 'protocol', 'synchronizer', 'util', 'zmq']


def units(work):
    """(name, file, flags) of every unit analysed."""
    inc = lambda cfg, gen: ['-I' + os.path.join(VERIF, 'drivers', cfg), '-I' + os.path.join(work, gen, 'include'),
                            '-I' + os.path.join(REPO, 'include'),
                            '-isystem', '/usr/include/heatshrink', '-isystem', '/usr/include/pgm-5.3']
    base = ['-std=gnu++17', '-DSTORED_DRAFT_API=1', '-DSTORED_HAVE_ZMQ=1', '-DNDEBUG', '-DSTORED_NAME="x"',
            '-Wno-everything', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    std = base + ['-DSTORED_HAVE_HEATSHRINK=1', '-DSTORED_POLL_AUTO'] + inc('cfg_std', 'gen')
    alt = base + ['-DSTORED_POLL_LOOP'] + inc('cfg_alt', 'genb')
    u = []
    for s in LIBSRC:
        u.append(('std_' + s, os.path.join(REPO, 'src', s + '.cpp'), std))
    for d in ('d_store', 'd_fifo', 'd_handles', 'd_pipes', 'd_components'):
        f = os.path.join(VERIF, 'drivers', d + '.cpp')
        if os.path.exists(f):
            u.append(('std_' + d, f, std))
    u.append(('std_genstore', os.path.join(work, 'gen', 'src', 'VStore.cpp'), std))
    for s in ('debugger', 'directory', 'protocol', 'synchronizer', 'util', 'poller'):
        u.append(('alt_' + s, os.path.join(REPO, 'src', s + '.cpp'), alt))
    for d in ('d_store', 'd_fifo', 'd_handles'):
        u.append(('alt_' + d, os.path.join(VERIF, 'drivers', d + '.cpp'), alt))
    u.append(('alt_genstore', os.path.join(work, 'genb', 'src', 'VStore.cpp'), alt))
    only = os.environ.get('VERIF_UNITS')        # for experiments on a copy
    if only:
        u = [x for x in u if x[0] in only.split(',')]
    return u


def workkey():
    ins = tree(os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'python/libstored/generator'),
               os.path.join(REPO, 'doc'), os.path.join(REPO, 'fpga/rtl'), os.path.join(VERIF, 'drivers'),
               os.path.join(VERIF, 'xtract'), os.path.abspath(__file__))
    return sha(ins, REPO + os.environ.get('VERIF_UNITS', ''))


def prepare():
    """Returns the directory with the models of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    key = workkey()
    work = os.path.join(BUILD, 'work-' + key)
    done = os.path.join(work, 'done')
    if os.path.exists(done):
        os.utime(work)
        return work
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return work
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith('work-'))
        for _, d in old[:-4]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        if os.path.exists(work):
            shutil.rmtree(work)
        os.makedirs(os.path.join(work, 'model'))
        exe = build_extractor()
        generate(work)
        roots = ':'.join([os.path.join(REPO, 'include/libstored'), os.path.join(REPO, 'src'), os.path.join(work, 'gen'),
                          os.path.join(VERIF, 'drivers')])

        def one(u):
            out = os.path.join(work, 'model', u[0] + '.json')
            run([exe, out, roots, 'noprune', u[1], '--'] + u[2])
            if not os.path.exists(out) or os.path.getsize(out) < 100:
                raise Broken('no model for %s' % u[0])
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, units(work)))
        with open(done, 'w') as f:
            f.write('ok')
    return work


if __name__ == '__main__':
    try:
        print(prepare())
    except Broken as e:
        print(e)
        sys.exit(3)

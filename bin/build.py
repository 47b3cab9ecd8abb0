"""Builds the executable contracts against /repo's current sources (cached on preprocessed text)."""
import hashlib, os, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCRIBBU_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')
FLAGS = ['-std=c++20', '-Wno-register', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer',
         '-ftrivial-auto-var-init=pattern', '-DHAVE_CONFIG_H',
         '-I' + HERE + '/harness/config', '-I' + HERE + '/harness', '-I' + REPO, '-I' + REPO + '/scribbu', '-I' + REPO + '/src',
         '-I/usr/include/guile/3.0']
LIBS = ['-lguile-3.0', '-lgc', '-lssl', '-lcrypto', '-lboost_iostreams', '-lboost_filesystem', '-lboost_log', '-lboost_regex',
        '-lboost_system', '-lboost_program_options', '-lboost_thread', '-lunistring', '-lffi', '-lz', '-lpthread', '-ldl']
BASE = ['charsets', 'errors', 'framesv2', 'framesv22', 'framesv23', 'framesv24', 'id3v1', 'id3v2', 'id3v2-utils', 'id3v22', 'id3v23',
        'id3v24', 'mp3', 'scribbu', 'ostream', 'pprinter', 'csv-pprinter', 'json-pprinter', 'tdf-pprinter', 'winamp-genres', 'tagset']


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd)[:400] + '\n' + p.stdout.decode(errors='replace')[-3000:])
    return p.stdout


def obj(src, extra=()):
    pre = run(['g++'] + FLAGS + list(extra) + ['-E', '-P', src])
    h = hashlib.sha256(pre + ' '.join(FLAGS + list(extra)).encode()).hexdigest()[:32]
    o = os.path.join(CACHE, 'obj', os.path.basename(src) + '-' + h + '.o')
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + '.%d.tmp' % os.getpid()
        run(['g++'] + FLAGS + list(extra) + ['-c', src, '-o', tmp])
        os.replace(tmp, o)
        prune(os.path.dirname(o))
    else:
        used(o)
    return o


def used(f):
    try:
        os.utime(f)
    except OSError:
        pass


def prune(d, keep=400):
    """removes the files longest unused, but none used within the hour: they may be about to be linked or run"""
    fs = []
    for f in os.listdir(d):
        try:
            fs.append((os.stat(os.path.join(d, f)).st_mtime, os.path.join(d, f)))
        except OSError:
            pass
    for t, f in sorted(fs)[:-keep]:
        if t < time.time() - 3600:
            try:
                os.unlink(f)
            except OSError:
                pass


def harness(pid):
    """path of the executable for one property"""
    srcs = []
    for b in BASE:
        p = '%s/scribbu/%s.cc' % (REPO, b)
        if os.path.exists(p):
            srcs.append(p)
    with cf.ThreadPoolExecutor(8) as ex:
        fm = ex.submit(obj, '%s/harness/%s.cc' % (HERE, pid))
        fs = [ex.submit(obj, s) for s in srcs]
        main = fm.result()
        objs, err = [], None
        for f in fs:
            try:
                objs.append(f.result())
            except BuildError as e:
                err = e
    h = hashlib.sha256('\n'.join([main] + objs).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, 'bin', '%s-%s' % (pid, h))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        lib = exe + '.%d.a' % os.getpid()
        run(['ar', 'rcs', lib] + objs)
        tmp = exe + '.%d.tmp' % os.getpid()
        try:
            run(['g++', '-fsanitize=address', '-g', main, lib, '-o', tmp] + LIBS)
        except BuildError as e:
            raise BuildError((str(err) + '\n' if err else '') + str(e))
        finally:
            os.unlink(lib)
        os.replace(tmp, exe)
        prune(os.path.dirname(exe), 60)
    else:
        used(exe)
    return exe


if __name__ == '__main__':
    for p in sys.argv[1:]:
        print(harness(p))

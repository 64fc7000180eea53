"""Compile the project's current sources to LLVM IR and extract the program model (JSON)."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('T1CD_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
KNOWN = os.path.join(VERIF, 'sa', 'known_functions.txt')
CLANG = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
FLAGS = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug',
         '-include', 'cstdint', '-DCATCH_CONFIG_NO_POSIX_SIGNALS', '-DBOOST_ALL_NO_LIB',
         '-DBOOST_UUID_FORCE_AUTO_LINK', '-w', '-flto=full', '-fwhole-program-vtables',
         '-fvisibility=hidden', '-c']


class Broken(Exception):
    pass


def units(repo):
    out = []
    for sub in ('tool1cd', 'ctool1cd'):
        d = os.path.join(repo, 'src', sub)
        txt = open(os.path.join(d, 'CMakeLists.txt'), encoding='utf-8').read()
        txt = re.sub(r'#.*', '', txt)
        for m in re.findall(r'[\w./-]+\.cpp\b', txt):
            p = os.path.join(d, m)
            if os.path.exists(p) and p not in out:
                out.append(p)
    if len(out) < 20:
        raise Broken('only %d translation units found in the CMake lists' % len(out))
    return out


def tree_hash(repo):
    h = hashlib.sha256()
    src = os.path.join(repo, 'src')
    for sub in ('tool1cd', 'ctool1cd'):
        for dp, dn, fn in sorted(os.walk(os.path.join(src, sub))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cpp', '.h', '.hpp', '.txt')):
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, src).encode())
                    h.update(open(p, 'rb').read())
    h.update(repo.encode())
    h.update(open(KNOWN, 'rb').read() if os.path.exists(KNOWN) else b'')
    h.update(open(os.path.join(VERIF, 'tool', 'irx.cpp'), 'rb').read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()[:24]


def model(repo=None, known=True):
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        raise Broken('extractor does not build: ' + r.stderr[-2000:])
    key = tree_hash(repo) + ('' if known else '-raw')
    out = os.path.join(BUILD, 'model-%s.json' % key)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return json.load(open(out)), True
        tmp = tempfile.mkdtemp(prefix='bc', dir=BUILD)
        try:
            us = units(repo)
            inc = os.path.join(repo, 'src', 'tool1cd')

            bcdir = os.environ.get('T1CD_BC')      # compiled units kept between runs (development only)
            hd = hashlib.md5()
            if bcdir:
                os.makedirs(bcdir, exist_ok=True)
                for dp, dn, fn in sorted(os.walk(os.path.join(repo, 'src'))):
                    dn.sort()
                    for f in sorted(fn):
                        if f.endswith(('.h', '.hpp')):
                            hd.update(open(os.path.join(dp, f), 'rb').read())
                hd.update((' '.join(FLAGS)).encode())

            def one(p):
                o = os.path.join(tmp, hashlib.md5(p.encode()).hexdigest() + '.bc')
                if bcdir:
                    o = os.path.join(bcdir, hashlib.md5(p.encode() + hd.digest() + open(p, 'rb').read()).hexdigest() + '.bc')
                    if os.path.exists(o):
                        return p, o, 0, ''
                t = o + '.%d' % os.getpid()
                c = subprocess.run([CLANG] + FLAGS + ['-I', inc, p, '-o', t], capture_output=True, text=True, cwd=os.path.join(repo, 'src'))
                if c.returncode == 0:
                    os.rename(t, o)
                return p, o, c.returncode, c.stderr
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, us))
            bad = [(p, e) for p, o, rc, e in res if rc]
            if bad:
                raise Broken('does not compile: ' + '; '.join('%s: %s' % (p, e[-600:]) for p, e in bad))
            allbc = os.path.join(tmp, 'all.bc')
            c = subprocess.run([LINK] + [o for _, o, _, _ in res] + ['-o', allbc], capture_output=True, text=True)
            if c.returncode:
                raise Broken('llvm-link: ' + c.stderr[-2000:])
            kn = KNOWN if known and os.path.exists(KNOWN) else '/dev/null'
            t = out + '.tmp%d' % os.getpid()
            c = subprocess.run([os.path.join(BUILD, 'irx'), allbc, kn, os.path.join(repo, 'src'), t], capture_output=True, text=True)
            if c.returncode:
                raise Broken('irx: ' + c.stderr[-2000:])
            if tree_hash(repo) + ('' if known else '-raw') != key:
                os.unlink(t)
                raise Broken('the sources changed while they were being analysed')
            # keep the cache small
            for f in os.listdir(BUILD):
                if f.startswith('model-') and f.endswith('.json'):
                    p = os.path.join(BUILD, f)
                    olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('model-') and x.endswith('.json')), key=os.path.getmtime)
                    for o in olds[:-8]:
                        os.unlink(o)
                    break
            os.rename(t, out)
            m = json.load(open(out))
            return m, False
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    # regenerate the list of known functions (run by hand, never by a check)
    if sys.argv[1:] == ['--freeze']:
        m, _ = model(known=False)
        qs = sorted({f['q'] for f in m['functions'].values()})
        open(KNOWN, 'w').write('# functions of the tree the rules were written against; anything else is inlined into its callers\n' + '\n'.join(qs) + '\n')
        print(len(qs))
    else:
        m, c = model()
        print({k: len(v) for k, v in m.items()}, 'cached' if c else 'built')

"""Fact base: builds the extractor, extracts every translation unit of /repo's current tree (content-hash cached),
merges the per-TU records into one set of resolved functions / records / enums / globals, and loads it."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.environ.get('SA_CACHE', os.path.join(VERIF, '.cache'))
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def fread(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(d):
    items = []
    for r, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            p = os.path.join(r, f)
            items.append(p.encode() + b'\0' + fread(p))
    return sha(*items)


def flags(config):
    f = ['-xc++', '-std=c++20', '-w', '-resource-dir', LLVM + '/lib/clang/18', '-DBUILD_TESTS',
         '-DCURA_ENGINE_VERSION="5.14.0-alpha.0"', '-DCURA_ENGINE_HASH="unknown"',
         '-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1', '-DSENTRY_ENVIRONMENT=""',
         '-I' + REPO + '/include', '-I/usr/include/stb',
         '-I' + VERIF + '/stubs_fast', '-I' + VERIF + '/stubs']
    if config == 'arcus':
        f += ['-DARCUS', '-I' + VERIF + '/stubs_arcus', '-I' + CACHE + '/proto']
    return f


os.environ['SA_EXTRA'] = os.path.join(VERIF, 'ref') + '/'


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def ensure_tool():
    src = os.path.join(VERIF, 'sa', 'extract.cpp')
    h = sha(fread(src))
    out = os.path.join(CACHE, 'bin', 'cura-extract-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
                 LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib'])
        if r.returncode:
            raise AnalysisError('extractor does not build:\n' + r.stdout.decode()[-3000:])
        os.rename(tmp, out)
    return out, h


def ensure_pch(config, stubhash):
    if config != 'main':
        return None
    h = sha(fread(os.path.join(VERIF, 'sa', 'pch.h')), stubhash, *flags(config))
    out = os.path.join(CACHE, 'pch', h + '.pch')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        fl = [x for x in flags(config) if x != '-xc++']
        r = run(['clang++', '-x', 'c++-header'] + fl + ['-Xclang', '-fpch-instantiate-templates',
                 os.path.join(VERIF, 'sa', 'pch.h'), '-o', tmp])
        if r.returncode:
            raise AnalysisError('PCH does not build:\n' + r.stdout.decode()[-3000:])
        os.rename(tmp, out)
    return out


def tu_list():
    txt = fread(os.path.join(REPO, 'CMakeLists.txt')).decode()
    m = re.search(r'set\(engine_SRCS[^)]*\)', txt)
    if not m:
        raise AnalysisError('no engine_SRCS in CMakeLists.txt')
    srcs = re.findall(r'src/[A-Za-z0-9_/.]+\.cpp', m.group(0))
    if 'src/main.cpp' not in srcs:
        srcs.append('src/main.cpp')
    srcs = [s for s in dict.fromkeys(srcs) if os.path.exists(os.path.join(REPO, s))]
    if len(srcs) < 100:
        raise AnalysisError('only %d sources in engine_SRCS' % len(srcs))
    return srcs


def srcpath(p):
    return os.path.join(VERIF, 'ref', p[5:]) if p.startswith('@ref/') else os.path.join(REPO, p)


def _filehash(p, memo):
    if p not in memo:
        try:
            memo[p] = hashlib.sha256(fread(srcpath(p))).hexdigest()
        except OSError:
            memo[p] = 'missing'
    return memo[p]


def extract_all(tus, config='main', verbose=False):
    """returns list of (tu, path of jsonl)"""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        th = sha(fread(os.path.join(VERIF, 'sa', 'extract.cpp')))
        stub = tree_hash(os.path.join(VERIF, 'stubs')) + tree_hash(os.path.join(VERIF, 'stubs_fast'))
        if config == 'arcus':
            stub += tree_hash(os.path.join(VERIF, 'stubs_arcus'))
            ensure_proto()
        fl = flags(config)
        base = sha(th, stub, *fl)
        pch = None
        memo = {}
        d = os.path.join(CACHE, 'tu', config)
        os.makedirs(d, exist_ok=True)
        res, stale = [], []
        for tu in tus:
            b = os.path.join(d, tu.replace('/', '__'))
            ok = False
            if os.path.exists(b + '.key') and os.path.exists(b + '.jsonl'):
                k = json.loads(fread(b + '.key'))
                ok = k['base'] == base and all(_filehash(p, memo) == hsh for p, hsh in k['deps'].items())
            res.append((tu, b + '.jsonl'))
            if not ok:
                stale.append((tu, b))
        if stale:
            with ThreadPoolExecutor(2) as ex:
                a, b_ = ex.submit(ensure_tool), ex.submit(ensure_pch, config, stub)
                tool, pch = a.result()[0], b_.result()

            def one(x):
                tu, b = x
                t0 = time.time()
                for p in (b + '.key', b + '.jsonl'):
                    if os.path.exists(p):
                        os.unlink(p)
                cmd = [tool, b + '.jsonl', REPO.rstrip('/') + '/', srcpath(tu), '--']
                if pch:
                    cmd += ['-include-pch', pch]
                if tu.startswith('@ref/'):
                    return one_ref(tool, tu, b, fl, base, verbose)
                r = run(cmd + fl)
                if r.returncode:
                    # the light stand-ins of the analysis may lack something: retry with the real headers
                    r2 = run([tool, b + '.jsonl', REPO.rstrip('/') + '/', srcpath(tu), '--'] + [x for x in fl if 'stubs_fast' not in x])
                    if r2.returncode == 0:
                        r = r2
                if r.returncode:
                    return '%s does not parse:\n%s' % (tu, r.stdout.decode()[-2000:])
                write_key(b, base)
                if verbose:
                    print('%6.1fs %s' % (time.time() - t0, tu), file=sys.stderr)
                return None
            stale.sort(key=lambda x: -os.path.getsize(srcpath(x[0])))
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                errs = [e for e in ex.map(one, stale) if e]
            if errs:
                raise AnalysisError('\n'.join(errs[:5]))
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def write_key(b, base, extra=()):
    deps = list(extra)
    with open(b + '.jsonl', 'rb') as f:
        for line in f:
            if line.startswith(b'#deps'):
                deps += line.decode().rstrip('\n').split('\t')[1:]
    h = {p: _filehash(p, {}) for p in deps}
    with open(b + '.key', 'w') as f:
        json.dump({'base': base, 'deps': h, 'key': sha(base, json.dumps(h, sort_keys=True))}, f)


def one_ref(tool, tu, b, fl, base, verbose):
    """a reference unit: blocks that no longer fit the interface of the code are left out (they become undecided)"""
    t0 = time.time()
    name = tu[5:]
    lines = fread(srcpath(tu)).decode().split('\n')
    d = os.path.join(CACHE, 'ref')
    os.makedirs(d, exist_ok=True)
    marks = [i for i, l in enumerate(lines) if l.startswith('//=') or l.startswith('//END')]
    src = srcpath(tu)
    for rnd in range(8):
        r = run([tool, b + '.jsonl', REPO.rstrip('/') + '/', src, '--', '-fno-access-control', '-ferror-limit=0', '-I' + os.path.join(VERIF, 'ref')] + fl, env=dict(os.environ, SA_EXTRA=src[:-len(name)]))
        if r.returncode == 0:
            break
        out = r.stdout.decode(errors='replace')
        if os.environ.get('SPEC_V'):
            print('\n'.join([l[:300] for l in out.split('\n') if 'error' in l][:40]), file=sys.stderr)
        bad, again = set(), False
        here = re.compile(re.escape(os.path.basename(src)) + r':(\d+):\d+: (\w+)')
        hits, open_ = [], False
        for l in out.split('\n'):
            m = here.search(l)
            if re.search(r': (fatal )?error: ', l):
                open_ = m is None       # an error elsewhere: the first place of ours that leads to it
                if m:
                    hits.append(int(m.group(1)))
            elif m and open_:
                hits.append(int(m.group(1)))
                open_ = False
        for x in hits:
            k = [i for i in marks if i < x]
            if not k and re.match(r'\s*(#include|using)', lines[x - 1]):
                lines[x - 1] = ''
                again = True
            if k and lines[k[-1]].startswith('//='):
                bad.add(k[-1])
        if not bad and not again:
            if name.startswith('whole/'):
                # nothing of it fits any more
                with open(b + '.jsonl', 'w') as o:
                    o.write('#deps\n#rc\t0\n')
                break
            return '%s does not parse:\n%s' % (tu, out[-2000:])
        for k in bad:
            nx = [i for i in marks if i > k]
            for i in range(k + 1, nx[0] if nx else len(lines)):
                if lines[i].startswith('}  // namespace'):
                    break
                lines[i] = ''
        src = os.path.join(d, name)
        shutil.copy(os.path.join(VERIF, 'ref', 'ref.h'), os.path.join(d, 'ref.h'))
        os.makedirs(os.path.dirname(src), exist_ok=True)
        with open(src, 'w') as f:
            f.write('\n'.join(lines))
    else:
        return '%s does not parse' % tu
    write_key(b, base, [tu])
    if verbose:
        print('%6.1fs %s' % (time.time() - t0, tu), file=sys.stderr)
    return None


def ensure_proto():
    out = os.path.join(CACHE, 'proto')
    src = fread(os.path.join(REPO, 'Cura.proto'))
    h = sha(src)
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(stamp) and fread(stamp).decode() == h:
        return
    os.makedirs(out, exist_ok=True)
    r = run(['protoc', '--proto_path', REPO, '--cpp_out', out, os.path.join(REPO, 'Cura.proto')])
    if r.returncode:
        raise AnalysisError('protoc failed: ' + r.stdout.decode()[-1000:])
    with open(stamp, 'w') as f:
        f.write(h)


class Facts:
    def __init__(self):
        self.fns = {}      # usr -> record
        self.recs = {}
        self.enums = {}
        self.gvs = {}
        self.tus = []


def load(tus=None, config='main', only=None, verbose=False):
    """tus: list of sources (default: all).  only: predicate on the defining file."""
    if tus is None:
        tus = tu_list()
    F = Facts()
    F.tus = tus
    seen = set()
    for tu, path in extract_all(tus, config, verbose):
        rc = None
        with open(path, 'rb') as f:
            for line in f:
                if line[:1] == b'#':
                    if line.startswith(b'#rc'):
                        rc = int(line.split(b'\t')[1])
                    continue
                a = line.find(b'\t')
                b = line.find(b'\t', a + 1)
                key = line[:b]
                if key in seen:
                    continue
                if only is not None and not only(line[:a].decode()):
                    continue
                seen.add(key)
                r = json.loads(line[b + 1:])
                k = r['k']
                if tu.startswith('@ref/whole/'):
                    # definitions that stand beside those of the code
                    if k == 'fn' and r['f'] == tu:
                        r['u'] = 'ref:' + r['u']
                        F.fns[r['u']] = r
                    continue
                if k == 'fn':
                    F.fns[r['u']] = r
                elif k == 'rec':
                    F.recs[r['u']] = r
                elif k == 'enum':
                    F.enums[r['u']] = r
                else:
                    F.gvs[r['u']] = r
        if rc != 0:
            raise AnalysisError('%s: extraction incomplete' % tu)
    return F


if __name__ == '__main__':
    t = time.time()
    F = load(verbose='-v' in sys.argv)
    print(len(F.tus), 'TUs', len(F.fns), 'functions', len(F.recs), 'records', len(F.enums), 'enums', len(F.gvs), 'globals', '%.1fs' % (time.time() - t))

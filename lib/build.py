"""Builds code under test straight from /repo's current working tree.

Objects are cached by content (flags + source text + text of every header under
/repo/src), so an edit anywhere is always seen; a missing cache only costs time.
Only the source files a harness transitively needs are compiled at first (the
hint table lib/symmap.json says which file used to define which symbol); when
the hint is out of date the link fails and everything is compiled instead, so a
stale hint cannot change a verdict."""
import hashlib, json, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.build'))
SYMMAP = os.path.join(VERIF, 'lib', 'symmap.json')
INC = ['-I%s/src/include' % REPO, '-I%s/src/kenlm' % REPO, '-I%s/src' % REPO, '-I%s/src/marisa' % REPO, '-I%s/src/liblbfgs' % REPO,
       '-I%s/lib/cfg' % VERIF, '-I%s/lib' % VERIF]
BASE = ['-w', '-g1', '-DKENLM_MAX_ORDER=6', '-include', 'map', '-D_GLIBCXX_ASSERTIONS', '-pthread']
LIBS = ['-lboost_thread', '-lboost_regex', '-lboost_iostreams', '-lboost_locale', '-lboost_system',
        '-lboost_program_options', '-lz', '-licui18n', '-licuuc', '-licudata', '-lrt', '-lpthread']
CONFIGS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'sched': ['-O1', '-fsanitize=thread', '-fno-pie', '-DVSCHED'],
}
LINK = {'plain': [], 'asan': ['-fsanitize=address'], 'sched': ['-no-pie']}


def make_sources(mk, var):
    text = open(mk).read().replace('\\\n', ' ')
    m = re.search(r'^' + var + r'\s*=\s*(.*)$', text, re.M)
    d = os.path.dirname(mk)
    return [os.path.normpath(os.path.join(d, s)) for s in (m.group(1).split() if m else [])]


def repo_sources():
    R = os.path.join(REPO, 'src')
    out = make_sources(R + '/lib/Makefile.am', 'TRAVATARCPP')
    out += make_sources(R + '/kenlm/lm/Makefile.am', 'libklm_la_SOURCES')
    out += make_sources(R + '/kenlm/util/Makefile.am', 'libklm_util_la_SOURCES')
    out += make_sources(R + '/kenlm/search/Makefile.am', 'libklm_search_la_SOURCES')
    out += make_sources(R + '/marisa/Makefile.am', 'libmarisa_la_SOURCES')
    out += make_sources(R + '/tercpp/Makefile.am', 'libter_la_SOURCES')
    out += make_sources(R + '/liblbfgs/Makefile.am', 'liblbfgs_la_SOURCES')
    # files added to lib/ without being listed are picked up too (only if nothing lists them)
    seen = set(out)
    for f in sorted(glob.glob(R + '/lib/*.cc')):
        if f not in seen and os.path.basename(f) not in ('travatar.cc', 'symbol-set.cc'):
            out.append(f)
    return [f for f in out if os.path.exists(f) and not f.endswith('cat_compressed_main.cc')]


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if not x.startswith('.') and x != '__pycache__')
            for f in sorted(fs):
                if f == 'config.h' and d.endswith('include/travatar'):
                    continue
                if f.endswith(('.h', '.hh', '.hpp')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def included(src, seen=None):
    """the text of the .cc files a harness includes"""
    seen = set() if seen is None else seen
    r = b''
    for inc in re.findall(r'^\s*#\s*include\s*["<]([^">]+\.(?:cc|cpp|c))[">]', open(src, errors='replace').read(), re.M):
        for d in (os.path.dirname(src), REPO + '/src/kenlm', REPO + '/src', REPO + '/src/include', REPO + '/src/lib'):
            f = os.path.join(d, inc)
            if os.path.exists(f) and f not in seen:
                seen.add(f)
                r += b'\0' + open(f, 'rb').read() + included(f, seen)
                break
    return r


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, config='plain', extra=(), std='c++11', jobs=None):
        self.config, self.extra, self.std = config, list(extra), std
        self.jobs = jobs or os.cpu_count() or 4
        self.hh = tree_hash([os.path.join(REPO, 'src'), os.path.join(VERIF, 'lib', 'cfg')])
        self.hv = tree_hash([os.path.join(VERIF, 'lib')])
        os.makedirs(CACHE, exist_ok=True)

    def obj(self, src, opts=None):
        """compile one file, return the object path"""
        isc = src.endswith('.c')
        flags = ['-w', '-g1'] if isc else BASE + ['-std=' + self.std]
        # (C files get none of the C++ includes)
        cmd = ['gcc' if isc else 'g++'] + flags + (CONFIGS[self.config] if opts is None else opts) + self.extra + INC
        text = open(src, 'rb').read() + included(src)
        key = hashlib.sha256(('\0'.join(cmd) + src + self.hh + ('' if src.startswith(REPO + '/') else self.hv)).encode() + text).hexdigest()[:32]
        out = os.path.join(CACHE, key + '.o')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp.o' % os.getpid()
            r = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError('compiling %s failed:\n%s' % (src, r.stdout.decode(errors='replace')[-4000:]))
            os.rename(tmp, out)
        return out

    def objs(self, srcs):
        with ThreadPoolExecutor(self.jobs) as ex:
            return list(ex.map(self.obj, srcs))

    def link(self, objs, out, extra=()):
        cmd = ['g++', '-pthread'] + LINK[self.config] + objs + list(extra) + LIBS + ['-o', out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors='replace')

    def program(self, srcs, name, link_extra=(), own_opts=None):
        """build a program from harness sources + whatever of /repo they need"""
        srcs = [os.path.join(VERIF, 'harness', s) if not os.path.isabs(s) else s for s in srcs]
        if self.config == 'sched':
            link_extra = list(link_extra) + [self.obj(os.path.join(VERIF, 'lib', 'vsched.cc'), ['-O2', '-fno-pie'])]
        allsrc = repo_sources()
        own_objs = None
        closure = self.hint(srcs, allsrc)
        todo = sorted(srcs, key=lambda s: 0) + closure
        with ThreadPoolExecutor(self.jobs) as ex:
            fo = [ex.submit(self.obj, s, own_opts) for s in srcs]
            fr = [ex.submit(self.obj, s) for s in closure]
            own_objs = [f.result() for f in fo]
            robjs = [f.result() for f in fr]
        key = hashlib.sha256('\0'.join(own_objs + robjs + list(link_extra)).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, '%s-%s' % (name, key))
        if os.path.exists(out):
            return out
        tmp = out + '.%d.tmp' % os.getpid()
        rc, log = self.link(own_objs + robjs, tmp, link_extra)
        if rc and len(closure) < len(allsrc):
            robjs = self.objs(allsrc)
            key = hashlib.sha256('\0'.join(own_objs + robjs + list(link_extra)).encode()).hexdigest()[:24]
            out = os.path.join(CACHE, '%s-%s' % (name, key))
            ar = os.path.join(CACHE, 'all-%d.a' % os.getpid())
            if os.path.exists(ar):
                os.unlink(ar)
            subprocess.check_call(['ar', 'rcs', ar] + robjs)
            rc, log = self.link(own_objs + [ar], tmp, link_extra)
            os.unlink(ar)
        if rc:
            raise BuildError('linking %s failed:\n%s' % (name, log[-4000:]))
        os.rename(tmp, out)
        return out

    def hint(self, srcs, allsrc):
        try:
            hints = json.load(open(SYMMAP)).get('programs', {})
        except Exception:
            hints = {}
        want = hints.get('+'.join(sorted(os.path.relpath(s, VERIF) for s in srcs)))
        if want is None:
            return list(allsrc)
        want = set(want)
        known = set(json.load(open(SYMMAP)).get('all', []))
        return [s for s in allsrc if os.path.relpath(s, REPO) in want or os.path.relpath(s, REPO) not in known]


def refresh_hint(srcs, config='plain'):
    """development only: recompute which repo files a harness needs"""
    b = Builder(config)
    srcs = [os.path.join(VERIF, 'harness', s) if not os.path.isabs(s) else s for s in srcs]
    allsrc = repo_sources()
    own = b.objs(srcs)
    ro = b.objs(allsrc)
    defs, need = {}, {}
    def syms(o):
        t = subprocess.check_output(['nm', '-P', o]).decode()
        d, u, w = set(), set(), set()
        for l in t.splitlines():
            p = l.split()
            if p[1] in 'TDBR':
                d.add(p[0])
            elif p[1] in 'VWu':
                w.add(p[0])
            elif p[1] == 'U':
                u.add(p[0])
        return d, u, w
    weak = {}
    for s, o in zip(allsrc, ro):
        d, u, w = syms(o)
        need[s] = u
        for x in d:
            defs.setdefault(x, s)
        for x in w:
            weak.setdefault(x, s)
    todo = set()
    for o in own:
        todo |= syms(o)[1]
    seen, done = set(), set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        s = defs.get(x) or weak.get(x)
        if s and s not in seen:
            seen.add(s)
            todo |= need[s]
    try:
        m = json.load(open(SYMMAP))
    except Exception:
        m = {'programs': {}}
    m['all'] = sorted(os.path.relpath(s, REPO) for s in allsrc)
    m['programs']['+'.join(sorted(os.path.relpath(s, VERIF) for s in srcs))] = sorted(os.path.relpath(s, REPO) for s in seen)
    json.dump(m, open(SYMMAP, 'w'), indent=0, sort_keys=True)
    return len(seen)

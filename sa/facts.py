"""Fact base: resolved AST of /repo's current sources, produced by tool/extract.cpp.

Everything generated goes to a scratch directory; results are cached by the
content of every input file (a pure function of the sources)."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get('MARCO_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LLVM = '/usr/lib/llvm-20'
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparseable unit)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _atomic_write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)


# ------------------------------------------------------------------ extractor
def extractor():
    src = _read(os.path.join(VERIF, 'tool/extract.cpp'))
    out = os.path.join(CACHE, 'extract-' + _sha(src)[:16])
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool/build.sh'), tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


# ------------------------------------------------------------------ tablegen
def tablegen_rules():
    rules = []
    inc = os.path.join(REPO, 'include')
    for cm in sorted(glob.glob(inc + '/**/CMakeLists.txt', recursive=True)):
        d = os.path.relpath(os.path.dirname(cm), inc)
        td = None
        for line in open(cm):
            line = line.strip()
            m = re.match(r'set\s*\(\s*LLVM_TARGET_DEFINITIONS\s+([^)\s]+)', line)
            if m:
                td = m.group(1)
            m = re.match(r'mlir_tablegen\s*\(([^)]*)\)', line)
            if m and td:
                w = m.group(1).split()
                rules.append((d, td, w[0], w[1:]))
    return rules


def overlay_dir(base):
    """LLVM 20 lacks APIntParameter; the repository targets a newer LLVM."""
    ov = os.path.join(base, 'ov')
    p = os.path.join(ov, 'mlir/IR/AttrTypeBase.td')
    if not os.path.exists(p):
        s = _read(LLVM + '/include/mlir/IR/AttrTypeBase.td').decode()
        if 'class APIntParameter' not in s:
            mark = '// For standard ArrayRefs, which require allocation.'
            assert mark in s
            s = s.replace(mark, 'class APIntParameter<string desc> :\n    AttrOrTypeParameter<"::llvm::APInt", desc> {\n  let comparator = "$_lhs.getBitWidth() == $_rhs.getBitWidth() && $_lhs == $_rhs";\n}\n\n' + mark, 1)
        _atomic_write(p, s.encode())
    return ov


_gen = None


def generated():
    """Run mlir-tblgen for every rule of the repository; returns (dir, overlay)."""
    global _gen
    if _gen:
        return _gen
    rules = tablegen_rules()
    if len(rules) < 70:
        raise AnalysisBroken('only %d tablegen rules found' % len(rules))
    inputs = []
    for td in sorted(glob.glob(REPO + '/include/**/*.td', recursive=True)):
        inputs += [td, _read(td)]
    key = _sha(json.dumps(rules), *inputs)[:20]
    base = os.path.join(CACHE, 'gen-' + key)
    # in-file includes refer to the canonical path, so keep the location stable
    if not os.path.exists(os.path.join(base, '.ok')):
        tmp = base + '.%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        ov = overlay_dir(tmp)
        inc = REPO + '/include'

        def run(r):
            d, td, out, a = r
            o = os.path.join(tmp, 'gen', d, out)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            p = subprocess.run([LLVM + '/bin/mlir-tblgen', *a, '-I', ov, '-I', inc,
                                '-I', os.path.join(inc, d), '-I', LLVM + '/include',
                                os.path.join(inc, d, td), '-o', o], capture_output=True, text=True)
            return (r, p.returncode, p.stderr)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r, rc, err in ex.map(run, rules):
                if rc:
                    raise AnalysisBroken('tablegen failed for %s: %s' % (r, err[-800:]))
        open(os.path.join(tmp, '.ok'), 'w').close()
        try:
            os.rename(tmp, base)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    _gen = (os.path.join(base, 'gen'), os.path.join(base, 'ov'))
    return _gen


def td_records(td):
    """llvm-tblgen --dump-json of one .td file (path relative to include/)."""
    gen, ov = generated()
    inc = REPO + '/include'
    p = subprocess.run([LLVM + '/bin/llvm-tblgen', '--dump-json', '-I', ov, '-I', inc,
                        '-I', LLVM + '/include', os.path.join(inc, td)], capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken('llvm-tblgen --dump-json %s: %s' % (td, p.stderr[-800:]))
    return json.loads(p.stdout)


# ------------------------------------------------------------------ units
def _cflags(gen, ov):
    return ['-fsyntax-only', '-w', '-ferror-limit=0', '-DMARCO_VERSION="dev"', '-DNDEBUG',
            '-std=gnu++17', '-fno-exceptions', '-fno-rtti',
            '-resource-dir', LLVM + '/lib/clang/20', '-I' + ov,
            '-isystem', LLVM + '/include', '-I' + REPO + '/include', '-I' + gen]


def _dep_key(files):
    return [(f, _sha(_read(f))) for f in files]


def extract(tu, roots=None, allow_errors=False, more=()):
    """Return the path of the JSON facts of one translation unit."""
    gen, ov = generated()
    ex = extractor()
    roots = (roots or [REPO + '/include', REPO + '/lib', REPO + '/tool', gen, VERIF]) + list(more)
    flags = _cflags(gen, ov)
    key = _sha(ex, tu, ','.join(roots), json.dumps(flags))[:24]
    out = os.path.join(CACHE, 'tu', key + '.json')
    meta = out + '.deps'
    if os.path.exists(meta) and os.path.exists(out):
        try:
            deps = json.load(open(meta))
            if all(os.path.exists(f) and _sha(_read(f)) == h for f, h in deps):
                return out
        except (ValueError, OSError):
            pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    p = subprocess.run([ex, tmp, tu, ','.join(roots), '--', *flags], capture_output=True, text=True)
    if not os.path.exists(tmp) or p.returncode not in (0, 1):
        raise AnalysisBroken('cannot analyse %s: %s' % (tu, p.stderr[-1500:]))
    d = json.load(open(tmp))
    if d['errors'] and not allow_errors:
        os.unlink(tmp)
        raise AnalysisBroken('%s does not compile: %s' % (tu, p.stderr[-1500:]))
    files = sorted(set(d['files'] + [tu]))
    os.replace(tmp, out)
    _atomic_write(meta, json.dumps(_dep_key(files)).encode())
    return out


class Program:
    def __init__(self, tus, allow_errors=False, more=()):
        self.fn = {}       # id -> function node
        self.by_name = {}  # qualified name -> [function]
        self.rec = {}
        self.enum = {}
        self.var = {}
        self.meth = {}     # id -> method declaration node (with record)
        self.files = set()
        self.units = []
        self.errors = {}
        generated()
        extractor()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda t: extract(t, allow_errors=allow_errors, more=more), tus))
        for tu, o in zip(tus, outs):
            self._load(tu, json.load(open(o)))

    def _load(self, tu, d):
        types = d['types']
        self.units.append(tu)
        if d['errors']:
            self.errors[tu] = d['errors']
        self.files.update(d['files'])
        uid = len(self.units)

        def fix(n):
            if isinstance(n, dict):
                for k in ('t', 'rt', 'st', 'of'):
                    v = n.get(k)
                    if type(v) is int:
                        n[k] = types[v]
                v = n.get('d')
                if type(v) is int:
                    n['d'] = (uid, v)
                for v in n.values():
                    if type(v) is dict or type(v) is list:
                        fix(v)
            elif isinstance(n, list):
                for v in n:
                    if type(v) is dict or type(v) is list:
                        fix(v)
        anon = '@' + os.path.basename(tu)
        for f in d['functions']:
            fid = f['id']
            if fid in self.fn:
                continue
            fix(f)
            f['tu'] = tu
            self.fn[fid] = f
            self.by_name.setdefault(f['n'], []).append(f)
        for r in d['records']:
            old = self.rec.get(r['n'])
            if old is not None and not (old.get('dep') and not r.get('dep')):
                continue
            fix(r)
            self.rec[r['n']] = r
            for m in r['methods']:
                m['cls'] = r['n']
                self.meth[m['id']] = m
        for e in d['enums']:
            self.enum.setdefault(e['n'], e)
        for v in d['vars']:
            if v['id'] not in self.var:
                fix(v)
                self.var[v['id']] = v
        del d

    # -- hierarchy ---------------------------------------------------------
    def bases(self, cls):
        r = self.rec.get(cls)
        return r['bases'] if r else []

    def is_base(self, base, cls):
        if base == cls:
            return True
        return any(self.is_base(base, b) for b in self.bases(cls))

    def subclasses(self, base):
        return [c for c in self.rec if c != base and self.is_base(base, c)]

    def fields(self, cls):
        """All fields, bases first: list of (declaring class, field)."""
        out = []
        r = self.rec.get(cls)
        if not r:
            return out
        for b in r['bases']:
            out += self.fields(b)
        out += [(cls, f) for f in r['fields']]
        return out

    def overriders(self):
        """method id -> list of ids it overrides (direct)."""
        if not hasattr(self, '_over'):
            o = {}
            for m in self.meth.values():
                if m.get('over'):
                    o[m['id']] = m['over']
            for f in self.fn.values():
                if f.get('over'):
                    o.setdefault(f['id'], f['over'])
            self._over = o
        return self._over

    def find_override(self, mid, cls):
        """The final overrider of method mid for dynamic class cls."""
        key = (mid, cls)
        if not hasattr(self, '_ovc'):
            self._ovc = {}
        if key in self._ovc:
            return self._ovc[key]
        over = self.overriders()

        def overrides(m):
            if m == mid:
                return True
            return any(overrides(x) for x in over.get(m, ()))
        res = None
        todo = [cls]
        while todo and res is None:
            c = todo.pop(0)
            r = self.rec.get(c)
            if not r:
                continue
            for m in r['methods']:
                if overrides(m['id']):
                    res = m['id']
                    break
            todo += r['bases']
        self._ovc[key] = res
        return res

    def fns(self, name):
        return self.by_name.get(name, [])

    def one(self, name, pred=None):
        c = [f for f in self.fns(name) if pred is None or pred(f)]
        if len(c) != 1:
            raise AnalysisBroken('expected one definition of %s, found %d' % (name, len(c)))
        return c[0]


def srcs(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    return out


def loc(f):
    return '%s:%d' % (os.path.relpath(f['file'], REPO), f['l'])


def walk(n):
    """Preorder over all AST dict nodes."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))

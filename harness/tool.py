"""Runs the command line tools at the top of the repository.

The tool's current source is executed as __main__. Symbolically: transformed like
the library, with standard streams and files that hold symbolic text and live in a
table (nothing is written to disk). Concretely (replay): as it is, with real files
in a scratch directory that is removed again. Process pools are replaced by
common.Pool in both.
"""
import builtins, errno, io, json, os, shutil, sys, tempfile
import multiprocessing
from . import common as c

REPO = os.environ.get('VERIF_REPO', '/repo')
SYMBOLIC = '__S__' in globals()
_code = {}


class Unsupported(BaseException):
    pass


def load(name):
    """compiles a tool (at harness load time)"""
    p = os.path.join(REPO, name + '.py')
    with open(p, encoding='utf-8') as f:
        src = f.read()
    if SYMBOLIC:
        from engine import instr
        _code[name] = instr.compile_source(src, p, name, True)
    else:
        _code[name] = compile(src, p, 'exec', dont_inherit=True)


class Pool(c.Pool):
    def __init__(self, n=None):
        self.n = n

    def terminate(self):
        pass

    def close(self):
        pass

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Result(object):
    """what a run left behind: out, err (text), status (exit status as the shell
    would see it), exc (uncaught exception or None), files {name: text}"""


class VIn(io.TextIOBase):
    """text file with (symbolic) content, for reading"""

    def __init__(self, content, seekable=True):
        self.c = content
        self.p = 0
        self.s = seekable

    def read(self, n=-1):
        e = len(self.c) if n is None or n < 0 else min(len(self.c), self.p + n)
        r = self.c[self.p:e]
        self.p = e
        return r

    def readline(self, n=-1):
        i = self.c.find('\n', self.p)
        return self.read((len(self.c) if i < 0 else i + 1) - self.p)

    def readlines(self, n=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        if self.p >= len(self.c):
            raise StopIteration()
        return self.readline()

    def readable(self):
        return True

    def seekable(self):
        return self.s

    def tell(self):
        if not self.s:
            raise io.UnsupportedOperation('tell')
        return self.p

    def seek(self, pos, whence=0):
        if not self.s or whence:
            raise io.UnsupportedOperation('seek')
        self.p = pos
        return pos


class VBin(io.RawIOBase):
    """binary file nobody may read here"""

    def read(self, n=-1):
        raise Unsupported('binary file')

    def readinto(self, b):
        raise Unsupported('binary file')


class VOut(io.TextIOBase):
    """text file for writing; the content goes to the table when something is written"""

    def __init__(self, put, start=''):
        self.text = start
        self.put = put
        put(start)

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        self.text = self.text + s
        self.put(self.text)
        return len(s)

    def writelines(self, parts):
        for p in parts:
            self.write(p)

    def writable(self):
        return True

    def flush(self):
        pass


class VPath(object):
    def __init__(self, fs):
        self.fs = fs

    def exists(self, p):
        q = self.fs.norm(p)
        return q in self.fs.files or q in self.fs.dirs

    def isdir(self, p):
        return self.fs.norm(p) in self.fs.dirs

    def isfile(self, p):
        return self.fs.norm(p) in self.fs.files

    def abspath(self, p):
        return self.fs.norm(p)

    def __getattr__(self, n):
        if n in ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath', 'sep'):
            return getattr(os.path, n)
        raise Unsupported('os.path.' + n)


class VOs(object):
    """the part of the os module that works on the table"""
    sep = '/'
    linesep = '\n'
    environ = {}
    name = 'posix'

    def __init__(self, fs):
        self.fs = fs
        self.path = VPath(fs)

    def mkdir(self, p, mode=0o777):
        if self.path.exists(p):
            raise FileExistsError(errno.EEXIST, 'exists', p)
        self.fs.dirs.add(self.fs.norm(p))

    def makedirs(self, p, mode=0o777, exist_ok=False):
        if self.path.exists(p) and exist_ok:
            return
        self.mkdir(p)

    def chdir(self, p):
        q = self.fs.norm(p)
        if q not in self.fs.dirs:
            raise FileNotFoundError(errno.ENOENT, 'no such directory', p)
        self.fs.cwd = q

    def getcwd(self):
        return self.fs.cwd

    def __getattr__(self, n):
        raise Unsupported('os.' + n)


class VFs(object):
    def __init__(self, files):
        self.files = {}
        self.cwd = '/work'
        self.dirs = set(['/work'])
        for n in files:
            self.files[self.norm(n)] = files[n]
            self.dirs.add(os.path.dirname(self.norm(n)))

    def norm(self, p):
        return os.path.normpath(os.path.join(self.cwd, p))

    def open(self, name, mode='r', *a, **kw):
        q = self.norm(name)
        m = mode.replace('t', '')
        if m == 'rb' and q in self.files:
            return VBin()
        if 'b' in m or '+' in m:
            raise Unsupported('open mode ' + mode)
        if m in ('r', ''):
            if q not in self.files:
                raise FileNotFoundError(errno.ENOENT, 'no such file', name)
            return VIn(self.files[q])
        if os.path.dirname(q) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, 'no such directory', name)
        if m == 'x' and q in self.files:
            raise FileExistsError(errno.EEXIST, 'exists', name)

        def put(text):
            self.files[q] = text
        return VOut(put, self.files[q] if m == 'a' and q in self.files else '')


class _Io(object):
    """the io module with the table's open"""

    def __init__(self, fs):
        self.open = fs.open

    def __getattr__(self, n):
        return getattr(io, n)


def run(name, argv, files=None, stdin='', modules=None, patch=()):
    """runs a tool. files: {name: text}; modules: stand-ins for imports;
    patch: [(object, attribute, value)] while the tool runs"""
    r = Result()
    r.exc = None
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    patch = list(patch) + [(multiprocessing, 'Pool', Pool)]
    old = [(o, a, getattr(o, a)) for o, a, v in patch]
    try:
        for o, a, v in patch:
            setattr(o, a, v)
        sys.argv = ['./' + name + '.py'] + list(argv)
        if SYMBOLIC:
            _symbolic(r, name, files or {}, stdin, modules or {})
        else:
            _concrete(r, name, files or {}, stdin, modules or {})
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        for o, a, v in old:
            setattr(o, a, v)
    return r


def _main(r, code, ns):
    try:
        exec(code, ns)
        r.status = 0
    except SystemExit as e:
        r.status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception as e:
        r.status = 1
        r.exc = e


def _symbolic(r, name, files, stdin, modules):
    fs = VFs(files)
    mods = dict(modules)
    mods['os'] = VOs(fs)
    mods['io'] = _Io(fs)
    r.out = r.err = ''

    def put_out(t):
        r.out = t

    def put_err(t):
        r.err = t
    sys.stdin = VIn(stdin, False)
    sys.stdout = VOut(put_out)
    sys.stderr = VOut(put_err)

    def vimport(n, g=None, l=None, fromlist=(), level=0):
        if n in mods:
            return mods[n]
        if n == 'os.path':
            return mods['os'].path if fromlist else mods['os']
        return builtins.__import__(n, g, l, fromlist, level)

    def vprint(*args, sep=' ', end='\n', file=None, flush=False):
        f = sys.stdout if file is None else file
        t = ''
        for i in range(len(args)):
            if i:
                t = t + (' ' if sep is None else sep)
            t = t + str(args[i])
        f.write(t + ('\n' if end is None else end))
    b = dict(vars(builtins))
    b.update(open=fs.open, print=vprint, __import__=vimport, _=_same)
    g = globals()
    _main(r, _code[name], {'__name__': '__main__', '__S__': g['__S__'], '__builtins__': b,
                           '__file__': os.path.join(REPO, name + '.py')})
    r.files = {}
    for q in fs.files:
        r.files[os.path.relpath(q, '/work')] = fs.files[q]


def _same(s):
    return s


class _Pipe(io.RawIOBase):
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def readinto(self, b):
        return self.f.readinto(b)

    def readable(self):
        return True


def _concrete(r, name, files, stdin, modules):
    d = tempfile.mkdtemp(prefix='rksv-tool-')
    cwd = os.getcwd()
    mods = {}
    out, err = io.BytesIO(), io.BytesIO()
    try:
        for n in files:
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with io.open(os.path.join(d, n), 'w', encoding='utf-8', newline='') as f:
                f.write(files[n])
        os.chdir(d)
        for n in modules:
            mods[n] = sys.modules.get(n)
            sys.modules[n] = modules[n]
        sys.stdin = io.TextIOWrapper(io.BufferedReader(_Pipe(stdin.encode('utf-8'))), 'utf-8')
        sys.stdout = io.TextIOWrapper(out, 'utf-8', write_through=True)
        sys.stderr = io.TextIOWrapper(err, 'utf-8', write_through=True)
        _main(r, _code[name], {'__name__': '__main__', '__builtins__': builtins,
                               '__file__': os.path.join(REPO, name + '.py')})
        sys.stdout.flush()
        sys.stderr.flush()
        r.out = out.getvalue().decode('utf-8')
        r.err = err.getvalue().decode('utf-8')
        r.files = {}
        for b, _d, fn in os.walk(d):
            for n in fn:
                with io.open(os.path.join(b, n), encoding='utf-8', newline='') as f:
                    r.files[os.path.relpath(os.path.join(b, n), d)] = f.read()
    finally:
        os.chdir(cwd)
        for n in mods:
            if mods[n] is None:
                del sys.modules[n]
            else:
                sys.modules[n] = mods[n]
        shutil.rmtree(d, ignore_errors=True)


def session(name, files, modules, body, patch=()):
    """executes a program as a module and calls body(namespace, directory, read)
    while files and stand-ins are there; read(name) gives the text of a file or None"""
    patch = list(patch)
    old = [(o, a, getattr(o, a)) for o, a, v in patch]
    try:
        for o, a, v in patch:
            setattr(o, a, v)
        if SYMBOLIC:
            fs = VFs(files)
            mods = dict(modules)
            mods['os'] = VOs(fs)
            mods['io'] = _Io(fs)

            def vimport(n, g=None, l=None, fromlist=(), level=0):
                if n in mods:
                    if not fromlist and '.' in n:
                        return mods[n.split('.')[0]]
                    return mods[n]
                return builtins.__import__(n, g, l, fromlist, level)
            b = dict(vars(builtins))
            b.update(open=fs.open, __import__=vimport, _=_same)
            g = globals()
            ns = {'__name__': name, '__S__': g['__S__'], '__builtins__': b, '__file__': os.path.join(REPO, name + '.py')}
            exec(_code[name], ns)

            def read(n):
                return fs.files.get(fs.norm(n))
            return body(ns, '/work', read)
        d = tempfile.mkdtemp(prefix='rksv-tool-')
        mods = {}
        try:
            for n in files:
                with io.open(os.path.join(d, n), 'w', encoding='utf-8', newline='') as f:
                    f.write(files[n])
            for n in modules:
                mods[n] = sys.modules.get(n)
                sys.modules[n] = modules[n]
            ns = {'__name__': name, '_': _same, '__builtins__': builtins, '__file__': os.path.join(REPO, name + '.py')}
            exec(_code[name], ns)

            def read(n):
                try:
                    with io.open(os.path.join(d, n), encoding='utf-8', newline='') as f:
                        return f.read()
                except IOError:
                    return None
            return body(ns, d, read)
        finally:
            for n in mods:
                if mods[n] is None:
                    del sys.modules[n]
                else:
                    sys.modules[n] = mods[n]
            shutil.rmtree(d, ignore_errors=True)
    finally:
        for o, a, v in old:
            setattr(o, a, v)

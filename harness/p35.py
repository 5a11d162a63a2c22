"""P35 The image decoder reports every QR code of every image."""
import types
from . import common as c, tool

tool.load('img_decode')
TYPES = ['QRCODE', 'EAN13', 'CODE128', 'qrcode']
CODES = dict(QRCODE=64, EAN13=13, CODE128=128, qrcode=0)


SAMPLES = dict(RGB=3, RGBA=4, L=1, P=1)


def grey(mode, data):
    """some conversion to grey"""
    if mode == 'P':
        return [255 - x for x in data]
    n = SAMPLES[mode]
    return [data[i + n // 2] for i in range(0, len(data), n)]


class Raw(object):
    """pixels as the imaging library holds them"""

    def __init__(self, mode, size, data):
        self.mode, self.size, self.data = mode, size, data
        self.width, self.height = size

    def convert(self, mode=None, *a, **kw):
        if mode == self.mode or mode is None:
            return self.copy()
        if mode == 'L':
            return Old.of(self, 'L', grey(self.mode, self.data))
        return Old.of(self, mode, [0])

    def copy(self):
        return Old.of(self, self.mode, self.data)

    def load(self):
        return None

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class New(Raw):
    def tobytes(self, *a):
        return bytes(self.data)


class Old(Raw):
    """versions of the library before tobytes"""

    def tostring(self, *a):
        return bytes(self.data)

    @staticmethod
    def of(image, mode, data):
        return (New if isinstance(image, New) else Old)(mode, image.size, data)


class Kind(object):
    """the symbol types of zbar are objects that print as their names"""

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


class Sym(object):
    """a symbol, as both libraries show it"""

    def __init__(self, t, d):
        self.t, self.type, self.data = t, Kind(t), d

    def getType(self):
        return CODES[self.t]

    def getData(self):
        return self.data


class Scanners(object):
    """the decoding library: finds what was planned if it is given the right pixels"""

    def __init__(self, plan):
        # [(size, grey pixels, [(type, text)])]
        self.plan = plan

    def find(self, width, height, fmt, raw):
        if fmt != 'Y800':
            return []
        for size, raw_grey, syms in self.plan:
            if size == (width, height) and bytes(raw) == raw_grey:
                return syms
        return []


def zbar(scanners):
    m = types.ModuleType('zbar')

    class Image(object):
        def __init__(self, width, height, format=None, data=None):
            self.args = width, height, format, data
            self.found = []

        def __iter__(self):
            return iter([Sym(t, d) for t, d in self.found])

        @property
        def symbols(self):
            return list(self)

    class ImageScanner(object):
        def scan(self, img):
            img.found = scanners.find(*img.args)
            return len(img.found)
    m.Image, m.ImageScanner = Image, ImageScanner
    return m


def jnius(scanners):
    m = types.ModuleType('jnius')

    class Image(object):
        def __init__(self, width, height, format):
            self.args = width, height, format
            self.raw = b''
            self.found = []

        def setData(self, raw):
            self.raw = raw

        def getSymbols(self):
            return self

        def iterator(self):
            self.at = 0
            return self

        def hasNext(self):
            return self.at < len(self.found)

        def next(self):
            t, d = self.found[self.at]
            self.at += 1
            return Sym(t, d)

    class ImageScanner(object):
        def scanImage(self, img):
            img.found = scanners.find(*(img.args + (img.raw,)))
            return len(img.found)

    class Symbol(object):
        QRCODE = 64
    classes = {'net.sourceforge.zbar.Image': Image, 'net.sourceforge.zbar.ImageScanner': ImageScanner,
               'net.sourceforge.zbar.Symbol': Symbol}
    m.autoclass = lambda n: classes[n]
    return m


def decode(env):
    """images with any codes, with either library"""
    n = env.choose('images', [1, 2, 0])
    new = env.choose('tobytes', [New, Old])
    images = {}
    plan = []
    want = ''
    for i in range(n):
        mode = env.choose('mode%d' % i, ['RGB', 'L', 'P', 'RGBA'] if n < 2 else [['L', 'RGBA'], ['RGB', 'P']][i])
        size = [(1, 2), (3, 1)][i]
        count = size[0] * size[1]
        px = env.bytes('px%d' % i, count * SAMPLES[mode])
        data = [px[k] for k in range(len(px))]
        img = new(mode, size, data)
        syms = []
        for j in range(env.choose('codes%d' % i, [0, 1, 2] if n > 1 else [0, 1, 2, 3])):
            t = env.choose('type%d%d' % (i, j), TYPES if j == 0 else TYPES[:2])
            x = '_R1' + env.str('text%d%d' % (i, j), 1, 'aZ0_=+/\xe4')
            syms.append((t, x))
            if t == 'QRCODE':
                want = want + x + '\n'
        images['img%d' % i] = img
        plan.append((size, bytes(grey(mode, data)), syms))
    names = sorted(images)
    if n > 1 and env.choose('backwards', [0, 1]):
        names.reverse()
        want = ''
        for k in (1, 0):
            for t, x in plan[k][2]:
                if t == 'QRCODE':
                    want = want + x + '\n'
    s = Scanners(plan)
    pil = types.ModuleType('PIL')
    pil.Image = types.SimpleNamespace(open=lambda f, *a: images[f])
    mods = {'PIL': pil, 'PIL.Image': pil.Image}
    lib = env.choose('library', ['zbar', 'jnius'])
    if lib == 'zbar':
        mods['zbar'] = zbar(s)
    else:
        mods['jnius'] = jnius(s)
    r = tool.run('img_decode', names, {}, modules=mods)
    env.check(r.exc is None and r.status == 0, 'images can be decoded')
    if n == 0:
        return
    env.check(r.out == want, 'the QR codes of all images are printed, in order, and nothing else')


CASES = [dict(name='decode', fn=decode)]
BOUNDS = ('up to two images of 2-3 arbitrary pixels in colour, with a palette or grey, with up to 3 codes of 4 kinds each and arbitrary content, both '
          'decoding libraries, both interfaces of the imaging library')
OUTSIDE = 'the decoding itself (zbar) and reading of image files (PIL), which stand-ins replace here; larger images'
ASSUMPTIONS = ['the decoder finds the codes of an image exactly if it is given its size and its grey pixels']

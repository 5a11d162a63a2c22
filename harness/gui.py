"""Stand-ins for the parts of kivy the graphical tool uses.

Widgets keep their attributes, dialogs are recorded when they open, jobs given to the
process pool wait until the harness lets them run (arguments and results pass through
pickling, a job that raises never calls back), and what is scheduled for the main
thread runs between two user actions.
"""
import multiprocessing, pickle, types
from . import tool


class State(object):
    def __init__(self):
        self.dialogs = []
        self.jobs = []
        self.clock = []
        self.app = None
        self.lost = 0


G = State()


class Property(object):
    def __init__(self, default=None, **kw):
        self.default = default

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.get('p:' + self.name, self.default)

    def __set__(self, obj, value):
        obj.__dict__['p:' + self.name] = value


class Widget(object):
    text = ''
    disabled = False
    state = 'normal'
    background_color = (1, 1, 1, 1)

    def __init__(self, **kw):
        self.children = []
        self.nodes = []
        self.parent_node = None
        self.handlers = {}
        for k in kw:
            if k.startswith('on_'):
                self.handlers[k] = kw[k]
            else:
                setattr(self, k, kw[k])
        for n, cls, values in KV.get(type(self).__name__, ()):
            w = cls()
            for k in values:
                setattr(w, k, values[k])
            setattr(self, n, w)
        if type(self).__name__ == 'VerifyReceiptWidget':
            self.buttons = dict((k, Widget()) for k in ('JWS', 'QR', 'OCR', 'URL'))
        if hasattr(self, 'on_treeView'):
            self.on_treeView(self, self.treeView)

    def add_widget(self, w):
        self.children.append(w)

    def bind(self, **kw):
        self.handlers.update(kw)

    def press(self):
        self.handlers['on_press'](self)


class TreeView(Widget):
    def __init__(self, **kw):
        Widget.__init__(self, **kw)
        self.root = Widget(text='Root')

    def add_node(self, node, parent=None):
        p = self.root if parent is None else parent
        p.nodes.append(node)
        node.parent_node = p
        return node

    def remove_node(self, node):
        p = node.parent_node
        if p is not None:
            p.nodes.remove(node)
            node.parent_node = None

    def iterate_all_nodes(self, node=None):
        if node is None:
            node = self.root
        yield node
        for n in node.nodes:
            for x in self.iterate_all_nodes(n):
                yield x


KV = {
    'ViewReceiptWidget': [('verify_button', Widget, dict(text='Verify')), ('decrypt_button', Widget, {}), ('aes_input', Widget, {})],
    'VerifyReceiptWidget': [('receiptInput', Widget, {}), ('loadLayout', Widget, {})],
    'VerifyDEPWidget': [('verify_button', Widget, dict(text='Verify', disabled=True)), ('treeView', TreeView, {}), ('aesInput', Widget, {})],
    'KeyStoreWidget': [('treeView', TreeView, {})],
}


class Modal(Widget):
    content = None

    def open(self):
        G.dialogs.append(self)
        if 'on_open' in self.handlers:
            self.handlers['on_open'](self)

    def dismiss(self, *a):
        pass

    def shown(self):
        return self.content if self.content is not None else self.children[0]


class Adapter(object):
    def __init__(self, sorted_keys=None, data=None, args_converter=None, cls=None):
        self.sorted_keys = sorted_keys
        self.data = data
        self.args_converter = args_converter
        self.cls = cls


class App(object):
    def __init__(self):
        pass

    @staticmethod
    def get_running_app():
        return G.app


class Clock(object):
    @staticmethod
    def schedule_once(f, t=0):
        G.clock.append((f, (t,)))


def mainthread(f):
    def later(*args):
        G.clock.append((f, args))
    return later


class Window(object):
    height = 600
    keyboard_height = 0
    children = []

    @staticmethod
    def bind(**kw):
        pass


class Pool(object):
    def __init__(self, n=None, init=None, args=()):
        self.alive = True

    def terminate(self):
        self.alive = False

    def close(self):
        pass

    def join(self):
        pass

    def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
        G.jobs.append((self, f, [args], False, callback, error_callback, kwds or {}))

    def map_async(self, f, items, chunksize=None, callback=None, error_callback=None):
        G.jobs.append((self, f, [(x,) for x in items], True, callback, error_callback, {}))


def work():
    """runs the oldest job; False if there is none"""
    while G.jobs:
        pool, f, calls, many, cb, err, kw = G.jobs.pop(0)
        if not pool.alive:
            continue
        out = []
        try:
            for a in calls:
                a = pickle.loads(pickle.dumps(a))
                out.append(pickle.loads(pickle.dumps(f(*a, **kw))))
        except Exception as e:
            G.lost += 1
            if err is not None:
                err(e)
            return True
        if cb is not None:
            cb(out if many else out[0])
        return True
    return False


def frame():
    """what is scheduled for the main thread"""
    while G.clock:
        f, args = G.clock.pop(0)
        f(*args)


def settle(n=100):
    frame()
    while n > 0 and work():
        frame()
        n -= 1
    frame()


class NoImage(object):
    @staticmethod
    def open(f):
        raise IOError('no image')


def module(name, **kw):
    m = types.ModuleType(name)
    for k in kw:
        setattr(m, k, kw[k])
    return m


def _require(v):
    pass


def _no_codes(img):
    return []


def modules():
    m = {}
    for n, kw in (('kivy', dict(require=_require)), ('kivy.adapters', {}), ('kivy.adapters.dictadapter', dict(DictAdapter=Adapter)),
                  ('kivy.app', dict(App=App)), ('kivy.core', {}), ('kivy.core.window', dict(Window=Window)),
                  ('kivy.clock', dict(mainthread=mainthread, Clock=Clock)),
                  ('kivy.properties', dict(ObjectProperty=Property, DictProperty=Property)), ('kivy.uix', {}),
                  ('kivy.utils', dict(platform='linux')), ('PIL', dict(Image=NoImage)), ('img_decode', dict(read_qr_codes=_no_codes))):
        m[n] = module(n, **kw)
    for n, names in (('boxlayout', ['BoxLayout']), ('button', ['Button']), ('floatlayout', ['FloatLayout']), ('gridlayout', ['GridLayout']),
                     ('listview', ['CompositeListItem', 'ListItemButton', 'ListItemLabel']), ('selectableview', ['SelectableView']),
                     ('treeview', ['TreeViewNode', 'TreeViewLabel'])):
        m['kivy.uix.' + n] = module('kivy.uix.' + n, **dict((x, type(x, (Widget,), {})) for x in names))
    m['kivy.uix.treeview'].TreeView = TreeView
    m['kivy.uix.modalview'] = module('kivy.uix.modalview', ModalView=Modal)
    m['kivy.uix.popup'] = module('kivy.uix.popup', Popup=type('Popup', (Modal,), {}))
    # mixins next to widgets must not get in each other's way
    m['kivy.uix.treeview'].TreeViewNode = type('TreeViewNode', (object,), {})
    m['kivy.uix.selectableview'].SelectableView = type('SelectableView', (object,), {})
    return m


def run(files, body, patch=()):
    """starts the graphical tool; body(ns, path, read)"""
    G.__init__()

    def start(ns, path, read):
        G.app = ns['RKToolApp'](2)
        G.app.on_start()
        return body(ns, path, read)
    return tool.session('rktool', files, modules(), start, list(patch) + [(multiprocessing, 'Pool', Pool)])


def errors(ns):
    """errors shown so far"""
    return [d.shown().exception for d in G.dialogs if isinstance(d.shown(), ns['ErrorDialog'])]

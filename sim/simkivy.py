"""A small stand-in for the kivy toolkit: widgets, properties, events, the
clock and an interpreter for the kv layout language, enough to run rktool.py
and rktool.kv unchanged. Nothing is drawn; the user is the scenario."""
import os
import sys
import types

from . import env
from .core import HarnessError, Violation

MODULES = {}


class Prop:
    """ObjectProperty & co: a value per widget, change calls on_<name>."""

    def __init__(self, default=None, kind=None, **kw):
        self.default, self.kind = default, kind

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.get('_p_' + self.name, self.default)

    def __set__(self, obj, value):
        if self.kind is str and not isinstance(value, str):
            raise ValueError('%s.%s accept only str' % (type(obj).__name__,
                self.name))
        UI.cur.touch(obj, self.name)
        old = self.__get__(obj)
        obj.__dict__['_p_' + self.name] = value
        if old is not value and old != value or type(old) != type(value):
            h = getattr(obj, 'on_' + self.name, None)
            if h is not None:
                h(obj, value)
            b = obj.__dict__.get('_bound', {})
            for f in list(b.get(self.name, ())) + list(b.get('on_' +
                    self.name, ())):
                f(obj, value)


def StringProp(default=''):
    return Prop(default, kind=str)


class Widget:
    disabled = Prop(False)
    height = Prop(100)
    width = Prop(100)

    def __init__(self, **kw):
        UI.cur.touch(self, 'created')
        self.children = []
        self.parent = None
        self._ids = {}
        d = self.__dict__.setdefault('_bound', {})
        UI.cur.apply_rules(self)
        for k, v in kw.items():
            if k.startswith('on_'):
                d.setdefault(k, []).append(v)
            else:
                setattr(self, k, v)

    def bind(self, **kw):
        for k, v in kw.items():
            self.__dict__.setdefault('_bound', {}).setdefault(k, []).append(v)

    def dispatch(self, ev, *a):
        h = getattr(self, ev, None)
        if callable(h):
            h(*a)
        for f in list(self._bound.get(ev, ())):
            f(self, *a)

    def add_widget(self, w, *a):
        if not isinstance(w, Widget):
            raise TypeError('only widgets can be added')
        if w.parent is not None:
            raise ValueError('Cannot add %r, it already has a parent' % w)
        w.parent = self
        self.children.append(w)

    def remove_widget(self, w):
        if w in self.children:
            self.children.remove(w)
            w.parent = None

    def walk(self):
        yield self
        for c in list(self.children):
            for w in c.walk():
                yield w


class Text(Widget):
    text = StringProp('')


class TextInput(Text):
    pass


class Label(Text):
    pass


class Button(Label):
    state = Prop('normal')
    background_color = Prop((1, 1, 1, 1))


class CheckBox(Button):
    pass


class Box(Widget):
    minimum_height = Prop(0)


class SelectableView(Widget):
    pass


class FileChooser(Widget):
    path = Prop('')
    selection = Prop(())


class DictAdapter:
    def __init__(self, sorted_keys=(), data=None, args_converter=None,
            cls=None, **kw):
        self.sorted_keys, self.data = list(sorted_keys), data
        self.args_converter, self.cls = args_converter, cls

    def rows(self):
        return [self.args_converter(i, self.data[k]) for i, k in
            enumerate(self.sorted_keys) if k in self.data]


class ListView(Widget):
    adapter = Prop(None)


class TreeViewNode:
    """Mixed into widgets."""

    @property
    def nodes(self):
        return self.__dict__.setdefault('_nodes', [])

    parent_node = None


class TreeViewLabel(Label, TreeViewNode):
    pass


class TreeView(Widget):
    def __init__(self, **kw):
        self.root = None
        super().__init__(**kw)
        self.root = TreeViewLabel(text='Root')

    def add_node(self, node, parent=None):
        if not isinstance(node, TreeViewNode):
            raise TypeError('The node must be a subclass of TreeViewNode')
        if parent is None and self.root is not None:
            parent = self.root
        if parent is not None:
            parent.nodes.append(node)
            node.parent_node = parent
        node.__dict__['_tree'] = self
        return node

    def remove_node(self, node):
        # as kivy: a node that is no longer in the tree is ignored
        p = node.parent_node
        if p is not None and node in p.nodes:
            p.nodes.remove(node)
            node.parent_node = None

    def iterate_all_nodes(self, node=None):
        if node is None:
            node = self.root
        yield node
        # walks the live list, as the original does
        for n in node.nodes:
            for s in self.iterate_all_nodes(n):
                yield s

    def walk(self):
        yield self
        if self.root is not None:
            for n in list(self.iterate_all_nodes()):
                if n is not self.root:
                    yield n


class ModalView(Widget):
    auto_dismiss = Prop(True)

    def open(self, *a):
        UI.cur.modals.append(self)
        UI.cur.clock.schedule_once(lambda dt: self.dispatch('on_open'), 0.1)

    def dismiss(self, *a, **kw):
        if self in UI.cur.modals:
            UI.cur.modals.remove(self)
            UI.cur.clock.schedule_once(lambda dt: self.dispatch('on_dismiss'),
                0.1)


class Popup(ModalView):
    title = StringProp('')
    content = Prop(None)

    def walk(self):
        yield self
        if self.content is not None:
            for w in self.content.walk():
                yield w


class ScreenManager(Widget):
    current = Prop('')


class Screen(Widget):
    name = Prop('')


class Clock:
    def __init__(self):
        self.now = 0.0
        self.n = 0
        self.events = []

    def schedule_once(self, f, timeout=0):
        self.n += 1
        self.events.append((self.now + max(0, timeout), self.n, f))
        return f

    def frame(self, dt=0.05):
        """One frame of the main loop: everything due by now."""
        self.now += dt
        due = sorted(e for e in self.events if e[0] <= self.now)
        self.events = [e for e in self.events if e[0] > self.now]
        for t, n, f in due:
            f(dt)
        return len(due)


class Window:
    height, keyboard_height = 600, 0

    def __init__(self):
        self.children = []

    def bind(self, **kw):
        pass


class App:
    def __init__(self, **kw):
        UI.cur.app = self

    @staticmethod
    def get_running_app():
        return UI.cur.app

    def stop(self):
        UI.cur.stopped = True
        self.on_stop()

    def on_stop(self):
        pass

    def on_start(self):
        pass

    def build(self):
        return None


def mainthread(f):
    import functools

    @functools.wraps(f)
    def g(*a, **kw):
        UI.cur.clock.schedule_once(lambda dt: f(*a, **kw), 0)
    return g


# ------------------------------------------------------------------ kv layout

class Node:
    def __init__(self, name):
        self.name, self.props, self.kids, self.id = name, [], [], None


def parse_kv(text):
    """-> (imports, [(class, base, Node)])"""
    imports, rules, stack = [], [], []
    for raw in text.splitlines():
        if raw.startswith('#:import'):
            imports.append(raw.split()[1:3])
            continue
        line = raw.strip()
        if not line or line.startswith('#'):
            continue
        depth = len(raw) - len(raw.lstrip('\t'))
        if raw.lstrip('\t') != raw.lstrip():
            raise HarnessError('kv: indented with blanks: %r' % raw)
        if depth == 0:
            if line.startswith('<') and line.endswith('>:'):
                name, _, base = line[1:-2].partition('@')
                n = Node(name)
                rules.append((name, base or None, n))
                stack = [n]
                continue
            raise HarnessError('kv: ' + raw)
        stack = stack[:depth]
        top = stack[-1]
        head, _, rest = line.partition(':')
        rest = rest.strip()
        if head[0].isupper():
            n = Node(head)
            top.kids.append(n)
            stack.append(n)
        elif head == 'id':
            top.id = rest
        else:
            top.props.append((head, rest))
    return imports, rules


_kv = {}


def kv_of(name):
    if name not in _kv:
        with open(os.path.join(env.REPO, name), encoding='utf-8') as f:
            _kv[name] = parse_kv(f.read())
    return _kv[name]


# evaluated when the layout is built; sizes and positions mean nothing here
IGNORED = ('size', 'pos', 'pos_hint', 'size_hint', 'size_hint_x',
    'size_hint_y', 'text_size', 'height', 'width', 'tab_width', 'halign',
    'valign', 'padding_x', 'root_options', 'size_hint_min_y')


class UI:
    """One simulated screen."""
    cur = None

    def __init__(self, kv, classes):
        self.clock = Clock()
        self.modals = []
        self.app = None
        self.root = None
        self.stopped = False
        self.off_main = False
        self.window = Window()
        imports, rules = kv_of(kv)
        self.glob = {}
        for name, mod in imports:
            self.glob[name] = __import__(mod)
        self.rules = {}
        self.dyn = {}
        for name, base, node in rules:
            self.rules.setdefault(name, []).append(node)
            if base:
                self.dyn[name] = base
        self.classes = classes
        self.dyncls = {}

    def cls(self, name):
        c = self.classes(name)
        if c is not None:
            return c
        if name not in self.dyncls:
            base = self.cls(self.dyn[name]) if name in self.dyn else Box
            self.dyncls[name] = type(name, (base,), {})
        return self.dyncls[name]

    def apply_rules(self, w):
        for c in reversed(type(w).__mro__):
            for node in self.rules.get(c.__name__, ()):
                self._apply(w, node)

    def _apply(self, root, rule):
        ids = {}
        todo = []

        def build(w, node):
            if node.id:
                ids[node.id] = w
            todo.append((w, node))
            for k in node.kids:
                child = self.cls(k.name)()
                if isinstance(w, Popup):
                    w.content = child
                else:
                    w.add_widget(child)
                build(child, k)
        build(root, rule)
        root._ids.update(ids)

        def scope(w):
            import builtins
            g = {'__builtins__': builtins, 'root': root, 'self': w,
                'app': self.app, '_': builtins._}
            g.update(self.glob)
            g.update(ids)
            return g
        for w, node in todo:
            for name, expr in node.props:
                if name.startswith('on_'):
                    code = compile(expr, 'rktool.kv', 'exec')
                    w._bound.setdefault(name, []).append(
                        lambda inst, *a, code=code, w=w: exec(code, scope(w)))
        for w, node in todo:
            for name, expr in node.props:
                if name.startswith('on_') or name in IGNORED:
                    continue
                code = compile(expr, 'rktool.kv', 'eval')
                if 'self.parent' in expr or 'root.' in expr or \
                        'vr_i.' in expr or '_w.adapter' in expr:
                    # follows the other widget's property: seen when needed
                    w.__dict__.setdefault('_lazy', {})[name] = \
                        lambda code=code, w=w: eval(code, scope(w))
                    continue
                setattr(w, name, eval(code, scope(w)))

    def touch(self, w, what):
        if self.off_main:
            raise Violation('ui-outside-main-thread', 'a callback of the '
                'worker pool, which runs in a thread of its own, changes the '
                'display (%s %s)' % (type(w).__name__, what))

    # ---- the user
    def top(self):
        return self.modals[-1] if self.modals else self.root

    def widgets(self, kind=Widget):
        return [w for w in self.top().walk() if isinstance(w, kind)]

    def buttons(self):
        return [b for b in self.widgets(Button)]

    def label(self, b):
        lazy = b.__dict__.get('_lazy', {})
        return lazy['text']() if 'text' in lazy else b.text

    def press(self, b):
        if b.disabled:
            return False
        b.dispatch('on_press')
        b.dispatch('on_release')
        return True


def install():
    """Put the stand-ins where rktool.py imports them from."""
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        sys.modules[name] = m
        if '.' in name:
            p, _, c = name.rpartition('.')
            setattr(sys.modules[p], c, m)
        return m

    class ClockProxy:
        def schedule_once(self, f, t=0):
            return UI.cur.clock.schedule_once(f, t)

    class WindowProxy:
        def __getattr__(self, a):
            return getattr(UI.cur.window, a)

    mod('kivy', require=lambda v: None, __version__='1.11.1')
    mod('kivy.adapters')
    mod('kivy.adapters.dictadapter', DictAdapter=DictAdapter)
    mod('kivy.app', App=App)
    mod('kivy.core')
    mod('kivy.core.window', Window=WindowProxy())
    mod('kivy.clock', mainthread=mainthread, Clock=ClockProxy())
    mod('kivy.properties', ObjectProperty=Prop, DictProperty=Prop,
        StringProperty=StringProp, BooleanProperty=Prop, NumericProperty=Prop,
        ListProperty=Prop)
    mod('kivy.uix')
    for name, cls in (('boxlayout', {'BoxLayout': Box}),
            ('button', {'Button': Button}),
            ('floatlayout', {'FloatLayout': Box}),
            ('gridlayout', {'GridLayout': Box}),
            ('label', {'Label': Label}),
            ('textinput', {'TextInput': TextInput}),
            ('widget', {'Widget': Widget}),
            ('listview', {'CompositeListItem': Box, 'ListItemButton': Button,
                'ListItemLabel': Label, 'ListView': ListView}),
            ('modalview', {'ModalView': ModalView}),
            ('popup', {'Popup': Popup}),
            ('selectableview', {'SelectableView': SelectableView}),
            ('treeview', {'TreeView': TreeView, 'TreeViewNode': TreeViewNode,
                'TreeViewLabel': TreeViewLabel}),
            ('screenmanager', {'NoTransition': object,
                'ScreenManager': ScreenManager, 'Screen': Screen}),
            ('image', {'Image': Box})):
        mod('kivy.uix.' + name, **cls)
    mod('kivy.utils', platform='linux')
    mod('kivy.config', Config=types.SimpleNamespace(set=lambda *a: None))


BUILTIN = {'Button': Button, 'ActionButton': Button, 'ActionPrevious': Button,
    'TextInput': TextInput, 'Label': Label, 'CheckBox': CheckBox,
    'TreeView': TreeView, 'ListView': ListView,
    'FileChooserListView': FileChooser, 'BoxLayout': Box, 'GridLayout': Box,
    'FloatLayout': Box, 'TreeViewLabel': TreeViewLabel}

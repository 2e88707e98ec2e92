"""Renders a journal as JSON text in the layouts other producers may use."""
import json

G = ('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt')
ORDERS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def gen_layout(rng):
    return {
        'order': [rng.randrange(6) for _ in range(3)] if rng.random() < 0.7
            else [0],
        'indent': rng.choice([0, 0, 1, 2]),
        'bom': rng.random() < 0.2,
        'esc': rng.randrange(3),
        'extra': [rng.randrange(12) for _ in range(rng.choice([0, 0, 1, 3]))],
        'pad': rng.choice([0] * 12 + [70000]),
        'empty': [rng.randrange(4) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
    }


def _extra(i):
    return [
        ('Kassen-ID', 'abc'),
        ('note', {'Belege-Gruppe': [{'Belege-kompakt': ['x.y.z']}]}),
        ('n', 12345678901234567890),
        ('f', -1.5e3),
        ('nil', None),
        ('list', [1, [2, {'Signaturzertifikat': 'bogus'}], []]),
        ('item', {'item': ['item']}),
        ('Zertifizierungsstellen2', ['zz']),
        ('t', True),
        ('', 'empty key'),
        ('Belege', {'Belege-kompakt': ['a'], 'Zertifizierungsstellen': []}),
        ('\u00dcmlaut', '\u20ac"\\/\b\n'),
    ][i % 12]


def render(dep, lay):
    """Text of the DEP. dep: {'Belege-Gruppe': [...]}"""
    order = lay.get('order') or [0]
    extra = lay.get('extra') or []
    groups = []
    for gi, g in enumerate(dep['Belege-Gruppe']):
        o = [(G[k], g[G[k]]) for k in ORDERS[order[gi % len(order)] % 6]
            if G[k] in g]
        for n, e in enumerate(extra):
            if e % 2 == gi % 2:
                k, v = _extra(e)
                if k not in [x[0] for x in o]:
                    o.insert((e + n) % (len(o) + 1), (k, v))
        groups.append(o)
    # empty groups are legal and carry no receipts
    for e in lay.get('empty') or []:
        src = dep['Belege-Gruppe'][e % len(dep['Belege-Gruppe'])]
        groups.insert(e % (len(groups) + 1), [(G[0], src[G[0]]),
            (G[1], src[G[1]]), (G[2], [])])
    root = []
    for n, e in enumerate(extra):
        k, v = _extra(e)
        if k not in [x[0] for x in root] and e % 3 != 2:
            root.append((k, v))
    if lay.get('pad'):
        root.append(('padding', 'x' * lay['pad']))
    pos = (extra[0] if extra else 0) % (len(root) + 1)
    root.insert(pos, ('Belege-Gruppe', groups))
    txt = _dump(root, lay.get('indent') or 0, lay.get('esc', 0), 0)
    return ('\ufeff' if lay.get('bom') else '') + txt


def _str(s, esc):
    if esc == 0:
        return json.dumps(s)
    if esc == 1:
        return json.dumps(s, ensure_ascii=False)
    t = json.dumps(s)
    return t.replace('/', '\\/').replace('A', '\\u0041') if '\\' not in t \
        else t


class _Obj(list):
    pass


def _dump(v, indent, esc, lvl):
    nl = '\n' + ' ' * (indent * (lvl + 1)) if indent else ''
    end = '\n' + ' ' * (indent * lvl) if indent else ''
    if isinstance(v, list) and v and all(isinstance(x, tuple) for x in v):
        return '{' + ','.join(nl + _str(k, esc) + ':' + (' ' if indent else '')
            + _dump(x, indent, esc, lvl + 1) for k, x in v) + end + '}'
    if isinstance(v, dict):
        return _dump(list(v.items()), indent, esc, lvl) if v else '{}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(nl + _dump(x, indent, esc, lvl + 1)
            for x in v) + end + ']'
    if isinstance(v, str):
        return _str(v, esc)
    return json.dumps(v)


def bytes_of(text):
    return text.encode('utf-8')

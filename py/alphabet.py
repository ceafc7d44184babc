"""Alphabets of operations for the exhaustive exploration (spec/OxMC)."""


def add(n, bad=False):
    return {'op': 'add', 'auto': False, 'name': n, 'cp': [1] if bad else [], 'tok': ''}


AUTO = {'op': 'add', 'auto': True, 'name': '', 'cp': [], 'tok': 'auto'}
SAVE, CLOSE, DELETE, LIST = {'op': 'save'}, {'op': 'close'}, {'op': 'delete'}, {'op': 'list'}


def get(n):
    return {'op': 'get', 'auto': False, 'name': n, 'cp': [], 'tok': ''}


def rename(a, b):
    return {'op': 'rename', 'old': a, 'new': b, 'cp': []}


def active(n):
    return {'op': 'active', 'name': n}


def hide(n):
    return {'op': 'hide', 'name': n}


def view(k, v):
    return {'op': 'view', 'kind': k, 'v': v}


def style(tok, s):
    return {'op': 'style', 'tok': tok, 's': s}


def cell(v='v1', t='auto', f=None, sty='', empty=False):
    return {'v': v, 'hv': not empty, 'cp': [], 't': t, 'f': f or 'f1', 'hf': f is not None, 'fcp': [], 'sty': sty, 'num': False, 'nv': ''}


def cells(r, c, *cs, byref=False, bad=False):
    return {'op': 'cells', 'byref': byref or bad, 'refcp': [49] if bad else [64 + c, 48 + r], 'row': r, 'col': c, 'cells': list(cs)}


def row(r, sty='', **k):
    return {'op': 'row', 'row': r, 'p': {'ht': str(k.get('ht', 0)), 'hidden': k.get('hidden', False), 'tt': k.get('tt', False), 'tb': k.get('tb', False), 'sty': sty}}


def col(c, sty='', clear=False, byref=False, **k):
    return {'op': 'col', 'byref': byref, 'refcp': [64 + c], 'col': c, 'clear': clear,
            'p': {'w': str(k.get('w', 0)), 'hidden': k.get('hidden', False), 'bf': k.get('bf', False), 'sty': sty}}


H2 = ['h1', 'h2']

LIFE = [add('n1'), add('l1'), AUTO, get('l1'), get('l2'), CLOSE, DELETE, rename('l1', 'n1'), rename('n1', 'l1'), rename('l2', 'l1'), SAVE]
ALPHABETS = {
    # the life of sheets: names, handles, positions, window
    'life': dict(alphabet=LIFE, handles=H2, depth={'quick': 4, 'thorough': 6}),
    'window': dict(alphabet=[active('l1'), active('l2'), active('n1'), hide('l1'), hide('l2'), get('l1'), get('l2'), add('n1'), CLOSE, DELETE, rename('l1', 'n1'), SAVE]
                   + [view(k, v) for k in ('visible', 'minimize', 'tabs', 'vscroll', 'hscroll') for v in (True, False)], handles=H2, depth={'quick': 3, 'thorough': 4}),
    # contents of one sheet
    'cells': dict(alphabet=[get('l1'), CLOSE, SAVE, cells(1, 1, cell('v1')), cells(1, 1, cell('v2', 's')), cells(1, 2, cell('v1', 'n'), cell('v2', 'b'), byref=True), cells(2, 1, cell(empty=True)),
                            cells(2, 1, cell('v1'), cell('v1')), cells(1, 1, cell('v3', 'str', 'f1')), cells(2, 2, cell('v2', 'inlineStr')), cells(1, 1, bad=True, *[cell()])],
                  handles=['h1'], depth={'quick': 5, 'thorough': 6}),
    'rows': dict(alphabet=[get('l1'), CLOSE, SAVE, row(1, ht=1), row(1, hidden=True), row(1), row(2, tt=True, tb=True), row(3, ht=2), cells(1, 1, cell('v1')), cells(2, 1, cell('v2'))],
                 handles=['h1'], depth={'quick': 5, 'thorough': 7}),
    'cols': dict(alphabet=[get('l1'), CLOSE, SAVE] + [x for c in (1, 2, 3) for x in (col(c, w=1), col(c, clear=True), col(c, hidden=True, byref=True))] + [col(2, bf=True)],
                 handles=['h1'], depth={'quick': 4, 'thorough': 5}),
    'styles': dict(alphabet=[style('s1', 1), style('s2', 2), style('s3', 3), style('s2', 1), get('l1'), CLOSE, SAVE, cells(1, 1, cell('v1', sty='s1')), cells(1, 2, cell('v2', sty='s2')),
                             row(1, sty='s1'), col(1, sty='s2')], handles=['h1'], depth={'quick': 4, 'thorough': 5}),
    'formulas': dict(alphabet=[get('l1'), get('l2'), CLOSE, SAVE, DELETE, cells(1, 1, cell('v1', f='f1')), cells(1, 1, cell('v2')), cells(1, 2, cell(empty=True, f='f2')), cells(2, 1, cell('v1', 'n', 'f3')),
                               cells(2, 1, cell(empty=True)), AUTO], handles=['h1'], depth={'quick': 4, 'thorough': 5}),
}

"""Scripts written for one property."""
import itertools, random, re
from oxlib import *
import gen, pkgs, hostile


def office(prop, tier, seed, work):
    """Word and PowerPoint sessions, saved again and again"""
    out = []

    def chain(sid, kind, src, n):
        ops = []
        f = src
        for k in range(n):
            ops.append({'op': kind + 'new', 'file': f})
            f = work.path('%s-%d.%s' % (sid, k, 'docx' if kind == 'w' else 'pptx'))
            ops.append({'op': kind + 'save', 'file': f})
        out.append({'id': sid, 'ops': ops})
    for kind, fix in (('w', DOCX), ('p', PPTX)):
        chain('%s-blank' % kind, kind, None, 3)
        chain('%s-fixture' % kind, kind, fix, 3)
        for k in range(150 if tier == 'quick' else 1500):
            f = work.path('off-%s-%d' % (kind, k))
            pkgs.office('%s-%d-%s-%d' % (prop, seed, kind, k), f, kind)
            chain('%s-foreign-%d' % (kind, k), kind, f, 2)
    return out


def reuse(prop, tier, seed, work):
    """sheets deleted and added again where the added one gets the identifiers of the deleted one"""
    out = []
    for k in range(24 if tier == 'quick' else 400):
        r = random.Random('%s-reuse-%d-%d' % (prop, seed, k))
        many = k % 4 == 3
        src = pkgs.build('%s-reuse-%d-%d' % (prop, seed, k), work.path('reuse-%d.xlsx' % k), 'many' if many else 'reuse')
        names = list(src['names'])
        ops, h, f = [{'op': 'new', 'file': src['file']}], 0, 0
        for _ in range(r.randint(1, 3)):
            for _ in range(r.randint(1, 2)):
                if len(names) < 2:
                    break
                # most often the last one; of many most often the first, whose names the others begin with
                v = names.pop((0 if many else -1) if r.random() < .6 else r.randrange(len(names)))
                h += 1
                ops += [{'op': 'get', 'name': v, 'h': 'h%d' % h}]
                if r.random() < .3:
                    ops += [{'op': 'cells', 'h': 'h%d' % h, 'row': 1, 'col': 1, 'cells': [{'t': 'auto', 'v': 'gone'}]}]
                ops += [{'op': 'delete', 'h': 'h%d' % h}]
            for _ in range(r.randint(1, 2)):
                h += 1
                n = r.choice(['new %d' % h, v, 'Ω%d' % h])
                if n in names or n.lower() in [x.lower() for x in names]:
                    n = 'new %d' % h
                names.append(n)
                ops += [{'op': 'add', 'name': n, 'h': 'h%d' % h}]
                if r.random() < .5:
                    ops += [{'op': 'cells', 'h': 'h%d' % h, 'row': 2, 'col': 2, 'cells': [{'t': 'auto', 'v': 'here'}]}]
                ops += [{'op': 'close', 'h': 'h%d' % h}]
            if r.random() < .3:
                ops += [{'op': r.choice(['active', 'hide']), 'name': r.choice(names)}]
            if r.random() < .5:
                f += 1
                ops += [{'op': 'save', 'file': work.path('reuse-%d-%d.xlsx' % (k, f))}, {'op': 'new', 'file': work.path('reuse-%d-%d.xlsx' % (k, f))}]
        ops += [{'op': 'list'}, {'op': 'save', 'file': work.path('reuse-%d-e.xlsx' % k)}]
        out.append({'id': 'reuse%d' % k, 'ops': ops})
    return out


def shared_master(work):
    """the cell that holds the text of a shared formula is overwritten (the same package at every run)"""
    f = work.path('shared-master.xlsx')
    p = pkgs.Pkg('shared-master')
    p.plain({'xl/worksheets/sheet1.xml': ('<row r="1"><c r="A1"><v>1</v></c><c r="B1"><f t="shared" ref="B1:B3" si="0">A1*2</f><v>2</v></c></row>'
                                          '<row r="2"><c r="A2"><v>2</v></c><c r="B2"><f t="shared" si="0"/><v>4</v></c></row>'
                                          '<row r="3"><c r="A3"><v>3</v></c><c r="B3"><f t="shared" si="0"/><v>6</v></c></row>')}, f)
    return [{'id': 'shared-master', 'ops': [{'op': 'new', 'file': f}, {'op': 'get', 'name': 'Sheet1', 'h': 'h1'},
                                            {'op': 'cells', 'h': 'h1', 'row': 1, 'col': 2, 'cells': [{'t': 'auto', 'v': '7'}]}, {'op': 'close', 'h': 'h1'},
                                            {'op': 'save', 'file': work.path('shared-master-1.xlsx')}]}]


def write_all(sid, cells, work, per=24, rows=40, names=None, src=None):
    """every given cell once, a row at a time; the file is saved, opened and saved again"""
    out = []
    for k in range(0, len(cells), per * rows):
        part = cells[k:k + per * rows]
        f = work.path('%s-%d' % (sid, k))
        ops = [{'op': 'new', 'file': src}, {'op': 'add', 'name': 'all', 'h': 'h1'}]
        for j in range(0, len(part), per):
            ops.append({'op': 'cells', 'h': 'h1', 'row': j // per + 1, 'col': 1, 'cells': part[j:j + per]})
        ops += [{'op': 'close', 'h': 'h1'}, {'op': 'save', 'file': f + 'a.xlsx'}, {'op': 'new', 'file': f + 'a.xlsx'}, {'op': 'get', 'name': 'all', 'h': 'h2'},
                {'op': 'cells', 'h': 'h2', 'row': 1000, 'col': 1, 'cells': [{'t': 'auto', 'v': 'more'}]}, {'op': 'close', 'h': 'h2'}, {'op': 'save', 'file': f + 'b.xlsx'}]
        out.append({'id': '%s%d' % (sid, k // (per * rows)), 'ops': ops})
    return out


def literals(tier, work):
    """every text over the letters a number literal is made of, up to a length, and what stands near the borders of the rule"""
    al = '05.-+eE_' if tier == 'quick' else '059.-+eE_ ,x'
    vals = []
    for n in range(4 if tier == 'quick' else 5):
        vals += [''.join(t) for t in itertools.product(al, repeat=n)]
    vals += [''.join(t) for n in (1, 2, 3) for t in itertools.product('1Eae+.n i', repeat=n)]
    for w in ('true', 'false', 'nan', 'inf', 'infinity')[:3 if tier == 'quick' else 5]:
        for t in itertools.product((0, 1), repeat=len(w)):
            vals.append(''.join(c.upper() if u else c for c, u in zip(w, t)))
    for w in ('true', 'false', 'nan', 'inf', 'infinity', '1', '1.5', '-1e5'):
        vals += [a + w + b for a in ('', ' ', '\t', '\n', '+', '-', '\u00a0', 'x', '0', '\'') for b in ('', ' ', '\t', '\n', 's', '.', 'e', '0', '%', 'f', 'd', 'L')]
    for m in ('1', '9', '0', '1.7976931348623157', '1.7976931348623158', '1.79769313486231581', '17.976931348623157', '0.1', '0.0001', '179769313486231.57', '00010', '4.9'):
        for e in (-400, -325, -324, -323, -309, -308, 1, 0, 290, 293, 294, 295, 306, 307, 308, 309, 310, 311, 312, 313, 400, 99999, 1000000, 12345678901234567890):
            vals += ['%se%d' % (m, e), '-%sE%s%d' % (m, '+' if e > 0 else '', e)]
    vals += ['9' * n for n in (15, 16, 17, 19, 20, 38, 39, 40, 308, 309, 310)] + ['0' * n + '.5' for n in (1, 50, 400)] + ['.' + '0' * n + '1' for n in (1, 50, 330)]
    cells = [{'t': 'auto', 'v': v} for v in dict.fromkeys(vals)]
    for w in ('true', 'false', 'True', 'FALSE', '0', '1'):
        cells += [{'t': 'b', 'v': a + w + b} for a in ('', ' ', '\t', '\n', '\u00a0', '+') for b in ('', ' ', '\t', '\n', '\u00a0', '.')]
    for w in ('true', 'false', '0', '1', ''):
        for t in itertools.product((0, 1), repeat=len(w)):
            cells.append({'t': 'b', 'v': ''.join(c.upper() if u else c for c, u in zip(w, t))})
    cells += [{'t': 'b', 'v': v} for v in gen.TEXTS[:60] + [' 0', '0 ', '00', '0.0', '-0', 'f', 'F', 'off', 'no', ' ', '\t', 'ｆalse', 'falſe', 'falsE ', 'truefalse', '2', '-1']]
    return write_all('lit', cells, work)


def characters(tier, work):
    """every text of the pool and every character near a border of a class, everywhere a text can be given"""
    edge = [0x9, 0xa, 0xd, 0x20, 0x21, 0x22, 0x26, 0x27, 0x3c, 0x3e, 0x5d, 0x5f, 0x7e, 0x7f, 0x80, 0x84, 0x85, 0x86, 0x9f, 0xa0, 0xad, 0xff, 0x100, 0x17f, 0x2ff, 0x300, 0x7ff, 0x800, 0xfff,
            0x1000, 0x200b, 0x200e, 0x2028, 0x2029, 0x202e, 0x2060, 0x3000, 0xd7ff, 0xe000, 0xfdd0, 0xfdef, 0xfeff, 0xfffc, 0xfffd, 0x10000, 0x1f600, 0x1ffff, 0x2ffff, 0xfffff, 0x100000, 0x10ffff]
    if tier == 'thorough':
        edge = sorted(set(edge) | set(range(0x20, 0x500)) | set(range(0x2000, 0x2070)) | set(range(0xd7f0, 0xd800)) | set(range(0xe000, 0xe010)) | {x * 0x10000 + y for x in range(1, 17) for y in (0, 1, 0xfffe, 0xffff)})
    texts = list(gen.TEXTS)
    for c in edge:
        c = chr(c)
        texts += [c, 'a' + c, c + 'a', 'a' + c + 'b', c + c, ' ' + c, c + ' ']
    texts += ['&%s;' % x for x in ('lt', 'amp', '#38', '#x26', '#x0', 'nbsp', 'undefined')] + ['_x%s_' % x for x in ('0000', '0009', '000A', '000D', '0020', '005F', 'FFFF', 'D800', 'd83d', '00e9', '41', '00041', 'XYZW', '0041_x0042')] + ['__x0041__', '_X0041_', '_x0041', 'x0041_', '_x005F_x0041_']
    texts = list(dict.fromkeys(texts))
    cells = [{'t': 'auto', 'v': t} for t in texts] + [{'t': 's', 'v': t} for t in texts] + [{'t': 'str', 'v': t} for t in texts[:400]] + [{'t': 'auto', 'v': '1', 'f': t} for t in texts if t.strip(' \t\r\n')]
    out = write_all('char', cells, work)
    # as sheet names and as format codes
    names = [t for t in texts if t and len(t) < 40]
    for k in range(0, len(names), 40):
        f = work.path('name-%d' % k)
        ops, low = [{'op': 'new', 'file': None}], {'sheet1'}
        for j, t in enumerate(names[k:k + 40]):
            if t.lower() in low:
                continue
            low.add(t.lower())
            ops += [{'op': 'add', 'name': t, 'h': 'h%d' % j}, {'op': 'close', 'h': 'h%d' % j}]
        ops += [{'op': 'list'}, {'op': 'save', 'file': f + 'a.xlsx'}, {'op': 'new', 'file': f + 'a.xlsx'}, {'op': 'list'}, {'op': 'save', 'file': f + 'b.xlsx'}]
        out.append({'id': 'names%d' % (k // 40), 'ops': ops})
        ops = [{'op': 'new', 'file': None}, {'op': 'add', 'name': 'codes', 'h': 'h1'}]
        for j, t in enumerate(names[k:k + 40]):
            ops += [{'op': 'style', 'as': 's%d' % j, 's': {'num': -1, 'code': t}}, {'op': 'cells', 'h': 'h1', 'row': j + 1, 'col': 1, 'cells': [{'t': 'auto', 'v': '1', 'sty': 's%d' % j}]}]
        ops += [{'op': 'close', 'h': 'h1'}, {'op': 'save', 'file': f + 'c.xlsx'}, {'op': 'new', 'file': f + 'c.xlsx'}, {'op': 'save', 'file': f + 'd.xlsx'}]
        out.append({'id': 'codes%d' % (k // 40), 'ops': ops})
    return out


def addresses(tier, seed, work):
    """every column of the grid by its reference, and rows around every power of two and ten"""
    r, out = random.Random('addresses-%d' % seed), []
    step = 256
    for k in range(0, 16384, step):
        ops = [{'op': 'new', 'file': None}, {'op': 'add', 'name': 'a', 'h': 'h1'}]
        for c in range(k + 1, k + step + 1):
            if tier == 'thorough' or c % 2 == seed % 2 or c % 26 in (0, 1) or c > 16380:
                ops.append({'op': 'cells', 'h': 'h1', 'ref': gen.spell(r, c, 1 + c % 7), 'cells': [{'t': 'auto', 'v': str(c)}]})
        out.append({'id': 'cols%d' % (k // step), 'ops': ops + [{'op': 'close', 'h': 'h1'}, {'op': 'save', 'file': work.path('cols-%d.xlsx' % k)}]})
        ops = [{'op': 'new', 'file': None}, {'op': 'add', 'name': 'a', 'h': 'h1'}]
        for c in range(k + 1, k + step + 1):
            if r.random() < (.06 if tier == 'quick' else .4) or c > 16380:
                ops.append(dict({'op': 'col', 'h': 'h1', 'ref': gen.spell(r, c)}, p={'width': 1 + c % 200}))
        out.append({'id': 'colp%d' % (k // step), 'ops': ops + [{'op': 'close', 'h': 'h1'}, {'op': 'save', 'file': work.path('colp-%d.xlsx' % k)}]})
    rows = sorted({min(1048576, max(1, b + d)) for b in [2 ** x for x in range(21)] + [10 ** x for x in range(7)] + [1048576, 65536, 9999, 99999, 999999] for d in (-1, 0, 1)})
    for k, (a, b) in enumerate((('ref', 0), ('num', 1))):
        ops = [{'op': 'new', 'file': None}, {'op': 'add', 'name': 'a', 'h': 'h1'}]
        order = list(rows)
        r.shuffle(order)
        for x in order:
            c = r.choice(gen.COLPOOL)
            d = {'op': 'cells', 'h': 'h1', 'cells': [{'t': 'auto', 'v': str(x)}]}
            d.update({'ref': gen.spell(r, c, x)} if a == 'ref' else {'row': x, 'col': c})
            ops += [d, {'op': 'row', 'h': 'h1', 'row': x, 'p': {'height': 1 + x % 300}}]
        out.append({'id': 'rows%d' % k, 'ops': ops + [{'op': 'close', 'h': 'h1'}, {'op': 'save', 'file': work.path('rows-%d.xlsx' % k)}]})
    # what is no reference
    bad = list(gen.BADREF) + ['A%d' % x for x in (0, 1048577, 10485760, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 2 ** 64 + 1)] + ['%s1' % x for x in ('XFE', 'XGA', 'YAA', 'ZZZ', 'AAAA', 'ZZZZ', 'AAAAAAA', 'A' * 40)]
    bad += [''.join(t) for n in (1, 2, 3) for t in itertools.product('A1$ -', repeat=n) if not re.fullmatch('[A]+1+', ''.join(t))]
    ops = [{'op': 'new', 'file': None}, {'op': 'add', 'name': 'a', 'h': 'h1'}, {'op': 'cells', 'h': 'h1', 'ref': 'A1', 'cells': [{'t': 'auto', 'v': 'x'}]}]
    ops += [{'op': 'cells', 'h': 'h1', 'ref': x, 'cells': [{'t': 'auto', 'v': 'bad'}]} for x in dict.fromkeys(bad)]
    out.append({'id': 'badrefs', 'ops': ops + [{'op': 'close', 'h': 'h1'}, {'op': 'save', 'file': work.path('badrefs.xlsx')}]})
    return out


def later(work):
    """sessions that save some time after they were opened"""
    out = []
    for k in range(6):
        src = None if k == 0 else FIX if k == 1 else pkgs.build('later-%d' % k, work.path('later-%d.xlsx' % k))['file']
        out.append({'id': 'later%d' % k, 'ops': [{'op': 'new', 'file': src}, {'op': 'sleep', 'ms': 1300}, {'op': 'save', 'file': work.path('later-%da.xlsx' % k)},
                                                 {'op': 'new', 'file': work.path('later-%da.xlsx' % k)}, {'op': 'sleep', 'ms': 1300}, {'op': 'save', 'file': work.path('later-%db.xlsx' % k)}]})
    for kind, fix in (('w', DOCX), ('p', PPTX)):
        for src in (None, fix):
            sid = 'later-%s-%s' % (kind, 'f' if src else 'b')
            out.append({'id': sid, 'ops': [{'op': kind + 'new', 'file': src}, {'op': 'sleep', 'ms': 1300}, {'op': kind + 'save', 'file': work.path(sid + '-a.x')},
                                           {'op': kind + 'new', 'file': work.path(sid + '-a.x')}, {'op': 'sleep', 'ms': 1300}, {'op': kind + 'save', 'file': work.path(sid + '-b.x')}]})
    return out

def scale(tier, work):
    """many sheets, long rows, many rows, many formats, many strings"""
    out = []
    deep = tier == 'thorough'

    def sess(sid, *ss, src=None):
        ops, f = [], src
        for k, body in enumerate(ss):
            ops.append({'op': 'new', 'file': f})
            ops += body
            f = work.path('%s-%d.xlsx' % (sid, k))
            ops.append({'op': 'save', 'file': f})
        out.append({'id': sid, 'ops': ops})

    def c(v, **k):
        return dict({'t': 'auto', 'v': v}, **k)

    def on(name, h, *ops, first='get', last='close'):
        return [{'op': first, 'name': name, 'h': h}] + [dict(o, h=h) for o in ops] + [{'op': last, 'h': h}]
    # sheets whose part names start with the name of another
    for n in ((14,) if not deep else (14, 40, 120)):
        a = []
        for k in range(n):
            nm = None if k % 4 == 1 else 'page %d' % k
            a += [{'op': 'add', 'name': nm, 'h': 'h%d' % k}, {'op': 'cells', 'h': 'h%d' % k, 'row': k + 1, 'col': 1 + k % 3, 'cells': [c('of %d' % k), c(str(k))]}, {'op': 'close', 'h': 'h%d' % k}]
        b = on('sheet1', 'd', last='delete') + on('page 0', 'd2', last='delete') + [{'op': 'list'}, {'op': 'active', 'name': 'page %d' % (n - 2)}]
        d = on('page %d' % (n - 2), 'd', last='delete') + on('anew', 'e', {'op': 'cells', 'row': 1, 'col': 1, 'cells': [c('new here')]}) + [{'op': 'rename', 'old': 'page 6', 'new': 'page 0'}, {'op': 'list'}]
        sess('many%d' % n, a + [{'op': 'list'}], b, d, on('page 0', 'z', last='delete') + on('sheet1', 'y', {'op': 'cells', 'row': 9, 'col': 9, 'cells': [c('again')]}), [])
        sess('manyb%d' % n, a, on('page 10' if n > 10 else 'page 4', 'd', last='delete') + [{'op': 'add', 'name': None, 'h': 'e'}, {'op': 'close', 'h': 'e'}], on('page 2', 'd', last='delete'), [{'op': 'list'}])
    # rows of many cells
    for n in ((30, 300, 1100) if not deep else (30, 300, 1100, 5000, 16384)):
        w = [c(('t%d' % k) if k % 3 == 0 else str(k) if k % 3 == 1 else 'true') for k in range(n)]
        sess('wide%d' % n, on('w', 'a', {'op': 'cells', 'row': 2, 'col': 1, 'cells': w}), on('w', 'a', {'op': 'cells', 'row': 2, 'col': n // 2, 'cells': [c('mid'), c('7')]}), on('w', 'a', {'op': 'cells', 'row': 1, 'col': 2, 'cells': w[:-1]}))
        sess('widend%d' % n, on('w', 'a', {'op': 'cells', 'row': 3, 'col': 16384 - n + 1, 'cells': w}, {'op': 'cells', 'row': 4, 'col': 16384 - n + 2, 'cells': w}))
    # many rows, written in an order of its own
    for n in ((400,) if not deep else (400, 4000)):
        order = sorted(range(1, n + 1), key=lambda x: (x * 7919) % n)
        sess('tall%d' % n, on('t', 'a', *[{'op': 'cells', 'row': x * 3, 'col': 1 + x % 5, 'cells': [c('r%d' % x), c(str(x))]} for x in order]),
             on('t', 'a', *[{'op': 'row', 'row': x * 3 + x % 2, 'p': {'height': 10 + x % 90, 'hidden': x % 4 == 0}} for x in order if x % 3 == 0]),
             on('t', 'a', *[{'op': 'cells', 'row': x * 3, 'col': 1 + x % 5, 'cells': [c('again %d' % (x % 11))]} for x in order if x % 2]))
    # thousands of cells
    n = 90 if not deep else 600
    sess('block%d' % n, on('t', 'a', *[{'op': 'cells', 'row': x, 'col': 1, 'cells': [c(str(x * j)) for j in range(50)]} for x in range(1, n + 1)]),
         on('t', 'a', *[{'op': 'cells', 'row': x, 'col': 20 + x % 40, 'cells': [c('late')]} for x in range(1, n + 1, 9)]))
    # many columns with settings, one by one and again
    n = 260 if not deep else 2000
    sess('cols%d' % n, on('c', 'a', *[{'op': 'col', 'col': 1 + (x * 37) % n, 'p': {'width': 5 + x % 40}} for x in range(n)]),
         on('c', 'a', *[{'op': 'col', 'col': 1 + (x * 11) % n, 'p': {'width': 5 + x % 7, 'hidden': x % 5 == 0}} for x in range(n)]))
    # many formats
    n = 130 if not deep else 1200
    reqs = [{'b': k % 2 == 0, 'size': 6 + k % 61, 'num': -1, 'code': '0.%s' % ('0' * (1 + k % 7)) + ('" u%d"' % (k % 23))} for k in range(n)]
    sess('formats%d' % n, [{'op': 'style', 'as': 's%d' % k, 's': q} for k, q in enumerate(reqs)] + on('f', 'a', *[{'op': 'cells', 'row': 1 + k // 20, 'col': 1 + k % 20, 'cells': [c(str(k), sty='s%d' % k)]} for k in range(n)]),
         [{'op': 'style', 'as': 's%d' % k, 's': q} for k, q in enumerate(reversed(reqs))] + on('f', 'a', *[{'op': 'cells', 'row': 900 + k // 20, 'col': 1 + k % 20, 'cells': [c(str(k), sty='s%d' % k)]} for k in range(0, n, 9)]), [])
    # many strings, with repetitions and with strings that differ only a little
    n = 1500 if not deep else 70000
    words = ['w%d' % (k if k % 5 else k // 10) + (' ' if k % 7 == 0 else '') for k in range(n)]
    sess('strings%d' % n, on('s', 'a', *[{'op': 'cells', 'row': 1 + k // 500, 'col': 1, 'cells': [c(x) for x in words[k:k + 500]]} for k in range(0, n, 500)]),
         on('s', 'a', *[{'op': 'cells', 'row': 2 + k, 'col': 3, 'cells': [c(x) for x in words[k * 40:k * 40 + 20]]} for k in range(n // 500)]), on('s2', 'b', {'op': 'cells', 'row': 1, 'col': 1, 'cells': [c(x) for x in words[-30:]]}))
    # many fonts, fills, borders and number formats, each of its own
    n = 300 if not deep else 1000
    each = [('fonts', lambda k: {'font': 'Font %d' % k, 'b': k % 3 == 0}), ('fills', lambda k: {'bg': 'FF%06X' % (k * 977), 'fg': 'FF%06X' % (k * 31)}),
            ('borders', lambda k: {'b' + 'lrtb'[k % 4]: {'s': gen.BSTY[k % 13], 'c': {'k': 'rgb', 'v': 'FF%06X' % (k * 1013)}}}), ('numfmts', lambda k: {'num': -1, 'code': '0" u%d"' % k})]
    for what, mk in each:
        reqs = [mk(k) for k in range(n)]
        m = n + 40
        again = reqs[::7] + [mk(k) for k in range(n, m)]
        sess('each-%s%d' % (what, n), [{'op': 'style', 'as': 's%d' % k, 's': q} for k, q in enumerate(reqs)] + on('f', 'a', *[{'op': 'cells', 'row': 1 + k // 20, 'col': 1 + k % 20, 'cells': [c(str(k), sty='s%d' % k)]} for k in range(n)]),
             [{'op': 'style', 'as': 's%d' % k, 's': q} for k, q in enumerate(again)] + on('f', 'a', *[{'op': 'cells', 'row': 900 + k // 20, 'col': 1 + k % 20, 'cells': [c(str(k), sty='s%d' % k)]} for k in range(len(again))]), [])
    # more formulas than fit a byte, with and without a calculation chain
    n = 300 if not deep else 70000
    for chained in (True, False):
        sid = 'chain%d%s' % (n, '' if chained else 'n')
        p = pkgs.Pkg('chain')
        f = work.path(sid + '-src.xlsx')
        p.plain({'xl/worksheets/sheet1.xml': ''.join('<row r="%d">%s</row>' % (k // 10 + 1, ''.join('<c r="%s%d"><f>%d+%d</f><v>%d</v></c>' % (gen.col_name(j + 1), k // 10 + 1, k, j, k + j) for j in range(10))) for k in range(0, n, 10))}, f,
                chain=[(1, gen.col_name(k % 10 + 1), k // 10 + 1) for k in range(n)] if chained else None)
        ops = on('Sheet1', 'a', {'op': 'cells', 'row': 3, 'col': 2, 'cells': [c('plain'), c('7')]}, {'op': 'cells', 'row': n // 10, 'col': 9, 'cells': [c('end'), c('7', f='1+1')]}, {'op': 'cells', 'row': n // 10 + 4, 'col': 1, 'cells': [c('8', f='2+2')]})
        sess(sid, ops, [], src=f)
    # long texts, with characters of several bytes around the round sizes
    texts = []
    for n in (255, 256, 1024, 4096, 8192, 32767) + ((65536, 131072, 1 << 20) if deep else ()):
        for d in (-2, -1, 0, 1):
            texts += ['a' * (n + d), 'b' * (n + d - 1) + 'é', 'c' * (n + d - 2) + '😀 &<' + 'z' * 5, ' ' + 'd' * (n + d)]
    cells = [c(t) for t in texts]
    sess('long', on('l', 'a', *[{'op': 'cells', 'row': 1 + k, 'col': 1, 'cells': cells[k::9]} for k in range(9)]), on('l', 'a', *[{'op': 'cells', 'row': 20 + k, 'col': 1, 'cells': [dict(x, t='s') for x in cells[k::16]]} for k in range(3)]), on('l', 'a', {'op': 'cells', 'row': 40, 'col': 1, 'cells': [dict(x, t='str', f='"' + x['v'][:300] + '"') for x in cells[::8]]}), [])
    return out


def sizes(work):
    """heights and widths at the ends of what single precision holds, and what is no number"""
    out = []
    vals = ['inf', '-inf', 'NaN', 1e39, -1e39, 3.4028234e38, 3.5e38, 1e30, 1e-30, 1e-45, 1e-46, 0.1, 409.5, 16777217, 123456.789, 1e7, 5e-324]
    for what in ('row', 'col'):
        for k, v in enumerate(vals):
            for src in (None, FIX):
                sid = '%s-%d-%s' % (what, k, 'f' if src else 'b')
                n = 'Style' if src else 'sheet1'
                size = {'op': what, 'h': 'a', what: 2, 'p': {'height' if what == 'row' else 'width': v}}
                other = {'op': what, 'h': 'a', what: 3, 'p': {'hidden': True}}
                f, g = work.path(sid + '-1.xlsx'), work.path(sid + '-2.xlsx')
                out.append({'id': sid, 'ops': [{'op': 'new', 'file': src}, {'op': 'get', 'name': n, 'h': 'a'}, size, other, {'op': 'cells', 'h': 'a', 'row': 2, 'col': 2, 'cells': [{'t': 'auto', 'v': 'x'}]},
                                               {'op': 'close', 'h': 'a'}, {'op': 'save', 'file': f}, {'op': 'new', 'file': f}, {'op': 'get', 'name': n, 'h': 'a'}, dict(size, **{what: 4}),
                                               {'op': 'close', 'h': 'a'}, {'op': 'save', 'file': g}]})
    return out


# which of the big scripts a property needs
BIG = {'P28': 'many|formats|each|cols|wide30','P01': 'many', 'P02': 'wide|tall|block', 'P06': 'tall', 'P07': 'cols', 'P08': 'formats|each', 'P03': 'long', 'P19': 'chain', 'P26': 'chain', 'P10': 'many|formats|strings', 'P13': 'many', 'P14': 'many', 'P17': 'tall|cols', 'P20': 'strings|tall|long',
       'P21': 'many', 'P22': 'wide|tall|block', 'P24': 'formats|each'}


def scripts(prop, tier, seed, work):
    out = own(prop, tier, seed, work)
    if prop in BIG:
        out += [s for s in scale(tier, work) if re.match(BIG[prop], s['id'])]
    return out


def own(prop, tier, seed, work):
    if prop == 'P26':
        return shared_master(work)
    if prop in ('P06', 'P07', 'P28'):
        return [x for x in sizes(work) if prop == 'P28' or x['id'].startswith('row' if prop == 'P06' else 'col')] + (office(prop, tier, seed, work) if prop == 'P28' else [])
    if prop == 'P04':
        return literals(tier, work)
    if prop == 'P03':
        return characters(tier, work)
    if prop == 'P05':
        return addresses(tier, seed, work)
    if prop == 'P18':
        return later(work) + office(prop, tier, seed, work)
    if prop == 'P16':
        return office(prop, tier, seed, work)
    if prop == 'P15':
        return hostile.scripts(prop, tier, seed, work)
    if prop in ('P01', 'P09', 'P10', 'P11', 'P14', 'P19'):
        return reuse(prop, tier, seed, work)
    return []

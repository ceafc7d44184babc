"""Scripts: behaviours of spec/OxGen.tla made concrete.

OxGen gives histories over tokens; here tokens become sheet names, texts, numbers,
positions, formulas and formats, chosen from pools with a seeded generator.
"""
import json, random, re, unicodedata
from oxlib import *

NAMES = ['Data', 'Sheet 2', 'Q1 2024', 'R&D', 'a<b>', "it's", 'Übersicht', '日本', 'x' * 31, 'A', 'sheet', 'Tab"le', 'p;q', '100%',
         'naïve', 'sheet2', 'sheet3', 'sheet10', 'Sheet1', '😀 mix', 'end ', 'two  blanks', '-', '1', 'true', 'null', 'a.b', '#x', 'données']
ILLEGAL = ['a\u0001b', '\u0000', 'x\u000b', '\u001f', '\ufffe', 'tail\uffff']
TEXTS = ['x', 'hello', 'a & b', '<b>bold</b>', 'say "hi"', "it's", ' lead', 'trail ', '  both  ', 'a  b', 'tab\there', 'line\nbreak', 'cr\rx',
         'crlf\r\nx', '\t', ' ', '\n', 'é', '日本語', '😀', '𝒳 math', '&amp;', '&#10;', ']]>', '<![CDATA[x]]>', '<!-- c -->', '<?pi?>', '_x000D_',
         '_x005F_', '_x0041_', 'ÿ', '\u00a0nbsp\u00a0', '\u2028', 'true', 'false', 'TRUE', 'False', '0', '1', '-0', '+1', '1.', '.5', '-.5', '1e5', '1E+5',
         '1e-400', '1e400', 'nan', 'NaN', 'inf', '-inf', 'infinity', '+inf', 'Infinity', '1_000', '1,000', '0x10', '1e', 'e1', '.', '-', '+', '--1', '1 ', ' 1',
         '1.5.2', '００１', '١', '1d', '1f', '1.7976931348623157e308', '1.7976931348623159e308', '179769313486231580793e289',
         '123456789012345678901234567890', '0.1', '00012', '1e0005', '-1e308', '1e309', '9' * 309, '0' * 40 + '1', '', 'a' * 300, 'e\u0301',
         '\u200b', '\ufeffbom', '=A1', '@x', '#N/A', '1/2', '12:30', '2024-01-01', 'TrUe', 't', 'yes', 'on', '\ufffd', '\ue000', '\U0010fffd', 'a\u0085b', "'q",
         'a\U00010000', '\U0010ffffz', '\ud7ff', '\ue000x', '\U0001f469\u200d\U0001f469', '\u007f\u0080', '\ufdd0', '\U0001fffe']
NUMS = ['0', '1', '-1', '42', '3.14', '1e5', '-2.5E-3', '1.7976931348623157e308', '0.1', '100000000000000000000', '12345678.9', '-0', '007', '.5', '5.']
BOOLS = ['true', 'false', 'TRUE', 'False', '0', '1', '', 'yes', 'FALSE', 'fAlSe', 'no', '2', 'True', '00', ' false']
ERRS = ['#N/A', '#DIV/0!', '#REF!', '#VALUE!', '#NAME?', '#NUM!', '#NULL!']
FORMS = ['A1+1', 'SUM(A1:B2)', 'IF(A1<B1,"x & y","<z>")', "'R&D'!A1", '1+1', 'A1&" "&B1', 'CONCATENATE("  a ",B1)', 'TODAY()', '"é日本😀"',
         'A1>=B1', 'INDEX(A:A,1)', "SUM('a b'!$A$1:$B$2)", 'VLOOKUP(1,A1:B9,2,FALSE)', '{1,2;3,4}', 'LEN("\t")']
BADREF = ['', '1', 'A', 'A0', 'A1048577', 'XFE1', 'AAAA1', '1A', 'A1B2', '$A$1', 'A-1', 'A 1', 'Ä1', 'A1:B2', 'a1:', ' A1', 'A1 ', 'A1.5', 'ａ1', '٣', 'A٣',
          'A4294967297', 'A99999999999999999999', 'ZZZZZZZZ1', 'A+1', '!A1', 'R1C1', 'A\n1', '\u0000', '-', 'XFDA1', 'ZZZ9999999']
BADCOLREF = ['', '1', 'XFE', 'AAAA', 'ZZZ', '$A', 'A:B', 'Ä', ' A', 'A ', 'A-', 'ａ', 'A1B', '-', 'A٣', 'ZZZZZZZZZ']
CODES = ['0.000', '#,##0.00 "x & y"', '[Red]0;[Blue]-0', 'yyyy\\-mm', '0 "<b>"', '"a""b"', '0.0"  "', '@', '[$€-2] 0.00', '"日本"0', "0\\'", '_(* 0_)', '0.00E+00',
         'General"x"', '0', '']
FONTS = ['Calibri', 'Arial', 'A & <b>', '', 'Font "q"', 'Ü', 'MS 明朝', 'Calibri Light', ' lead', 'Times New Roman']
SIZES = [11, 8, 72, 255, 1, 14, 10, 0]
COLORS = [{'k': 'theme', 'v': '1'}, {'k': 'theme', 'v': '4'}, {'k': 'rgb', 'v': 'FFFF0000'}, {'k': 'rgb', 'v': '00AA11'}, {'k': 'indexed', 'v': '10'}, {'k': 'indexed', 'v': '64'},
          {'k': 'theme', 'v': '0'}, {'k': 'rgb', 'v': 'FF00FF00'}]
BSTY = ['thin', 'thick', 'dotted', 'double', 'dashed', 'dashDot', 'dashDotDot', 'medium', 'mediumDashed', 'mediumDashDot', 'mediumDashDotDot', 'slantDashDot', 'hair', 'none']
HEIGHTS = [None, 0, 15, 20.5, 409, 0.75, 12.1, 33.333]
NONUMBER = ['inf', '-inf', 'NaN', 1e39]        # in single precision
WIDTHS = [None, 0, 8.43, 20, 255, 0.5, 12.7109375, 9.1]
NUMIDS = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 37, 38, 39, 40, 45, 46, 47, 48, 49, 5, 6, 7, 8, 41, 42, 43, 44]


def style_request(r, focus=None):
    s = {}
    def maybe(p):
        return r.random() < p
    if maybe(.45):
        if maybe(.5):
            s['num'] = r.choice(NUMIDS)
        else:
            s['num'] = -1
            s['code'] = r.choice(CODES)
    if maybe(.3):
        s['font'] = r.choice(FONTS)
    if maybe(.3):
        s['size'] = r.choice(SIZES[:-1])
    if maybe(.3):
        s['color'] = r.choice(COLORS)
    for k in ('b', 'i', 'u', 'uu', 'wrap'):
        if maybe(.25):
            s[k] = True
    if maybe(.3):
        s['bg'] = r.choice(['FFFFFF00', 'FF00FF00', '808080', 'FFFF0000'])
    if maybe(.3):
        s['fg'] = r.choice(['FFFFFF00', 'FF00FF00', '808080', 'FF0000FF'])
    if maybe(.25):
        s['h'] = r.choice(['left', 'center', 'right', 'justify'])
    if maybe(.25):
        s['va'] = r.choice(['top', 'center', 'bottom'])
    for k in ('bl', 'br', 'bt', 'bb', 'bd'):
        if maybe(.2):
            s[k] = {'s': r.choice(BSTY)}
            if maybe(.6):
                s[k]['c'] = r.choice(COLORS)
    return s


def near(r, s):
    """a request that differs from s in one setting"""
    t = json.loads(json.dumps(s))
    k = r.choice(['b', 'i', 'u', 'uu', 'wrap', 'font', 'size', 'color', 'bg', 'fg', 'h', 'va', 'bl', 'br', 'bt', 'bb', 'bd', 'num', 'bc'])
    if k in ('b', 'i', 'u', 'uu', 'wrap'):
        t[k] = not t.get(k, False)
    elif k == 'font':
        t[k] = r.choice(FONTS)
    elif k == 'size':
        t[k] = r.choice(SIZES[:-1])
    elif k == 'color':
        t[k] = r.choice(COLORS)
    elif k in ('bg', 'fg'):
        t[k] = r.choice(['FFFFFF00', 'FF00FF00', '808080'])
    elif k == 'h':
        t[k] = r.choice(['left', 'center', 'right', 'justify'])
    elif k == 'va':
        t[k] = r.choice(['top', 'center', 'bottom'])
    elif k == 'num':
        t['num'] = r.choice(NUMIDS)
        t.pop('code', None)
    elif k == 'bc':
        b = r.choice(['bl', 'br', 'bt', 'bb', 'bd'])
        t[b] = {'s': r.choice(BSTY[:-1]), 'c': r.choice(COLORS)}
    else:
        t[k] = {'s': r.choice(BSTY)}
    return t


def col_name(c):
    s = ''
    while c:
        c, d = divmod(c - 1, 26)
        s = chr(65 + d) + s
    return s


def spell(r, col, row=None):
    s = col_name(col) + ('' if row is None else str(row))
    return s if r.random() < .7 else s.lower() if r.random() < .7 else ''.join(ch.lower() if r.random() < .5 else ch for ch in s)


ROWPOOL = [1, 2, 3, 4, 5, 9, 10, 11, 99, 100, 101, 999, 1000, 65535, 65536, 65537, 1048575, 1048576]
COLPOOL = [1, 2, 3, 4, 5, 25, 26, 27, 28, 51, 52, 53, 255, 256, 257, 676, 677, 701, 702, 703, 704, 728, 729, 1378, 16383, 16384, 16382]


class Concrete:
    """one mapping of tokens to concrete data"""

    def __init__(s, r, src, opts):
        s.r, s.src, s.o = r, src, opts
        names = [n for n in NAMES if n not in src.get('names', ()) and (opts.get('hardnames', True) or re.fullmatch(r'[\w ]+', n))]
        names = [n for n in names if n.lower() not in [x.lower() for x in src.get('names', ())]]
        picks = r.sample(names, 4)
        if opts.get('textnames'):
            # any text may be a name
            picks = r.sample([t for t in TEXTS if t and len(t) < 40], 4)
        elif opts.get('hardnames', True):
            # names that are almost those of other sheets
            q = random.Random('near-%s' % r.getstate()[1][0])
            for i in range(4):
                if q.random() < .12:
                    n = q.choice(picks + list(src.get('names', ())))
                    n = q.choice([n.lower(), n.upper(), n.swapcase(), n + ' ', ' ' + n, n + '1', n[:-1], unicodedata.normalize('NFD', n), n + '\u00a0'])
                    if n and n not in picks and n not in src.get('names', ()):
                        picks[i] = n
        s.names = {'n%d' % (i + 1): n for i, n in enumerate(picks)}
        s.names.update({'l%d' % (i + 1): n for i, n in enumerate(src['names'])})
        s.names['bad'] = r.choice(ILLEGAL)
        rows, cols = list(src.get('rows', ())), list(src.get('cols', ()))
        nr, nc = opts.get('rows', 4), opts.get('cols', 4)
        s.rows = s.some(rows, ROWPOOL, nr)
        s.cols = s.some(cols, COLPOOL, nc)
        s.reqs = []
        for i in range(opts.get('stys', 9)):
            if i and r.random() < .5:
                s.reqs.append(near(r, r.choice(s.reqs)))
            elif s.reqs and r.random() < .15:
                s.reqs.append(dict(r.choice(s.reqs)))
            else:
                s.reqs.append(style_request(r))
        if opts.get('reqpool'):
            # documents ask for the same formats
            s.reqs = [r.choice(opts['reqpool']) if r.random() < .7 else q for q in s.reqs]
        s.texts = opts.get('texts') or TEXTS
        s.vals = {}
        s.avoid = set(src.get('masters', ()))

    def some(s, have, pool, n):
        r = s.r
        got = set()
        mode = r.random()
        if mode < .25:
            a = r.randint(1, 30)
            got = set(range(a, a + n))
        while len(got) < n:
            if have and r.random() < .6:
                got.add(r.choice(have))
            elif r.random() < .3:
                got.add(max(1, min((16384 if pool is COLPOOL else 1048576), (r.choice(have) if have else r.choice(pool)) + r.choice([-1, 1]))))
            else:
                got.add(r.choice(pool))
        return sorted(got)

    def name(s, t):
        return {'tok': t} if t.startswith('auto') else s.names.get(t, t)

    def value(s, tok, t):
        k = (tok, t if t in ('n', 'b', 'e') else 'x')
        if k not in s.vals:
            pool = {'n': NUMS, 'b': BOOLS, 'e': ERRS}.get(t, s.texts)
            s.vals[k] = s.r.choice(pool)
        return s.vals[k]

    def cell(s, c):
        r = s.r
        d = {'t': c['t']}
        if c['hv']:
            d['v'] = r.choice(ILLEGAL) if c['cp'] else s.value(c['v'], c['t'])
        if c['hf'] and s.o.get('formulas', True):
            d['f'] = FORMS[int(c['f'][1:]) % len(FORMS)]
        if c['sty']:
            d['sty'] = c['sty']
        return d

    def op(s, o):
        r, k = s.r, o['op']
        if k in ('add', 'get'):
            d = {'op': k, 'h': o['h'], 'name': None if o['auto'] else s.name(o['name'])}
            if o['auto']:
                d['as'] = o['tok']
            return d
        if k in ('close', 'delete'):
            return {'op': k, 'h': o['h']}
        if k == 'rename':
            return {'op': k, 'old': s.name(o['old']), 'new': r.choice(ILLEGAL) if o['cp'] else s.name(o['new'])}
        if k in ('active', 'hide'):
            return {'op': k, 'name': s.name(o['name'])}
        if k == 'view':
            return {'op': k, 'k': o['kind'], 'v': o['v']}
        if k == 'list':
            return {'op': k}
        if k == 'style':
            return {'op': k, 'as': o['tok'], 's': s.reqs[o['s'] - 1]}
        if k == 'row':
            p, q = o['p'], {}
            h = HEIGHTS[int(p['ht']) % len(HEIGHTS)] if r.random() < .7 else r.choice(HEIGHTS)
            if h is not None:
                q['height'] = h if r.random() < .985 else r.choice(NONUMBER)
            for a, b in (('hidden', 'hidden'), ('tt', 'thickTop'), ('tb', 'thickBot')):
                if p[a]:
                    q[b] = True
                elif r.random() < .4:
                    q[b] = False
            if p['sty']:
                q['sty'] = p['sty']
            row = s.rows[o['row'] - 1] if o['row'] else r.choice([0, 1048577, 2 ** 31, 2 ** 32 - 1])
            return {'op': k, 'h': o['h'], 'row': row, 'p': q}
        bad = o['refcp'] == [49]
        if k == 'col':
            d = {'op': k, 'h': o['h']}
            c = s.cols[o['col'] - 1]
            if bad:
                if r.random() < .6:
                    d['ref'] = r.choice(BADCOLREF)
                else:
                    d['col'] = r.choice([0, 16385, 65535])
            elif o['byref']:
                d['ref'] = spell(r, c, r.choice(s.rows) if r.random() < .3 else None)
            else:
                d['col'] = c
            if o['clear']:
                d['p'] = None
            else:
                p, q = o['p'], {}
                w = r.choice(WIDTHS)
                if w is not None:
                    q['width'] = w if r.random() < .985 else r.choice(NONUMBER)
                for a, b in (('hidden', 'hidden'), ('bf', 'bestFit')):
                    if p[a]:
                        q[b] = True
                    elif r.random() < .4:
                        q[b] = False
                if p['sty']:
                    q['sty'] = p['sty']
                d['p'] = q
            return d
        if k == 'cells':
            d = {'op': k, 'h': o['h'], 'cells': [s.cell(c) for c in o['cells']]}
            row, col = s.rows[o['row'] - 1], s.cols[o['col'] - 1]
            if not bad and r.random() < .9:
                col = min(col, 16384 - len(d['cells']) + 1)
            for x in range(col, col + len(d['cells'])):
                # the master of a shared formula is never overwritten (see DESIGN.md, known findings)
                if (row, x) in s.avoid:
                    d['cells'] = d['cells'][:x - col]
                    break
            if not d['cells']:
                return None
            if bad:
                z = r.random()
                if z < .5:
                    d['ref'] = r.choice(BADREF)
                elif z < .8:
                    d['row'], d['col'] = r.choice([(0, 1), (1, 0), (1048577, 1), (1, 16385), (0, 0), (2 ** 32 - 1, 1), (1, 65535), (2 ** 31, 65535)])
                else:
                    d['row'], d['col'] = row, col
                    d['cells'][r.randrange(len(d['cells']))][r.choice(['v', 'f'])] = r.choice(ILLEGAL)
            elif o['byref']:
                d['ref'] = spell(r, col, row)
            else:
                d['row'], d['col'] = row, col
            return d
        raise Broken('op ' + k)


MIX = ['add', 'get', 'get', 'cells', 'cells', 'cells', 'row', 'col', 'style', 'close', 'delete', 'rename', 'view', 'active', 'hide', 'list', 'auto']


def walks(work, seed, cfg, tag='g'):
    """token histories from the specification"""
    c = dict(seed=seed, walks=50, len=14, sessions=2, mix=MIX, loaded=['l1'], blank=True, bad=14, rows=4, cols=4, vals=30, stys=9,
             formula=6, openSave=25, run=3)
    c.update(cfg)
    p = work.path('gen-%s.json' % tag)
    json.dump(c, open(p, 'w'))
    rc, out = tlc('OxGen.tla', 'OxGen.cfg', work, {'OX_GEN': p}, 300, workers='2')
    res = {}
    for m in re.finditer(r'^<<"SCRIPT", (\d+), "(.*)">>$', out, re.M):
        res[int(m.group(1))] = json.loads(json.loads('"' + m.group(2) + '"'))
    if rc != 0 or len(res) != c['walks']:
        raise Broken('generator: %d of %d walks; %s' % (len(res), c['walks'], out[-1500:]))
    st = STATES.findall(out)
    return [res[k] for k in sorted(res)], int(st[-1][1]), int(st[-1][0])


def histories(work, cfg, tag='x'):
    """one token history for every transition of the state graph (spec/OxMC)"""
    p = work.path('mc-%s.json' % tag)
    json.dump(cfg, open(p, 'w'))
    rc, out = tlc('OxMC.tla', 'OxMC.cfg', work, {'OX_GEN': p}, 800, workers='1', heap='3g')
    if rc != 0:
        raise Broken('exhaustive model: ' + out[-1500:])
    res = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^<<"SCRIPT", "(.*)">>$', out, re.M)]
    st = STATES.findall(out)
    return res, int(st[-1][1]), int(st[-1][0])


def concretise(hist, sid, r, src, work, opts):
    """one token history on one source package -> script"""
    cc = Concrete(r, src, opts)
    ops = [{'op': 'new', 'file': src['file']}]
    k = 0
    nauto = len(src['names'])
    for o in hist:
        if o['op'] == 'save':
            k += 1
            f = work.path('%s-%d.xlsx' % (sid, k))
            ops.append({'op': 'save', 'file': f})
            if o['ok']:
                ops.append({'op': 'new', 'file': f})
                cc.avoid = cc.avoid
            continue
        c = cc.op(o)
        if c is not None:
            ops.append(c)
    if ops[-1]['op'] == 'new':
        # what was saved last is opened and saved once more
        ops.append({'op': 'list'})
        ops.append({'op': 'save', 'file': work.path('%s-%d.xlsx' % (sid, k + 1))})
    return {'id': sid, 'ops': ops}

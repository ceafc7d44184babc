"""Independent projection of an OOXML package to plain data (no library code).

Everything the specification looks at comes from here.  Only the Python standard
library (zipfile, expat) is used; nothing is shared with the code under test.
"""
import calendar, hashlib, posixpath, re, struct, time, zipfile
from xml.parsers import expat

S = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
MC = 'http://schemas.openxmlformats.org/markup-compatibility/2006'
XML = 'http://www.w3.org/XML/1998/namespace'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
CT = 'http://schemas.openxmlformats.org/package/2006/content-types'
PR = 'http://schemas.openxmlformats.org/package/2006/relationships'
DCT = 'http://purl.org/dc/terms/'
XMLCT = re.compile(r'(\+xml|/xml)$')


DIALECT = re.compile(r'http://purl\.oclc\.org/ooxml/(spreadsheetml|drawingml|officeDocument|wordprocessingml|presentationml)/')
STRICT, TRANS = re.compile(rb'http://purl\.oclc\.org/ooxml/\w'), re.compile(rb'http://schemas\.openxmlformats\.org/(spreadsheetml|drawingml|officeDocument|wordprocessingml|presentationml)/2006/')


def plain(uri):
    """the transitional name of a namespace or relationship type"""
    if 'purl.oclc' not in uri:
        return uri
    return DIALECT.sub(r'http://schemas.openxmlformats.org/\1/2006/', uri).replace('relationships/extendedProperties', 'relationships/extended-properties').replace(
        'relationships/customProperties', 'relationships/custom-properties')


def dialect(data):
    """whether a part names things the strict way, the transitional one or both"""
    if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
        data = data.decode('utf-16', 'replace').encode('utf-8', 'replace')
    s, t = STRICT.search(data), TRANS.search(data)
    return 'mixed' if s and t else 'strict' if s else 'trans' if t else ''


class E:
    __slots__ = ('ns', 'tag', 'at', 'kids', 'text', 'nsmap', 'keep')

    def __init__(s, ns, tag, at, nsmap):
        s.ns, s.tag, s.at, s.nsmap = ns, tag, at, nsmap
        s.kids, s.text, s.keep = [], [], False

    def txt(s):
        return ''.join(x for x in s.text if isinstance(x, str))

    def stxt(s):
        """text whose outer white space counts only under xml:space=preserve"""
        return s.txt() if s.keep else s.txt().strip(WS)

    def get(s, k, d=None):
        return s.at.get(('', k), d)

    def find(s, tag):
        return [k for k in s.kids if k.tag == tag and k.ns == s.ns]


def parse(data):
    """bytes -> root element; raises on ill-formed input"""
    p = expat.ParserCreate(namespace_separator='\x01')
    p.namespace_prefixes = False
    p.ordered_attributes = True
    p.buffer_text = True
    st, root, pend = [], [], {}
    maps = [{'xml': XML}]

    def split(n):
        i = n.rfind('\x01')
        return ('', n) if i < 0 else (plain(n[:i]), n[i + 1:])

    def sns(pre, uri):
        pend[pre or ''] = plain(uri or '')

    def start(name, atts):
        m = maps[-1]
        if pend:
            m = dict(m)
            m.update(pend)
            pend.clear()
        maps.append(m)
        at = {}
        for i in range(0, len(atts), 2):
            at[split(atts[i])] = atts[i + 1]
        ns, t = split(name)
        e = E(ns, t, at, m)
        sp = at.get((XML, 'space'))
        e.keep = (st[-1].keep if st else False) if sp is None else sp == 'preserve'
        if st:
            st[-1].kids.append(e)
            st[-1].text.append(e)
        else:
            root.append(e)
        st.append(e)

    def end(_):
        st.pop()
        maps.pop()

    def chars(d):
        if st:
            st[-1].text.append(d)

    p.StartNamespaceDeclHandler = sns
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.Parse(data, True)
    return root[0]


WS = ' \t\r\n'


def qn(e, v):
    """resolve a prefix used inside an attribute value"""
    return e.nsmap.get(v, 'UNBOUND:' + v)


def canon(e, out=None, keep=False):
    """namespace-resolved infoset as text; insignificant white space dropped"""
    top = out is None
    out = [] if top else out
    out.append('<{%s}%s' % (e.ns, e.tag))
    sp = e.at.get((XML, 'space'))
    if sp is not None:
        keep = sp == 'preserve'
    for (ns, k), v in sorted(e.at.items()):
        if ns == XML and k == 'space':
            continue
        if (ns == MC and k in ('Ignorable', 'MustUnderstand', 'ProcessContent', 'PreserveElements')) or \
           (e.ns == MC and k == 'Requires'):
            v = ' '.join(sorted(qn(e, x.split(':')[0]) + ':'.join([''] + x.split(':')[1:]) for x in v.split()))
        elif ns == XSI and k == 'type' and ':' in v:
            a, b = v.split(':', 1)
            v = '{%s}%s' % (qn(e, a), b)
        out.append(' {%s}%s=%r' % (ns, k, v))
    out.append('>')
    haskids = bool(e.kids)
    for x in e.text:
        if isinstance(x, str):
            if haskids and not x.strip(WS):
                continue
            if not haskids and not x.strip(WS) and not keep:
                # white space alone in a leaf: significant only if it is all there is
                if not e.txt().strip(WS):
                    continue
            out.append('T%r' % x)
        else:
            canon(x, out, keep)
    out.append('</>')
    return ''.join(out) if top else None


def sha(x):
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return hashlib.sha1(x).hexdigest()[:12]


def canon_merge_text(e):
    """merge adjacent strings in every node's text list"""
    t = []
    for x in e.text:
        if isinstance(x, str) and t and isinstance(t[-1], str):
            t[-1] += x
        else:
            t.append(x)
    e.text = t
    for k in e.kids:
        canon_merge_text(k)
    return e


def resolve(src, target):
    if target.startswith('/'):
        p = target[1:]
    else:
        p = posixpath.join(posixpath.dirname(src), target)
    return posixpath.normpath(p)


def rel_owner(n):
    d, f = posixpath.split(n)
    d2, r = posixpath.split(d)
    if r == '_rels' and f.endswith('.rels'):
        f = f[:-5]
        return posixpath.join(d2, f) if f else ''
    return None


def w3c(x):
    """seconds since 1970 of a UTC W3C time stamp, -1 if it is none"""
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?Z', x.strip())
    if not m:
        return -1
    try:
        v = calendar.timegm(tuple(int(g) for g in m.groups()[:6]))
        return v if 0 <= v < 2 ** 31 and time.gmtime(v)[:6] == tuple(int(g) for g in m.groups()[:6]) else -1
    except Exception:
        return -1


def lastseg(u):
    return u.rstrip('/').rsplit('/', 1)[-1]


def f32(x):
    return struct.unpack('f', struct.pack('f', float(x)))[0]


def numlex(x, single=False):
    """canonical decimal text of a number lexeme, or the text itself"""
    try:
        v = float(x)
    except Exception:
        return '?' + str(x)
    if v != v or v in (float('inf'), float('-inf')):
        return '?' + str(x)
    if single:
        v = f32(v)
    return repr(v + 0.0)


BOOL = {'1': True, 'true': True, 'on': True, '0': False, 'false': False, 'off': False}


def flag(v, d=False):
    if v is None:
        return d
    return BOOL.get(v.strip(), d)


def a1(ref):
    """reference text -> (row, col) or (0,0)"""
    m = re.fullmatch(r'\$?([A-Za-z]{1,3})\$?([1-9][0-9]{0,6})', ref or '')
    if not m:
        return (0, 0)
    c = 0
    for ch in m.group(1).upper():
        c = c * 26 + ord(ch) - 64
    r = int(m.group(2))
    if c > 16384 or r > 1048576:
        return (0, 0)
    return (r, c)


def rest_attrs(e, known):
    return ';'.join('{%s}%s=%s' % (n, k, v) for (n, k), v in sorted(e.at.items()) if (n, k) not in known)


def si_text(e):
    """text of si / is, and whether it is plain"""
    ts = e.find('t')
    if len(e.kids) == 1 and len(ts) == 1:
        return ts[0].stxt(), True
    if not e.kids:
        return '', True
    out = []
    for k in e.kids:
        if k.tag == 't':
            out.append(k.stxt())
        elif k.tag == 'r':
            out += [x.stxt() for x in k.find('t')]
    return ''.join(out), False


XSTR = re.compile(r'_x([0-9A-Fa-f]{4})_')


def xstr(s):
    """ST_Xstring _xHHHH_ escapes"""
    return XSTR.sub(lambda m: chr(int(m.group(1), 16)), s)


def vclass(t, v):
    """lexical class of a cell value: is the content legal for the cell type?"""
    if t == 'n':
        if v == '':
            return 'empty'
        return 'num' if re.fullmatch(r'[ \t\r\n]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?[ \t\r\n]*', v) else 'bad'
    if t == 'b':
        return 'bool' if v in ('0', '1') else ('empty' if v == '' else 'bad')
    return 'text'


def color(e):
    if e is None:
        return {'k': 'none', 'v': '', 'x': ''}
    for k in ('theme', 'rgb', 'indexed', 'auto'):
        v = e.get(k)
        if v is not None:
            return {'k': k, 'v': v, 'x': rest_attrs(e, {('', k)})}
    return {'k': 'none', 'v': '', 'x': rest_attrs(e, set())}


def one(e, tag):
    k = e.find(tag) if e is not None else []
    return k[0] if k else None


def p_font(e):
    def fl(tag):
        x = one(e, tag)
        return False if x is None else flag(x.get('val'), True)

    def val(tag):
        x = one(e, tag)
        return '' if x is None else x.get('val', '')
    u = one(e, 'u')
    known = {'b', 'i', 'u', 'sz', 'color', 'name', 'family', 'scheme'}
    scheme = val('scheme')
    return {'name': val('name'), 'size': numlex(val('sz')) if val('sz') else '', 'color': color(one(e, 'color')),
            'b': fl('b'), 'i': fl('i'), 'u': 'none' if u is None else u.get('val', 'single'),
            'fam': val('family'), 'scheme': '' if scheme == 'none' else scheme,
            'x': ''.join(canon(k) for k in e.kids if k.tag not in known)}


def p_fill(e):
    pf = one(e, 'patternFill')
    if pf is None:
        return {'pat': '', 'fg': color(None), 'bg': color(None), 'x': ''.join(canon(k) for k in e.kids)}
    return {'pat': pf.get('patternType', 'none'), 'fg': color(one(pf, 'fgColor')), 'bg': color(one(pf, 'bgColor')),
            'x': rest_attrs(pf, {('', 'patternType')})}


def p_border(e):
    d = {}
    for k, n in (('left', 'l'), ('right', 'r'), ('top', 't'), ('bottom', 'b'), ('diagonal', 'd')):
        x = one(e, k)
        s = 'none' if x is None else x.get('style', 'none')
        d[n] = {'s': s, 'c': color(one(x, 'color')) if x is not None and s != 'none' else color(None)}
    d['x'] = ';'.join('%s=%s' % (k[1], flag(v)) for k, v in sorted(e.at.items()) if not (k[1] in ('diagonalUp', 'diagonalDown', 'outline') and flag(v) == (k[1] == 'outline'))) + \
        ''.join(canon(k) for k in e.kids if k.tag not in ('left', 'right', 'top', 'bottom', 'diagonal'))
    return d


def p_xf(e):
    a = one(e, 'alignment')

    def num(k):
        try:
            return int(e.get(k, '0'))
        except ValueError:
            return -1
    d = {'num': num('numFmtId'), 'font': num('fontId'), 'fill': num('fillId'), 'border': num('borderId'), 'xfid': num('xfId'),
         'h': '', 'va': '', 'wrap': False, 'x': '', 'ap': '', 'on': [], 'off': []}
    ka = {('', 'horizontal'), ('', 'vertical'), ('', 'wrapText')}
    if a is not None:
        d['h'] = a.get('horizontal', '')
        d['va'] = a.get('vertical', '')
        d['wrap'] = flag(a.get('wrapText'))
        d['x'] = rest_attrs(a, ka)
    known = {('', k) for k in ('numFmtId', 'fontId', 'fillId', 'borderId', 'xfId')}
    ap = {('', k) for k in ('applyNumberFormat', 'applyFont', 'applyFill', 'applyBorder', 'applyAlignment', 'applyProtection')}
    d['ap'] = ';'.join('%s=%s' % (k[1], flag(v)) for k, v in sorted(e.at.items()) if k in ap)
    for k, v in sorted(e.at.items()):
        if k in ap:
            d['on' if flag(v) else 'off'].append(k[1])
    d['x'] += '|' + rest_attrs(e, known | ap) + '|' + ''.join(canon(k) for k in e.kids if k.tag != 'alignment')
    return d


def p_styles(root):
    def seq(tag, child, f):
        c = one(root, tag)
        return [] if c is None else [f(x) for x in c.kids if x.tag == child and x.ns == S]

    def cnt(tag):
        c = one(root, tag)
        if c is None:
            return True
        return c.get('count') is None or c.get('count') == str(len(c.kids))
    main = ('numFmts', 'fonts', 'fills', 'borders', 'cellStyleXfs', 'cellXfs')
    return {
        'present': True,
        'numFmts': seq('numFmts', 'numFmt', lambda x: {'id': int(x.get('numFmtId', '-1')), 'code': x.get('formatCode', '')}),
        'fonts': seq('fonts', 'font', p_font), 'fills': seq('fills', 'fill', p_fill),
        'borders': seq('borders', 'border', p_border),
        'csx': seq('cellStyleXfs', 'xf', p_xf), 'xfs': seq('cellXfs', 'xf', p_xf),
        'order': [k.tag for k in root.kids],
        'counts': all(cnt(t) for t in main),
        'rest': [{'t': k.tag, 'h': sha(canon(k))} for k in root.kids if k.tag not in main or k.ns != S],
        'fontorder': fontorder(root),
        'at': sha(rest_attrs(root, {(MC, 'Ignorable')})),
    }


FONT_ORDER = ['b', 'i', 'strike', 'condense', 'extend', 'outline', 'shadow', 'u', 'vertAlign', 'sz', 'color', 'name',
              'family', 'charset', 'scheme']


def fontorder(root):
    c = one(root, 'fonts')
    return [[k.tag for k in f.kids] for f in (c.kids if c is not None else [])]


ROWK = {('', k) for k in ('r', 'spans', 's', 'customFormat', 'ht', 'customHeight', 'hidden', 'outlineLevel', 'collapsed',
                          'thickTop', 'thickBot', 'ph')}
COLK = {('', k) for k in ('min', 'max', 'width', 'customWidth', 'hidden', 'style', 'outlineLevel', 'collapsed', 'bestFit',
                          'phonetic')}


def toint(x, d=-1):
    try:
        return int(x)
    except Exception:
        return d


def spanned(v, cols):
    """the ranges a row declares hold all of its cells"""
    rs = [re.fullmatch('([1-9][0-9]{0,4}):([1-9][0-9]{0,4})', x) for x in v.split()]
    if None in rs:
        return False
    rs = [(int(x[1]), int(x[2])) for x in rs]
    return all(a <= b <= 16384 for a, b in rs) and all(any(a <= c <= b for a, b in rs) for c in cols)


def p_sheet(root, part):
    rows, cells = {}, {}
    badcells = 0
    hasref = True
    roworder = True
    cellorder = True
    kidorder = True
    sd = one(root, 'sheetData')
    lastr = 0
    badspans = []
    for r in (sd.kids if sd is not None else []):
        n = toint(r.get('r'), lastr + 1)
        if n <= lastr or r.tag != 'row' or r.ns != S:
            roworder = False
        lastr = n
        rows[str(n)] = ({'r': n, 'ht': numlex(r.get('ht'), True) if r.get('ht') is not None and flag(r.get('customHeight')) else '',
                     's': toint(r.get('s'), 0) if flag(r.get('customFormat')) else -1,
                     'hidden': flag(r.get('hidden')), 'tt': flag(r.get('thickTop')), 'tb': flag(r.get('thickBot')),
                     'ol': toint(r.get('outlineLevel'), 0), 'col': flag(r.get('collapsed')), 'ph': flag(r.get('ph')),
                     'aht': numlex(r.get('ht'), True) if r.get('ht') is not None and not flag(r.get('customHeight')) else '',
                     'x': rest_attrs(r, ROWK) + ''.join(sha(canon(k)) for k in r.kids if k.tag != 'c' or k.ns != S)})
        lastc, ext, here = 0, False, []
        for c in r.kids:
            if c.ns != S or c.tag != 'c':
                # extensions follow the cells
                ext = True
                cellorder = cellorder and c.tag == 'extLst'
                continue
            cellorder = cellorder and not ext
            rr, cc = a1(c.get('r')) if c.get('r') is not None else (n, lastc + 1)
            hasref = hasref and c.get('r') is not None and r.get('r') is not None
            if rr != n or cc <= lastc:
                cellorder = False
            lastc = cc
            here.append(cc)
            t = c.get('t', 'n')
            f, v, i = one(c, 'f'), one(c, 'v'), one(c, 'is')
            tags = [k.tag for k in c.kids]
            if [x for x in ('f', 'v', 'is', 'extLst') if x in tags] != tags:
                kidorder = False
            plain = True
            if t == 'inlineStr':
                val, plain = si_text(i) if i is not None else ('', True)
                ih = sha(canon(i)) if i is not None else ''
            else:
                val = v.txt() if v is not None else ''
                ih = ''
            if '%d,%d' % (rr, cc) in cells or not rr:
                badcells += 1
            cells['%d,%d' % (rr, cc)] = ({'r': rr, 'c': cc, 't': t, 'v': xstr(val) if t in ('str', 'inlineStr') else val,
                          's': toint(c.get('s'), 0),
                          'f': f.txt() if f is not None else '', 'hf': f is not None,
                          'fa': rest_attrs(f, {(XML, 'space')}) if f is not None else '',
                          'fg': f.get('si', '') if f is not None and f.get('t') == 'shared' else '',
                          'lx': vclass(t, val), 'nv': numlex(val) if t == 'n' and val != '' else '', 'ih': ih if not plain else '',
                          'm': '%s/%s/%s/%s' % (c.get('cm', ''), c.get('vm', ''), flag(c.get('ph')), ''.join(sha(canon(k)) for k in c.kids if k.tag not in ('f', 'v', 'is'))),
                          'si': toint(val) if t == 's' else -1})
        if r.get('spans') is not None and not spanned(r.get('spans'), here):
            badspans.append(n)
    cols = []
    co = one(root, 'cols')
    for c in (co.find('col') if co is not None else []):
        cols.append({'min': toint(c.get('min')), 'max': toint(c.get('max')),
                     'w': numlex(c.get('width'), True) if c.get('width') is not None and flag(c.get('customWidth')) else '',
                     'aw': numlex(c.get('width'), True) if c.get('width') is not None and not flag(c.get('customWidth')) else '',
                     'hidden': flag(c.get('hidden')), 's': toint(c.get('style'), 0), 'bf': flag(c.get('bestFit')),
                     'ol': toint(c.get('outlineLevel'), 0), 'col': flag(c.get('collapsed')), 'ph': flag(c.get('phonetic')),
                     'x': rest_attrs(c, COLK)})
    views = []
    sv = one(root, 'sheetViews')
    vorder = True
    for v in (sv.kids if sv is not None else []):
        if v.tag != 'sheetView' or v.ns != S:
            continue
        at = {}
        for (ns, k), x in v.at.items():
            d = VIEWDEF.get(k)
            if d is not None:
                if flag(x) == d:
                    continue
                x = str(flag(x))
            elif k in VIEWNUM:
                if x == VIEWNUM[k]:
                    continue
            at[k] = x
        tags = [k.tag for k in v.kids]
        want = [t for t in ('pane', 'selection', 'pivotSelection', 'extLst') for _ in range(tags.count(t))]
        if tags != want:
            vorder = False
        views.append({'at': ';'.join('%s=%s' % kv for kv in sorted(at.items())),
                      'kids': [sha(canon(k)) for k in v.kids]})
    dims = root.find('dimension')
    dim = {'n': len(dims), 'ok': False, 'r1': 0, 'c1': 0, 'r2': 0, 'c2': 0}
    if dims:
        ref = dims[0].get('ref', '')
        a, _, b = ref.partition(':')
        (r1, c1), (r2, c2) = a1(a), a1(b or a)
        dim.update(ok=bool(r1 and r2 and r1 <= r2 and c1 <= c2), r1=r1, c1=c1, r2=r2, c2=c2)
    known = {'sheetData', 'cols', 'sheetViews', 'dimension'}
    return {'part': part, 'order': [k.tag if k.ns == S else '{}' + k.tag for k in root.kids], 'rows': rows, 'cells': cells,
            'badspans': badspans, 'cols': cols, 'views': views, 'dim': dim, 'roworder': roworder, 'cellorder': cellorder,
            'kidorder': kidorder, 'badcells': badcells, 'hasref': hasref, 'vorder': vorder,
            'rest': [{'t': k.tag, 'h': sha(canon(k))} for k in root.kids if k.tag not in known or k.ns != S],
            'at': sha(rest_attrs(root, {(MC, 'Ignorable')})),
            'sdx': sha(canon_attrs(sd)), 'cox': sha(canon_attrs(co)) if co is not None and co.at else '',
            'roottag': root.tag}


def canon_attrs(e):
    return rest_attrs(e, set()) if e is not None else ''


VIEWDEF = {'windowProtection': False, 'showFormulas': False, 'showGridLines': True, 'showRowColHeaders': True,
           'showZeros': True, 'rightToLeft': False, 'tabSelected': False, 'showRuler': True, 'showOutlineSymbols': True,
           'defaultGridColor': True, 'showWhiteSpace': True}
VIEWNUM = {'zoomScale': '100', 'zoomScaleNormal': '0', 'zoomScaleSheetLayoutView': '0', 'zoomScalePageLayoutView': '0',
           'view': 'normal', 'colorId': '64'}
WBV = {('', k) for k in ('activeTab', 'firstSheet', 'visibility', 'minimized', 'showSheetTabs', 'showVerticalScroll',
                         'showHorizontalScroll', 'tabRatio', 'autoFilterDateGrouping')}


def p_workbook(root, part, rels):
    sheets = []
    sh = one(root, 'sheets')
    tgt = {r['id']: r for r in rels if r['src'] == part}
    for s in (sh.find('sheet') if sh is not None else []):
        rid = s.at.get((R, 'id'), '')
        r = tgt.get(rid)
        sheets.append({'name': s.get('name', ''), 'id': s.get('sheetId', ''), 'rid': rid, 'state': s.get('state', 'visible'),
                       'part': r['t'] if r else ''})
    bv = one(root, 'bookViews')
    vs = bv.find('workbookView') if bv is not None else []
    v = vs[0] if vs else None

    def g(k, d):
        return d if v is None else v.get(k, d)
    view = {'n': len([k for k in vs if k.tag == 'workbookView']), 'active': toint(g('activeTab', '0')), 'first': toint(g('firstSheet', '0')),
            'vis': g('visibility', 'visible'), 'min': flag(g('minimized', '0')), 'tabs': flag(g('showSheetTabs', '1')),
            'vs': flag(g('showVerticalScroll', '1')), 'hs': flag(g('showHorizontalScroll', '1')),
            'ratio': g('tabRatio', '600'), 'afd': flag(g('autoFilterDateGrouping', '1')),
            'x': rest_attrs(v, WBV) if v is not None else '', 'xk': [sha(canon(k)) for k in (v.kids if v is not None else [])],
            'more': [{'active': toint(k.get('activeTab', '0')), 'first': toint(k.get('firstSheet', '0')),
                      'x': rest_attrs(k, {('', 'activeTab'), ('', 'firstSheet')}), 'xk': [sha(canon(j)) for j in k.kids]} for k in vs[1:]]}
    known = {'sheets', 'bookViews', 'definedNames'}
    dn = []
    for d in (one(root, 'definedNames').kids if one(root, 'definedNames') is not None else []):
        dn.append({'name': d.get('name', ''), 'local': toint(d.get('localSheetId'), -1), 'text': d.txt(),
                   'x': rest_attrs(d, {('', 'name'), ('', 'localSheetId'), (XML, 'space')})})
    return {'present': True, 'part': part, 'dn': dn, 'sheets': sheets, 'view': view,
            'order': [k.tag if k.ns == S else '{}' + k.tag for k in root.kids],
            'rest': [{'t': k.tag, 'h': sha(canon(k))} for k in root.kids if k.tag not in known or k.ns != S],
            'at': sha(rest_attrs(root, {(MC, 'Ignorable')})), 'roottag': root.tag}


def empty():
    """the projection of nothing"""
    return {'ok': False, 'err': '', 'parts': [], 'dup': [], 'defaults': [], 'overrides': [], 'rels': [], 'main': '',
           'wb': {'present': False, 'part': '', 'sheets': [], 'view': {'n': 0, 'active': 0, 'first': 0, 'vis': 'visible', 'min': False,
                  'tabs': True, 'vs': True, 'hs': True, 'ratio': '600', 'afd': True, 'x': '', 'xk': [], 'more': []},
                  'order': [], 'rest': [], 'at': '', 'roottag': '', 'dn': []},
           'sheets': {}, 'sst': {'present': False, 'part': '', 'items': [], 'count': -1, 'unique': -1, 'order': True},
           'sty': {'present': False, 'numFmts': [], 'fonts': [], 'fills': [], 'borders': [], 'csx': [], 'xfs': [],
                   'order': [], 'counts': True, 'rest': [], 'fontorder': [], 'at': ''},
           'calc': {'present': False, 'items': []}, 'shapes': [], 'values': [],
           'core': {'n': 0, 'created': '', 'modified': '', 'rest': [], 'nmod': 0, 'ncre': 0, 'typed': True,
                    'part': '', 'csec': -1, 'msec': -1}}


TOKEN = re.compile('[A-Za-z][A-Za-z0-9]{0,31}')
FREE = {'name', 'formatCode', 'comment', 'description', 'help', 'statusBar', 'customMenu', 'Target', 'PartName', 'Id', 'id'}
REF = r'\$?[A-Za-z]{1,3}\$?[1-9][0-9]{0,6}'


def classes(v):
    """the lexical classes an attribute value belongs to (white space collapsed)"""
    v = ' '.join(v.replace('\t', ' ').replace('\r', ' ').replace('\n', ' ').split(' ')).strip()
    out = ['any']
    if v:
        out.append('text')
    if v in BOOL:
        out.append('flag')
    if re.fullmatch('[+-]?[0-9]+', v) and -2 ** 31 <= int(v) < 2 ** 31:
        out.append('int')
    if re.fullmatch(r'\+?[0-9]+|-0+', v) and int(v) < 2 ** 32:
        out.append('uint')
        if 1 <= int(v) <= 16384:
            out.append('col')
        if 1 <= int(v) <= 1048576:
            out.append('row')
    if re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', v):
        out.append('num')
    if a1(v) != (0, 0):
        out.append('cell')
    ends = [a1(x) for x in v.split(':')]
    if len(ends) in (1, 2) and (0, 0) not in ends and ends[0][0] <= ends[-1][0] and ends[0][1] <= ends[-1][1]:
        out.append('ref')
    if re.fullmatch('[0-9A-Fa-f]{8}', v):
        out.append('rgb')
    if all(re.fullmatch('[1-9][0-9]{0,4}:[1-9][0-9]{0,4}', x) for x in v.split()):
        out.append('spans')
    if re.fullmatch(r'[^\W\d][\w.\-\u00b7]*', v):
        out.append('id')
    return out


def shapes(root, out, vals):
    """the distinct shapes of the elements and the distinct values of their attributes"""
    def walk(e, parent):
        k = parent + '/' + e.tag
        names = []
        for (ns, a), v in e.at.items():
            if ns not in ('', R):
                continue
            a = 'r:' + a if ns == R else a
            names.append(a)
            w = v.strip(WS)
            w = w if a not in FREE and TOKEN.fullmatch(w) else ''
            c = tuple(classes(v))
            if a not in FREE or len(c) < 2:
                vals.setdefault((k, a, w, c), v[:40])
            else:
                vals.setdefault((k, a, '', ('any', 'text') + (('id',) if 'id' in c else ())), '')
        out.add((k, parent, e.tag, tuple(sorted(names))))
        for x in e.kids:
            if x.ns == e.ns and x.tag != 'extLst':
                walk(x, e.tag)
            elif x.ns != e.ns:
                out.add((e.tag + '/{}' + x.tag, e.tag, '{}' + x.tag, ()))
            else:
                out.add((e.tag + '/' + x.tag, e.tag, x.tag, ()))
    walk(root, '')


SHAPES = False      # whether projections list shapes and values


def project(path):
    out = empty()
    try:
        z = zipfile.ZipFile(path)
        names = z.namelist()
        bad = z.testzip()
    except Exception as ex:
        out['err'] = 'zip: %s' % type(ex).__name__
        return out
    if bad:
        out['err'] = 'crc'
        return out
    out['dup'] = sorted({n for n in names if names.count(n) > 1})
    low = [n.lower() for n in names]
    out['dup'] += sorted({n for n in names if low.count(n.lower()) > 1} - set(out['dup']))
    data = {n: z.read(n) for n in names if not n.endswith('/')}
    z.close()
    if '[Content_Types].xml' not in data:
        out['err'] = 'no content types'
        return out
    trees = {}

    def tree(n):
        if n not in trees:
            try:
                trees[n] = canon_merge_text(parse(data[n]))
            except Exception:
                trees[n] = None
        return trees[n]
    ct = tree('[Content_Types].xml')
    if ct is None:
        out['err'] = 'content types ill-formed'
        return out
    defs, ovr = {}, {}
    for k in ct.kids if ct.ns == CT else ():
        if k.ns != CT:
            continue
        if k.tag == 'Default':
            out['defaults'].append({'e': k.get('Extension', ''), 't': k.get('ContentType', '')})
            defs.setdefault(k.get('Extension', '').lower(), k.get('ContentType', ''))
        elif k.tag == 'Override':
            out['overrides'].append({'p': k.get('PartName', ''), 't': k.get('ContentType', '')})
            ovr.setdefault(k.get('PartName', '').lower(), k.get('ContentType', ''))
    out['ok'] = True
    ctof = {}
    for n in data:
        if n == '[Content_Types].xml':
            continue
        ext = n.rsplit('.', 1)[-1].lower() if '.' in posixpath.basename(n) else ''
        c = ovr.get('/' + n.lower())
        if c is None:
            c = defs.get(ext, '')
        ctof[n] = c
        isx = bool(XMLCT.search(c)) or ext in ('xml', 'rels')
        t = tree(n) if isx else None
        out['parts'].append({'n': n, 'ct': c, 'xml': isx, 'wf': (t is not None) if isx else True,
                             'h': sha(canon(t)) if t is not None else sha(data[n]), 'b': sha(data[n]), 'cf': dialect(data[n]) if t is not None else '',
                             'ri': rel_owner(n) is not None, 'own': rel_owner(n) or ''})
    for n in data:
        o = rel_owner(n)
        if o is None:
            continue
        t = tree(n)
        if t is None:
            continue
        for k in t.kids if t.ns == PR else ():
            if k.ns != PR or k.tag != 'Relationship':
                continue
            mode = k.get('TargetMode', 'Internal')
            tg = k.get('Target', '')
            out['rels'].append({'src': o, 'id': k.get('Id', ''), 'type': plain(k.get('Type', '')), 'ty': lastseg(plain(k.get('Type', ''))), 'cf': dialect(k.get('Type', '').encode()),
                                't': resolve(o, tg) if mode == 'Internal' else tg, 'mode': mode, 'raw': tg})
    for r in out['rels']:
        if r['src'] == '' and r['ty'] == 'officeDocument':
            out['main'] = r['t']
            break
    rels = out['rels']
    cps = [r['t'] for r in rels if r['src'] == '' and r['ty'] == 'core-properties' and r['t'] in data]
    out['core']['n'] = len([n for n in ctof if ctof[n] == 'application/vnd.openxmlformats-package.core-properties+xml'])
    if cps and tree(cps[0]) is not None:
        t = tree(cps[0])
        c = out['core']
        c['part'] = cps[0]
        for k in t.kids:
            if k.ns == DCT and k.tag == 'created':
                c['created'] = k.txt()
                c['csec'] = w3c(k.txt())
                c['ncre'] += 1
            elif k.ns == DCT and k.tag == 'modified':
                c['modified'] = k.txt()
                c['msec'] = w3c(k.txt())
                c['nmod'] += 1
            else:
                c['rest'].append({'t': k.tag, 'h': sha(canon(k))})
            if k.ns == DCT and k.tag in ('created', 'modified'):
                ty = k.at.get((XSI, 'type'), '')
                if not (ty.endswith(':W3CDTF') and qn(k, ty.split(':')[0]) == DCT):
                    c['typed'] = False
        c['rest'].sort(key=lambda x: (x['t'], x['h']))
    m = out['main']
    if m in data and tree(m) is not None and tree(m).tag == 'workbook' and tree(m).ns == S:
        out['wb'] = p_workbook(tree(m), m, rels)
        seen = set()
        for r in rels:
            if r['src'] == m and r['mode'] == 'Internal' and r['t'] in data and r['t'] not in seen:
                seen.add(r['t'])
                t = tree(r['t'])
                if t is None or (t.ns != S):
                    continue
                if r['ty'] == 'worksheet':
                    out['sheets'][r['t']] = p_sheet(t, r['t'])
                elif r['ty'] == 'sharedStrings' and not out['sst']['present']:
                    items = []
                    for k in t.kids:
                        if k.tag == 'si' and k.ns == S:
                            s, pl = si_text(k)
                            # text with white space that does not count is no text to reuse
                            pl = pl and all(t.txt() == t.stxt() for t in k.find('t'))
                            items.append({'plain': pl and bool(k.kids) and not any(x.at for x in k.kids if any(n != XML for n, _ in x.at)),
                                          't': xstr(s), 'h': sha(canon(k)) if not (pl and k.kids) else ''})
                    out['sst'] = {'present': True, 'part': r['t'], 'items': items, 'count': toint(t.get('count')),
                                  'unique': toint(t.get('uniqueCount')), 'order': [k.tag for k in t.kids] == sorted([k.tag for k in t.kids], key=lambda x: x != 'si')}
                elif r['ty'] == 'styles' and not out['sty']['present']:
                    out['sty'] = p_styles(t)
                elif r['ty'] == 'calcChain' and not out['calc']['present']:
                    its, last = [], ''
                    for k in t.kids:
                        if k.tag == 'c' and k.ns == S:
                            i = k.get('i')
                            last = i if i is not None else last
                            rr, cc = a1(k.get('r'))
                            its.append({'r': rr, 'c': cc, 'i': last,
                                        'x': ';'.join('%s=%s' % (a, flag(b)) for (n, a), b in sorted(k.at.items()) if a not in ('r', 'i') and flag(b))})
                    out['calc'] = {'present': True, 'items': its}
    if SHAPES:
        sh, va = set(), {}
        for n, t in [('', ct)] + [(n, tree(n)) for n in data if rel_owner(n) is not None] + \
                    [(n, tree(n)) for n in data if n == m or n in out['sheets'] or any(r['t'] == n and r['src'] == m and r['ty'] in ('styles', 'sharedStrings', 'calcChain') for r in rels)]:
            if t is not None and t.ns in (S, CT, PR):
                shapes(t, sh, va)
        out['shapes'] = [{'k': k, 'p': p, 't': t, 'n': list(n)} for k, p, t, n in sorted(sh)]
        # the sample of a value is no part of what is compared
        out['values'] = [{'k': k, 'a': a, 'w': w, 'c': list(c)} for (k, a, w, c), v in sorted(va.items())]
    return out


def light(path):
    """only whether the package and its XML parts can be read"""
    import xml.parsers.expat
    out = empty()
    try:
        z = zipfile.ZipFile(path)
        bad = z.testzip()
        data = {n: z.read(n) for n in z.namelist() if not n.endswith('/')}
    except Exception as ex:
        out['err'] = 'zip: %s' % type(ex).__name__
        return out
    if bad:
        out['err'] = 'crc'
        return out
    wf = {}
    for n, d in data.items():
        if n.endswith(('.xml', '.rels')):
            try:
                xml.parsers.expat.ParserCreate(namespace_separator=' ').Parse(d, True)
                wf[n] = True
            except Exception as ex:
                wf[n] = False
    out['parts'] = [{'n': n, 'ct': '', 'xml': n in wf, 'wf': wf.get(n, True), 'h': '', 'b': sha(d), 'ri': False, 'own': ''} for n, d in data.items()]
    if not wf.get('[Content_Types].xml'):
        out['err'] = 'content types'
        return out
    out['ok'] = True
    return out


if __name__ == '__main__':
    import sys, json
    json.dump(project(sys.argv[1]), sys.stdout, indent=1)

"""Files no producer should write: mutants of legal packages, and files that are none.

Each mutant is one to three hostile edits of a legal package, at the level of the file,
of the zip container, of the package, of the XML text or of the values in it.
"""
import io, os, random, re, struct, zipfile
from oxlib import *
import pkgs

VALUES = ['', ' ', '-1', '0', '1', '2', '99', '65535', '65536', '16384', '16385', '1048576', '1048577', '2147483647', '2147483648', '4294967295', '4294967296',
          '18446744073709551615', '18446744073709551616', '99999999999999999999999', '-9223372036854775809', '1.5', '1e5', '1e999', '-1e999', 'NaN', 'inf', 'INF', 'abc',
          'true', 'TRUE', 'on', '0x10', '+1', ' 1 ', '１', '\u0661', 'A1', 'A0', 'XFD1048576', 'XFE1', 'A1048577', 'ZZZZZZ999999999999', '1A', 'A1:B2', 'B2:A1', 'A1:', ':A1', 'A:A',
          '$A$1', 'rId1', 'rId999', 'x' * 5000, '&lt;&amp;&gt;', '😀', 'é', '../../../etc/passwd', '/', '//', '..', '.', 'xl/', '/xl/workbook.xml', 'http://x/', 'file:///etc/passwd',
          '\\', 'a\\b', '%00', '%2e%2e/x', '#', '?', 'sheet1.xml', '-0', 'hidden', 'veryHidden', 'visible', 's', 'n', 'str', 'shared', 'array', 'inlineStr', 'e', 'd', 'b', 'FFFFFFFF', 'zz']
JUNK = [b'', b'\x00', b'PK', b'PK\x03\x04', b'PK\x05\x06' + b'\x00' * 18, b'<', b'<a/>', b'<a>', b'</a>', b'<?xml', b'<?xml version="1.0"?>', b'hello world', b'\xff\xfe<\x00a\x00/\x00>\x00',
        b'\xef\xbb\xbf<a/>', b'\xef\xbb\xbf', b' \n', b'<!-- only -->', b'<!DOCTYPE a><a/>', b'{"json":1}', b'\x80\x81\xfe\xff' * 40, b'<a b="1" b="2"/>', b'<a>&undef;</a>', b'<a>\x00</a>',
        b'<a/><b/>', b'<a></b>', b'<a b=1/>', b'<a b/>', b'<1a/>', b'<a>&#0;</a>', b'<a>&#xFFFFFFFF;</a>', b'<a>&#xD800;</a>', b'<a>&#;</a>', b'<a>&;</a>', b'<a><![CDATA[</a>', b'<a><!-- -- --></a>',
        b'<x:a/>', b'<a xmlns:x=""/>', b'<a xmlns="u" xmlns="v"/>', b'<?xml version="1.0" encoding="UTF-16"?><a/>', b'<?xml version="1.0" encoding="latin-1"?><a>\xe9</a>',
        b'<!DOCTYPE a [<!ENTITY x "y"><!ENTITY z "&x;&x;&x;">]><a>&z;</a>', b'<!DOCTYPE a SYSTEM "file:///etc/passwd"><a/>', b'<a>' + b'\xff' + b'</a>', b'\x00' * 100, b'<a' + b' ' * 5000 + b'/>']
TAG = re.compile(r'<[A-Za-z_][^<>]*?/?>')
ATTR = re.compile(r'([\w:.-]+)\s*=\s*("[^"]*"|\'[^\']*\')')
ELEM = re.compile(r'<([A-Za-z_][\w:.-]*)((?:\s[^<>]*?)?)(?:/>|>((?:(?!<\1[\s/>]).)*?)</\1\s*>)', re.S)


class Mutant:
    def __init__(s, r, path):
        s.r = r
        z = zipfile.ZipFile(path)
        s.parts = [(n, z.read(n)) for n in z.namelist()]
        s.raw = None
        s.note = []

    def pick(s, want=None):
        r = s.r
        idx = [i for i, (n, _) in enumerate(s.parts) if (want or (lambda x: True))(n)]
        return r.choice(idx) if idx else None

    def xml(s):
        """a part the library reads, mostly"""
        r = s.r
        z = r.random()
        pats = ['worksheets/', 'workbook', 'styles', 'sharedStrings', '.rels', 'Content_Types', 'calcChain', 'core', 'theme', '']
        want = r.choice(pats[:2] * 4 + pats[2:6] * 3 + pats[6:])
        i = s.pick(lambda n: want in n and (n.endswith('.xml') or n.endswith('.rels')))
        return i if i is not None else s.pick(lambda n: n.endswith('.xml') or n.endswith('.rels'))

    def put(s, i, data):
        s.parts[i] = (s.parts[i][0], data)

    # ---- values and XML text
    def value(s):
        """one attribute gets a hostile value"""
        i = s.xml()
        t = s.parts[i][1].decode('utf-8', 'replace')
        hits = [m for m in ATTR.finditer(t) if not m.group(1).startswith('xmlns')]
        if not hits:
            return s.text()
        m = s.r.choice(hits)
        v = s.r.choice(VALUES)
        s.note.append('value %s %s=%s' % (s.parts[i][0], m.group(1), v[:30]))
        s.put(i, (t[:m.start(2)] + '"' + v.replace('"', '') + '"' + t[m.end(2):]).encode('utf-8', 'replace'))

    def attribute(s):
        """one attribute removed, doubled, renamed"""
        i = s.xml()
        t = s.parts[i][1].decode('utf-8', 'replace')
        hits = list(ATTR.finditer(t))
        if not hits:
            return s.text()
        m = s.r.choice(hits)
        k = s.r.choice(['drop', 'drop', 'drop', 'double', 'rename', 'prefix'])
        new = {'drop': '', 'double': m.group(0) + ' ' + m.group(0), 'rename': 'zz' + m.group(0), 'prefix': 'q:' + m.group(0)}[k]
        s.note.append('attribute %s %s %s' % (s.parts[i][0], k, m.group(1)))
        s.put(i, (t[:m.start()] + new + t[m.end():]).encode())

    def element(s):
        """one element removed, doubled, emptied, renamed, moved, wrapped"""
        i = s.xml()
        t = s.parts[i][1].decode('utf-8', 'replace')
        hits = list(ELEM.finditer(t))
        if not hits:
            return s.text()
        m = s.r.choice(hits)
        k = s.r.choice(['drop', 'drop', 'double', 'empty', 'rename', 'move', 'wrap', 'many'])
        g, tag = m.group(0), m.group(1)
        rest = t[:m.start()] + t[m.end():]
        s.note.append('element %s %s %s' % (s.parts[i][0], k, tag))
        if k == 'move':
            spots = [x.end() for x in TAG.finditer(rest) if not x.group(0).endswith('/>')] or [0]
            p = s.r.choice(spots)
            out = rest[:p] + g + rest[p:]
        else:
            new = {'drop': '', 'double': g + g, 'empty': '<%s/>' % tag, 'rename': '<zz%s/>' % tag.replace(':', ''), 'wrap': '<zz>%s</zz>' % g, 'many': g * s.r.choice([50, 300])}[k]
            out = t[:m.start()] + new + t[m.end():]
        s.put(i, out.encode())

    def content(s):
        """the text of an element"""
        i = s.xml()
        t = s.parts[i][1].decode('utf-8', 'replace')
        hits = [m for m in re.finditer(r'>([^<>]+)<', t) if m.group(1).strip()]
        if not hits:
            return s.value()
        m = s.r.choice(hits)
        v = s.r.choice(VALUES + ['&#0;', '&#x1F600;', '&undef;', '&#xD800;', '&', ']]>', '<zz/>', '<zz>t</zz>', '<![CDATA[x]]>', '<!-- c -->', '<?p i?>'])
        s.note.append('content %s %s' % (s.parts[i][0], v[:20]))
        s.put(i, (t[:m.start(1)] + v + t[m.end(1):]).encode('utf-8', 'replace'))

    def text(s):
        """the text of a part cut, doubled, with bytes removed, added or changed"""
        i = s.xml()
        d = bytearray(s.parts[i][1])
        r = s.r
        k = r.choice(['cut', 'cut', 'byte', 'byte', 'gap', 'junk', 'tail', 'head', 'utf16', 'bom', 'encoding', 'doctype'])
        s.note.append('text %s %s' % (s.parts[i][0], k))
        if not d:
            return
        p = r.randrange(len(d))
        if k == 'cut':
            d = d[:p]
        elif k == 'byte':
            for _ in range(r.choice([1, 1, 3, 20])):
                d[r.randrange(len(d))] = r.choice([0, 60, 62, 34, 38, 47, 32, 255, 128, r.randrange(256)])
        elif k == 'gap':
            del d[p:p + r.choice([1, 2, 10, 100])]
        elif k == 'junk':
            d[p:p] = r.choice(JUNK)
        elif k == 'tail':
            d += r.choice([b'<a/>', b'x', b'\x00', b'</worksheet>', b'<!-- c -->', b'\n\n', b'<![CDATA[x]]>'])
        elif k == 'head':
            d = bytearray(r.choice([b' ', b'x', b'\n', b'<a/>', b'\x00'])) + d
        elif k == 'utf16':
            d = bytearray(bytes(d).decode('utf-8', 'replace').encode('utf-16'))
        elif k == 'bom':
            d = bytearray(b'\xef\xbb\xbf') + d
        elif k == 'encoding':
            d = bytearray(re.sub(rb'encoding=("[^"]*"|\'[^\']*\')', b'encoding="' + r.choice([b'utf-16', b'latin1', b'x', b'', b'UTF-8']) + b'"', bytes(d), count=1))
        else:
            d = bytearray(re.sub(rb'<(?=[A-Za-z])', b'<!DOCTYPE x [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;&a;&a;&a;&a;&a;"><!ENTITY c "&b;&b;&b;&b;">]><', bytes(d), count=1))
        s.put(i, bytes(d))

    def deep(s):
        """deep nesting"""
        i = s.xml()
        t = s.parts[i][1].decode('utf-8', 'replace')
        n = s.r.choice([200, 3000, 20000, 100000])
        known = s.r.choice(['zz', 'c', 'row', 'sheetData', 'si', 'r', 'xf', 'font', 'Relationship', 'extLst', 'sheetView', 'is', 'sheets', 'zz:q'])
        spots = [x.end() for x in TAG.finditer(t) if not x.group(0).endswith('/>')] or [0]
        p = s.r.choice(spots)
        s.note.append('deep %s %s %d' % (s.parts[i][0], known, n))
        body = ('<%s>' % known) * n + ('</%s>' % known * n if s.r.random() < .7 else '')
        s.put(i, (t[:p] + body + t[p:]).encode())

    # ---- package
    def package(s):
        r = s.r
        k = r.choice(['drop', 'drop', 'drop', 'junk', 'junk', 'swap', 'copy', 'rename', 'dup', 'case', 'dir', 'rels'])
        i = s.xml() if r.random() < .8 else s.pick()
        n = s.parts[i][0]
        s.note.append('package %s %s' % (k, n))
        if k == 'drop':
            del s.parts[i]
        elif k == 'junk':
            s.put(i, r.choice(JUNK))
        elif k == 'swap':
            j = s.xml()
            a, b = s.parts[i][1], s.parts[j][1]
            s.put(i, b)
            s.put(j, a)
        elif k == 'copy':
            s.put(i, s.parts[s.xml()][1])
        elif k == 'rename':
            s.parts[i] = (r.choice(['x.xml', 'xl/../y.xml', '/abs.xml', '../out.xml', 'a\\b.xml', n.upper(), n + ' ', '.rels', 'xl//z.xml', './q.xml', 'é.xml', 'no_ext', '%41.xml']), s.parts[i][1])
        elif k == 'dup':
            s.parts.append((n, r.choice([s.parts[i][1], b'<a/>', b''])))
        elif k == 'case':
            s.parts.append((n.upper(), s.parts[i][1]))
        elif k == 'dir':
            s.parts.append((r.choice(['xl/', 'empty/', '/', '_rels/']), b''))
        else:
            src = r.choice(['_rels/.rels', 'xl/_rels/workbook.xml.rels', 'xl/worksheets/_rels/sheet1.xml.rels', 'x/_rels/gone.xml.rels'])
            ty = r.choice(['worksheet', 'styles', 'sharedStrings', 'officeDocument', 'calcChain', 'theme'])
            rel = '<Relationship Id="%s" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/%s" Target="%s"%s/>' % (
                r.choice(['rId1', 'rId77', '', 'a b']), ty, r.choice(['workbook.xml', 'worksheets/sheet1.xml', '/xl/workbook.xml', '../../x.xml', 'gone.xml', '', '.', 'http://a/b', '#frag', '/']),
                r.choice(['', '', ' TargetMode="External"', ' TargetMode="zz"']))
            for j, (m, d) in enumerate(s.parts):
                if m == src:
                    s.put(j, d.replace(b'</Relationships>', rel.encode() + b'</Relationships>'))
                    return
            s.parts.append((src, ('<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">%s</Relationships>' % rel).encode()))

    # ---- values that belong together
    def sheet(s):
        """cells, rows and columns that contradict each other or the grid"""
        r = s.r
        i = s.pick(lambda n: 'worksheets/sheet' in n or 'sheets/' in n) or s.xml()
        t = s.parts[i][1].decode('utf-8', 'replace')
        k = r.choice(['rows', 'cells', 'cols', 'cell', 'dim', 'views', 'row', 'two'])
        s.note.append('sheet %s %s' % (s.parts[i][0], k))
        v = lambda: r.choice(VALUES).replace('&', '')
        ref = lambda: r.choice(['A1', 'B2', 'C1', 'A2', 'AA1', 'XFD1048576', v(), v()])
        attr = lambda n, p=.6: ' %s="%s"' % (n, v()) if r.random() < p else ''
        cell = lambda: '<c r="%s"%s%s>%s%s</c>' % (ref(), attr('s', .3), attr('t', .5), r.choice(['', '<f>1</f>', '<f t="%s" si="%s" ref="%s"/>' % (v(), v(), v()), '<f/><f/>']),
                                                 r.choice(['', '<v>%s</v>' % v(), '<v/>', '<v>1</v><v>2</v>', '<is><t>x</t></is>', '<is/>', 'text', '<zz/>']))
        row = lambda: '<row%s%s%s>%s</row>' % (attr('r', .8), attr('ht', .3), attr(r.choice(['s', 'spans', 'outlineLevel', 'customHeight']), .3), ''.join(cell() for _ in range(r.randint(0, 3))))
        if k in ('rows', 'row', 'cells', 'cell', 'two'):
            new = ''.join(row() for _ in range(r.randint(1, 4))) if k in ('rows', 'row') else ''.join('<row r="%d">%s</row>' % (r.choice([1, 1, 2, 3]), ''.join(cell() for _ in range(3))) for _ in range(3))
            if k == 'two':
                new = '<sheetData>%s</sheetData><sheetData/>' % new
                t = re.sub(r'</worksheet>', lambda m: new + '</worksheet>', t, count=1)
            elif '<sheetData/>' in t:
                t = t.replace('<sheetData/>', '<sheetData>%s</sheetData>' % new, 1)
            elif r.random() < .5:
                t = t.replace('<sheetData>', '<sheetData>' + new, 1)
            else:
                t = t.replace('</sheetData>', new + '</sheetData>', 1)
        elif k == 'cols':
            c = '<cols>%s</cols>' % ''.join('<col%s%s%s%s/>' % (attr('min', .9), attr('max', .9), attr('width', .5), attr('style', .3)) for _ in range(r.randint(0, 4)))
            t = re.sub(r'<cols>.*?</cols>', '', t, flags=re.S).replace('<sheetData', c + '<sheetData', 1)
        elif k == 'dim':
            t = re.sub(r'<dimension[^>]*/>', lambda m: '<dimension%s/>' % attr('ref', .9), t, count=1)
        else:
            vw = '<sheetViews>%s</sheetViews>' % r.choice(['', '<sheetView/>', '<sheetView%s%s/>' % (attr('workbookViewId'), attr('zoomScale')), '<pane/>', '<sheetView workbookViewId="0"/>' * 3, 'text'])
            t = re.sub(r'<sheetViews>.*?</sheetViews>|<sheetViews/>', '', t, flags=re.S).replace('<sheetData', vw + '<sheetData', 1)
        s.put(i, t.encode('utf-8', 'replace'))

    def book(s):
        """sheet records, views and names of the workbook"""
        r = s.r
        i = s.pick(lambda n: 'workbook' in n and n.endswith('.xml'))
        if i is None:
            return s.value()
        t = s.parts[i][1].decode('utf-8', 'replace')
        v = lambda: r.choice(VALUES).replace('&', '')
        k = r.choice(['sheets', 'nosheets', 'views', 'names', 'dup'])
        s.note.append('book ' + k)
        if k == 'nosheets':
            t = re.sub(r'<sheets>.*?</sheets>', r.choice(['', '<sheets/>', '<sheets></sheets>']), t, flags=re.S)
        elif k == 'sheets':
            n = '<sheet name="%s" sheetId="%s" r:id="%s"/>' % (r.choice([v(), 'Sheet1', '', 'x' * 40, 'a/b?']), v(), r.choice(['rId1', 'rId2', v()]))
            t = t.replace('</sheets>', n + '</sheets>', 1)
        elif k == 'views':
            vw = '<bookViews>%s</bookViews>' % r.choice(['', '<workbookView activeTab="%s" firstSheet="%s" visibility="%s" minimized="%s"/>' % (v(), v(), v(), v()), '<zz/>', 'text', '<workbookView/>' * 200])
            t = re.sub(r'<bookViews>.*?</bookViews>', '', t, flags=re.S).replace('<sheets', vw + '<sheets', 1)
        elif k == 'names':
            t = re.sub(r'<definedNames>.*?</definedNames>', '', t, flags=re.S).replace('</sheets>', '</sheets><definedNames><definedName name="%s" localSheetId="%s">%s</definedName><definedName/></definedNames>' % (v(), v(), v()), 1)
        else:
            m = re.search(r'<sheet\b[^>]*/>', t)
            if m:
                t = t.replace(m.group(0), m.group(0) * 2, 1)
        s.put(i, t.encode('utf-8', 'replace'))

    def styles(s):
        r = s.r
        i = s.pick(lambda n: 'styles' in n and n.endswith('.xml'))
        if i is None:
            return s.value()
        t = s.parts[i][1].decode('utf-8', 'replace')
        v = lambda: r.choice(VALUES).replace('&', '')
        k = r.choice(['xf', 'fonts', 'empty', 'numfmt', 'counts', 'drop'])
        s.note.append('styles ' + k)
        if k == 'xf':
            t = t.replace('</cellXfs>', '<xf numFmtId="%s" fontId="%s" fillId="%s" borderId="%s" xfId="%s"/></cellXfs>' % (v(), v(), v(), v(), v()), 1)
        elif k == 'fonts':
            t = t.replace('</fonts>', '<font><sz val="%s"/><color rgb="%s" theme="%s"/><name val="%s"/><family val="%s"/><u val="%s"/></font></fonts>' % (v(), v(), v(), v(), v(), v()), 1)
        elif k == 'empty':
            c = r.choice(['cellXfs', 'fonts', 'fills', 'borders', 'cellStyleXfs', 'numFmts', 'cellStyles', 'dxfs'])
            t = re.sub(r'<%s\b[^>]*>.*?</%s>' % (c, c), r.choice(['', '<%s/>' % c, '<%s count="%s"/>' % (c, v())]), t, flags=re.S)
        elif k == 'numfmt':
            t = re.sub(r'<numFmts.*?</numFmts>', '', t, flags=re.S).replace('<fonts', '<numFmts count="%s"><numFmt numFmtId="%s" formatCode="%s"/><numFmt/></numFmts><fonts' % (v(), v(), v()), 1)
        elif k == 'counts':
            t = re.sub(r'count="\d+"', lambda m: 'count="%s"' % v(), t)
        else:
            t = '<styleSheet xmlns="%s"/>' % pkgs.NS
        s.put(i, t.encode('utf-8', 'replace'))

    # ---- the file
    def write(s, path):
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for n, d in s.parts:
                    z.writestr(n, d)
        d = bytearray(b.getvalue())
        if s.raw:
            d = s.raw(d)
        open(path, 'wb').write(bytes(d))

    def container(s):
        r = s.r
        k = r.choice(['cut', 'flip', 'flip', 'headers', 'prefix', 'suffix', 'method', 'crypt', 'eocd', 'sizes'])
        s.note.append('container ' + k)

        def raw(d):
            if k == 'cut':
                return d[:r.randrange(len(d))]
            if k == 'flip':
                for _ in range(r.choice([1, 1, 5, 40])):
                    d[r.randrange(len(d))] ^= 1 << r.randrange(8)
                return d
            if k == 'prefix':
                return bytearray(r.choice([b'x', b'MZ' * 50, b'\x00' * 7])) + d
            if k == 'suffix':
                return d + r.choice([b'x', b'\x00' * 70000, b'PK\x05\x06'])
            sig = {'headers': b'PK\x03\x04', 'method': b'PK\x01\x02', 'crypt': b'PK\x01\x02', 'eocd': b'PK\x05\x06', 'sizes': b'PK\x01\x02'}[k]
            pos = [m.start() for m in re.finditer(re.escape(sig), bytes(d))]
            p = r.choice(pos)
            if k == 'method':
                struct.pack_into('<H', d, p + 10, r.choice([1, 9, 12, 14, 93, 99, 255]))
            elif k == 'crypt':
                d[p + 8] |= 1
            elif k == 'eocd':
                d[p + r.randrange(4, 22)] = r.randrange(256)
            elif k == 'sizes':
                struct.pack_into('<I', d, p + r.choice([16, 20, 24, 42]), r.choice([0, 1, 0xffffffff, 0x7fffffff, 100000]))
            else:
                d[p + r.randrange(4, 30)] = r.randrange(256)
            return d
        s.raw = raw


KINDS = ['value'] * 8 + ['attribute'] * 4 + ['element'] * 6 + ['content'] * 3 + ['text'] * 4 + ['package'] * 5 + ['sheet'] * 6 + ['book'] * 3 + ['styles'] * 3 + ['deep'] + ['container'] * 2


def use(r, names, work, sid, kind='', rest=True):
    """a session on whatever was opened"""
    ops = []
    out = [work.path('%s-%d.out' % (sid, k)) for k in range(3)]
    if kind:
        return [{'op': kind + 'save', 'file': out[0]}, {'op': kind + 'new', 'file': out[0]}, {'op': kind + 'save', 'file': out[1]}]
    names = list(names) + ['nosuch', '']
    ops.append({'op': 'list'})
    if rest:
        k = 0
        for n in names[:4]:
            k += 1
            h = 'h%d' % k
            if r.random() < .8:
                ops.append({'op': 'get', 'h': h, 'name': n})
                for _ in range(r.randint(0, 4)):
                    z = r.random()
                    if z < .4:
                        ops.append({'op': 'cells', 'h': h, 'ref': r.choice(['A1', 'B2', 'XFD1048576', 'C3', 'AA10', 'zz']), 'cells': [{'v': r.choice(['1', 'x', 'true', '']), 't': r.choice(['auto', 's', 'n']), **({'f': '1+1'} if r.random() < .2 else {}), **({'sty': 't'} if r.random() < .3 else {})} for _ in range(r.choice([1, 1, 3]))]})
                    elif z < .6:
                        ops.append({'op': 'row', 'h': h, 'row': r.choice([1, 2, 5, 1048576]), 'p': {'height': 20, 'hidden': r.random() < .5}})
                    elif z < .85:
                        ops.append({'op': 'col', 'h': h, 'col': r.choice([1, 2, 3, 5, 16384]), 'p': r.choice([None, {'width': 12}, {'hidden': True}])})
                    else:
                        ops.append({'op': 'style', 'as': 't', 's': {'b': True, 'size': 14, 'num': r.choice([0, 2, -1]), 'code': '0.0'}})
                ops.append({'op': 'delete' if r.random() < .12 else 'close', 'h': h})
        for _ in range(r.randint(0, 4)):
            z = r.random()
            ops.append({'op': 'rename', 'old': r.choice(names), 'new': r.choice(['N1', 'N2'] + names)} if z < .25 else
                       {'op': 'active', 'name': r.choice(names)} if z < .45 else {'op': 'hide', 'name': r.choice(names)} if z < .6 else
                       {'op': 'view', 'k': r.choice(['visible', 'minimize', 'tabs', 'vscroll', 'hscroll']), 'v': r.random() < .5} if z < .8 else
                       {'op': 'style', 'as': 'u', 's': {'i': True}} if z < .9 else {'op': 'list'})
        if r.random() < .4:
            ops += [{'op': 'add', 'h': 'ha', 'name': r.choice([None, 'Added'])}, {'op': 'cells', 'h': 'ha', 'ref': 'B2', 'cells': [{'v': 'x', 't': 'auto'}]}, {'op': 'close', 'h': 'ha'}]
    ops += [{'op': 'save', 'file': out[0]}, {'op': 'new', 'file': out[0]}, {'op': 'list'}, {'op': 'save', 'file': out[1]}]
    return ops


def part_kind(n):
    for k in ('Content_Types', 'workbook.xml.rels', '.rels', 'worksheets/', 'sheets/', 'styles', 'sharedStrings', 'calcChain', 'core', 'theme', 'workbook'):
        if k in n:
            return 'worksheets/' if k == 'sheets/' else k
    return None


def session(names, work, sid):
    """a session that comes by everything the library reads"""
    out = [work.path('%s-%d.out' % (sid, k)) for k in range(2)]
    ops = [{'op': 'list'}, {'op': 'style', 'as': 't', 's': {'b': True, 'size': 14, 'num': -1, 'code': '0.0', 'bg': 'FF00FF', 'bl': {'s': 'thin'}}}]
    for k, n in enumerate(names):
        h = 'h%d' % k
        ops += [{'op': 'get', 'h': h, 'name': n}, {'op': 'cells', 'h': h, 'ref': 'B2', 'cells': [{'v': 'x', 't': 'auto', 'sty': 't'}, {'v': '1', 't': 'auto'}]},
                {'op': 'row', 'h': h, 'row': 2, 'p': {'height': 20}}, {'op': 'col', 'h': h, 'col': 3, 'p': {'width': 12}}, {'op': 'close', 'h': h}]
    ops += [{'op': 'add', 'h': 'ha', 'name': None}, {'op': 'close', 'h': 'ha'}, {'op': 'view', 'k': 'minimize', 'v': True}]
    if names:
        ops += [{'op': 'rename', 'old': names[0], 'new': 'Renamed'}, {'op': 'active', 'name': names[-1]}, {'op': 'hide', 'name': names[-1]},
                {'op': 'get', 'h': 'hd', 'name': 'Renamed'}, {'op': 'delete', 'h': 'hd'}]
    return ops + [{'op': 'save', 'file': out[0]}, {'op': 'new', 'file': out[0]}, {'op': 'list'}, {'op': 'save', 'file': out[1]}]


def sweep(r, bases, tier, work):
    """every attribute and every element of every kind of part the library reads, one at a time"""
    spots = {}
    for bi, (base, names, kind) in enumerate(bases):
        if kind:
            continue
        z = zipfile.ZipFile(base)
        for n in z.namelist():
            pk = part_kind(n)
            if not pk:
                continue
            t = z.read(n).decode('utf-8', 'replace')
            for m in TAG.finditer(t):
                tag = re.match(r'<([\w:.-]+)', m.group(0)).group(1)
                spots.setdefault((pk, tag, None), []).append((bi, n, m.start(), m.end()))
                for a in ATTR.finditer(m.group(0)):
                    if not a.group(1).startswith('xmlns'):
                        spots.setdefault((pk, tag, a.group(1)), []).append((bi, n, m.start() + a.start(), m.start() + a.start(2), m.start() + a.end(2)))
    out = []
    for key in sorted(spots, key=str):
        for _ in range(1 if tier == 'quick' else 3):
            spot = r.choice(spots[key])
            bi, n = spot[:2]
            base, names, kind = bases[bi]
            z = zipfile.ZipFile(base)
            t = z.read(n).decode('utf-8', 'replace')
            if key[2] is None:
                m = ELEM.match(t, spot[2])
                news = [t[:spot[2]] + '<%s/>' % key[1] + t[m.end():], t[:spot[2]] + t[m.end():], t[:spot[2]] + m.group(0) * 2 + t[m.end():]] if m else []
            else:
                vals = ['wide', '', '-1', '4294967296', '99999999999999999999999'] if tier == 'quick' else VALUES
                news = [t[:spot[3]] + '"%s"' % v.replace('"', '') + t[spot[4]:] for v in vals] + [t[:spot[2]] + t[spot[4]:]]
            for new in news:
                sid = 'k%d' % len(out)
                m = Mutant(r, base)
                m.parts = [(x, new.encode() if x == n else d) for x, d in m.parts]
                f = work.path(sid + '.in')
                m.write(f)
                out.append({'id': sid, 'legal': False, 'note': ['sweep %s %s %s' % key], 'ops': [{'op': 'new', 'file': f}] + session(names, work, sid)})
    return out


def scripts(prop, tier, seed, work):
    r = random.Random('%s-%d' % (prop, seed))
    bases = [(FIX, ['Style', 'formula'], '')] * 2
    for k in range(10 if tier == 'quick' else 60):
        f = work.path('base-%d.xlsx' % k)
        b = pkgs.build('%s-%d-%d' % (prop, seed, k), f)
        bases.append((f, b['names'], ''))
    for k in range(2 if tier == 'quick' else 8):
        for kind in 'wp':
            f = work.path('base-%s-%d' % (kind, k))
            pkgs.office('%s-%d-%s-%d' % (prop, seed, kind, k), f, kind)
            bases.append((f, [], kind))
    # a blank package as the library writes it is another base
    out = []
    blank = work.path('blank.xlsx')
    total = 2400 if tier == 'quick' else 26000
    for n in range(total):
        base, names, kind = r.choice(bases)
        sid = 'm%d' % n
        f = work.path(sid + '.in')
        m = Mutant(r, base)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not m.parts:
                break
            try:
                getattr(m, r.choice(KINDS))()
            except (ValueError, IndexError):
                pass
        m.write(f)
        out.append({'id': sid, 'legal': False, 'note': m.note, 'par': r.random() < .3,
                    'ops': [{'op': kind + 'new', 'file': f}] + use(r, names, work, sid, kind, r.random() < .9)})
    out += sweep(r, bases[1:], tier, work)
    # files that are no packages
    d = work.path('adir')
    os.makedirs(d, exist_ok=True)
    ff = [d, work.path('nosuch'), work.path('no/such/dir'), '']
    for k, j in enumerate(JUNK):
        f = work.path('junk-%d' % k)
        open(f, 'wb').write(j)
        ff.append(f)
    for k in range(10 if tier == 'quick' else 100):
        f = work.path('rand-%d' % k)
        open(f, 'wb').write(bytes(r.randrange(256) for _ in range(r.choice([1, 22, 100, 5000]))))
        ff.append(f)
    for k, f in enumerate(ff):
        for kind in ('', 'w', 'p'):
            sid = 'f%d%s' % (k, kind)
            out.append({'id': sid, 'legal': False, 'ops': [{'op': kind + 'new', 'file': f}] + use(r, ['Sheet1'], work, sid, kind)})
    # a legal package of another kind
    for k, (f, names, kind) in enumerate(bases):
        for other in ('', 'w', 'p'):
            if other != kind:
                sid = 'o%d%s' % (k, other)
                out.append({'id': sid, 'legal': False, 'ops': [{'op': other + 'new', 'file': f}] + use(r, names, work, sid, other)})
    return out

"""Legal workbooks as other producers write them: a seeded builder.

Everything in these packages is legal OOXML; the features are drawn at random so that a
loaded sheet, style sheet or package combines what the repository's own test file does
not contain.  Returns what the generator needs to know (names, positions, masters).
"""
import posixpath, random, re, zipfile
from xml.sax.saxutils import escape, quoteattr

NS = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
RN = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PKG = 'http://schemas.openxmlformats.org/package/2006/'
MC = 'http://schemas.openxmlformats.org/markup-compatibility/2006'
AC = 'http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac'
X14 = 'http://schemas.microsoft.com/office/spreadsheetml/2009/9/main'
XR = 'http://schemas.microsoft.com/office/spreadsheetml/2014/revision'
OT = 'application/vnd.openxmlformats-officedocument.'
SM = OT + 'spreadsheetml.'
REL = RN + '/'

NAMES = ['Data', 'Überblick & mehr', 'a "quoted" one', 'Tab<1>', "it's", '日本', 'Sheet1', 'Sheet3', 'hidden one', 'X' * 31, 'dots.and,commas', '😀', 'Sheet 4', 'sheet1']
TEXTS = ['plain', 'a & b', '<tag>', ' lead', 'trail ', 'two  blanks', 'tab\there', 'line\nbreak', '"q"', "'a'", 'é日本😀', 'true', '42', '&amp;', ']]>', '_x0041_ish', 'x']


def esc(r, s):
    """one of the spellings of a text in XML content"""
    k = r.random()
    if k < .55 or ']]>' in s:
        out = escape(s)
    elif k < .7:
        out = ''.join('&#%d;' % ord(c) if r.random() < .4 or c in '<&>' else c for c in s)
    elif k < .82:
        out = '<![CDATA[' + s + ']]>'
    elif k < .92 and len(s) > 1:
        i = r.randint(1, len(s) - 1)
        out = escape(s[:i]) + '<!-- note -->' + escape(s[i:])
    else:
        out = ''.join({'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}.get(c, '&#x%X;' % ord(c) if r.random() < .2 else c) for c in s)
    return out.replace('\r', '&#13;')


def at(r, s):
    """one of the spellings of an attribute value"""
    v = escape(s, {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})
    if r.random() < .3:
        v = ''.join('&#x%X;' % ord(c) if r.random() < .15 and c not in '&;#' and '&' not in v else c for c in v)
    if r.random() < .7:
        return '"' + v.replace('"', '&quot;') + '"'
    return "'" + v.replace("'", '&apos;') + "'"


def col(c):
    s = ''
    while c:
        c, d = divmod(c - 1, 26)
        s = chr(65 + d) + s
    return s


def pres(s):
    return ' xml:space="preserve"' if s != s.strip() or '  ' in s or '\n' in s or '\t' in s else ''


def prefixed(doc, ns, pre):
    """the same document with a prefix on every element of the namespace, or the document itself"""
    import re
    if '<![CDATA[' in doc or '<!--' in doc or doc.count(' xmlns=') != 1 or ' xmlns="%s"' % ns not in doc or ' xmlns:%s=' % pre in doc:
        return doc
    doc = doc.replace(' xmlns="%s"' % ns, ' xmlns:%s="%s"' % (pre, ns))
    return re.sub(r'<(/?)(?=[a-zA-Z][a-zA-Z0-9]*[\s/>])', r'<\1%s:' % pre, doc)


BOOL = ['0', '1', '0', '1', 'true', 'false']


def utf16(r, b):
    t = re.sub(r'^(<\?xml[^>]*?)(\s+encoding=["\'][\w-]+["\'])', r'\1' + r.choice([' encoding="UTF-16"', '']), b.decode('utf-8-sig'))
    return '\ufeff'.encode('utf-16-le') + t.encode('utf-16-le') if r.random() < .6 else '\ufeff'.encode('utf-16-be') + t.encode('utf-16-be')


def strict(b):
    b = re.sub(rb'http://schemas\.openxmlformats\.org/(spreadsheetml|drawingml|officeDocument|wordprocessingml|presentationml)/2006/', rb'http://purl.oclc.org/ooxml/\1/', b)
    return b.replace(b'relationships/extended-properties', b'relationships/extendedProperties').replace(b'relationships/custom-properties', b'relationships/customProperties')


def yes(r):
    return r.choice(['1', '1', '1', 'true'])


BOOK_ORDER = ['fileVersion', 'fileSharing', 'workbookPr', 'mc:AlternateContent', 'workbookProtection', 'bookViews', 'sheets', 'functionGroups', 'externalReferences', 'definedNames',
              'calcPr', 'oleSize', 'customWorkbookViews', 'pivotCaches', 'smartTagPr', 'smartTagTypes', 'webPublishing', 'fileRecoveryPr', 'webPublishObjects', 'extLst']
SHEET_ORDER = ['sheetPr', 'dimension', 'sheetViews', 'sheetFormatPr', 'cols', 'sheetData', 'sheetCalcPr', 'sheetProtection', 'protectedRanges', 'scenarios', 'autoFilter', 'sortState',
               'dataConsolidate', 'customSheetViews', 'mergeCells', 'phoneticPr', 'conditionalFormatting', 'dataValidations', 'hyperlinks', 'printOptions', 'pageMargins', 'pageSetup',
               'headerFooter', 'rowBreaks', 'colBreaks', 'customProperties', 'cellWatches', 'ignoredErrors', 'smartTags', 'drawing', 'legacyDrawing', 'legacyDrawingHF', 'drawingHF',
               'picture', 'oleObjects', 'controls', 'webPublishItems', 'tableParts', 'extLst']


def insert(o, order, new):
    """fragments of elements at the places the format has for them"""
    at_ = lambda x: order.index(re.match(r'\s*<([\w:]+)', x).group(1)) if x.strip() else -1
    for x in new:
        k = next((j for j in range(len(o)) if at_(o[j]) > at_(x)), len(o))
        o.insert(k, x)


class Forward:
    """a file that can not be rewound: sizes follow the data"""
    def __init__(s, f):
        s.f = f

    def write(s, b):
        return s.f.write(b)

    def flush(s):
        s.f.flush()


class Pkg:
    def __init__(p, seed, focus=''):
        p.r = random.Random('pkg-%s' % seed)
        p.focus = focus
        p.parts, p.over, p.defs, p.rels = {}, {}, {}, {}
        p.masters = {}

    def has(p, q):
        return p.r.random() < q

    def part(p, name, data, ct=None):
        p.parts[name] = data.encode('utf-8') if isinstance(data, str) else data
        if ct:
            p.over[name] = ct

    def blob(p, n):
        """bytes; now and then as many as a picture or a video has"""
        r = p.r
        k = r.random()
        if k < .06:
            return bytes(r.randrange(256) for _ in range(997)) * (r.choice([66, 140, 1060, 2200, 4300]) + r.randint(0, 3))
        if k < .09:
            return b'\0' * r.choice([32768, 65536, 1 << 20, (1 << 20) + 1, 1 << 22])
        return bytes(r.randrange(256) for _ in range(n))

    def rel(p, src, ty, target, mode=None, rid=None):
        l = p.rels.setdefault(src, [])
        rid = rid or ('rId%d' if p.focus == 'reuse' else p.r.choice(['rId%d', 'rId%d', 'R%d', 'id_%d'])) % (len(l) + 1 + (p.shift if src != '' else 0))
        while any(x[0] == rid for x in l):
            rid += 'x'
        if mode is None:
            k = p.r.random()
            import posixpath
            if k < .35:
                t = '/' + target
            else:
                t = posixpath.relpath(target, posixpath.dirname(src) or '.')
                if k > .9:
                    t = './' + t
            l.append((rid, ty if ty.startswith('http') else REL + ty, t, None))
        else:
            l.append((rid, ty if ty.startswith('http') else REL + ty, target, mode))
        return rid

    def decl(p):
        return p.r.choice(['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n', '<?xml version="1.0" encoding="utf-8"?>', "<?xml version='1.0'?>\n", '',
                           '\ufeff<?xml version="1.0" encoding="UTF-8"?>\r\n', '<?xml version="1.0" encoding="UTF-8"?>\n<!-- made by hand -->\n'])

    def props(p):
        r = p.r
        # document properties and strangers
        if p.has(.75):
            pre = r.choice(['dcterms', 'dt'])
            times = ' xmlns:%s="http://purl.org/dc/terms/"' % pre
            xsi = ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'
            # the names of the times declared at the root or at each element that needs them
            at_root = r.choice([times + xsi, times + xsi, times, xsi, ''])
            own = ''.join(x for x in (times, xsi) if x not in at_root)
            core = '<cp:coreProperties xmlns:cp="%smetadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/"%s>' % (PKG, at_root)
            if p.has(.7):
                core += '<dc:title>%s</dc:title>' % esc(r, 'R&D <1> "x"')
            if p.has(.7):
                core += '<dc:creator>me &amp; you</dc:creator><cp:lastModifiedBy/>'
            if p.has(.3):
                core += '<cp:revision>7</cp:revision><cp:keywords>a;b</cp:keywords>'
            if p.has(.6):
                core += '<%s:created%s xsi:type="%s:W3CDTF">2001-02-03T04:05:06Z</%s:created>' % (pre, own, pre, pre)
            if p.has(.6):
                core += '<%s:modified%s xsi:type="%s:W3CDTF">2002-03-04T05:06:07Z</%s:modified>' % (pre, own, pre, pre)
            if p.has(.3):
                core += '<cp:category>c &lt; d</cp:category>'
            cp = r.choice(['docProps/core.xml', 'docProps/core.xml', 'package/services/metadata/core-properties/x.psmdcp'])
            p.part(cp, p.decl() + core + '</cp:coreProperties>', 'application/vnd.openxmlformats-package.core-properties+xml')
            p.rel('', PKG + 'relationships/metadata/core-properties', cp)
        if p.has(.6):
            p.part('docProps/app.xml', '<?xml version="1.0"?><Properties xmlns="http://schemas.openxmlformats.org/officeDocument/2006/extended-properties"><Application>X &amp; Y</Application></Properties>', OT + 'extended-properties+xml')
            p.rel('', 'extended-properties', 'docProps/app.xml')
        if p.has(.25):
            p.part('docProps/custom.xml', '<?xml version="1.0"?><Properties xmlns="http://schemas.openxmlformats.org/officeDocument/2006/custom-properties"/>', OT + 'custom-properties+xml')
            p.rel('', 'custom-properties', 'docProps/custom.xml')

    def plain(p, sheets, path, chain=None):
        """the least a workbook needs, around the given rows of its sheets"""
        n = len(sheets)
        S = NS
        p.defs = {'rels': 'application/vnd.openxmlformats-package.relationships+xml', 'xml': 'application/xml'}
        p.rels = {'': [('rId1', REL + 'officeDocument', 'xl/workbook.xml', None)], 'xl/workbook.xml': []}
        p.part('xl/workbook.xml', '<workbook xmlns="%s" xmlns:r="%s"><sheets>%s</sheets></workbook>' % (
            S, REL.rstrip('/'), ''.join('<sheet name="Sheet%d" sheetId="%d" r:id="rId%d"/>' % (k, k, k) for k in range(1, n + 1))), SM + 'sheet.main+xml')
        for k, (part, rows) in enumerate(sheets.items()):
            p.part(part, '<worksheet xmlns="%s"><sheetData>%s</sheetData></worksheet>' % (S, rows), SM + 'worksheet+xml')
            p.rels['xl/workbook.xml'].append(('rId%d' % (k + 1), REL + 'worksheet', posixpath.relpath(part, 'xl'), None))
        if chain:
            p.part('xl/calcChain.xml', '<calcChain xmlns="%s">%s</calcChain>' % (S, ''.join('<c r="%s%d" i="%d"/>' % (b, c, a) for a, b, c in chain)), SM + 'calcChain+xml')
            p.rels['xl/workbook.xml'].append(('rId%d' % (n + 1), REL + 'calcChain', 'calcChain.xml', None))
        p.has = lambda q: False
        p.decl = lambda: ''
        p.write(path)

    def strays(p):
        """parts under names that look like leftovers, copies, hidden files or parts of another kind"""
        r = random.Random('strays-%s' % p.r.getstate()[1][0])
        if r.random() > .12:
            return
        base = next((t for a, b, t, m in p.rels.get('', []) if b.endswith('/officeDocument')), 'xl/workbook.xml')
        base = base[2:] if base.startswith('./') else base.lstrip('/')
        d = base.rsplit('/', 1)[0] + '/' if '/' in base else ''
        for n_ in r.sample(['customXml/._state/item1.xml', '__MACOSX/._book.xml', '.hidden/x.bin', d + '.x.xml', d + 'Thumbs.db', '~$lock', d + 'worksheets/sheet1.xml.bak', d + 'worksheets/sheet.tmp',
                            d + 'calcChain.xml~', d + 'worksheets/_rels/notes.xml', 'META-INF/manifest.xml', 'mimetype', 'docProps/core.xml.old', 'docProps/app2.xml', d + 'Worksheets.xml',
                            d + 'theme/', d + 'a/b/c/d/e/f/g/h.xml', 'x' * 120 + '.xml', d + 'styles', d + 'sheet1.xml', 'rels', 'xml', d + 'worksheets/sheet01.xml', 'Copy of ' + 'book.bin', d + '1', 'docProps/custom2.xml'],
                           r.choice([1, 1, 2, 5, 26])):
            if n_.endswith('/') or n_ in p.parts or ' ' in n_:
                continue
            ext = n_.rsplit('/', 1)[-1].rsplit('.', 1)[-1] if '.' in n_.rsplit('/', 1)[-1] else ''
            ct = None if ext in p.defs and r.random() < .5 else r.choice(['application/octet-stream', 'application/xml', 'text/plain'])
            xml = ext in ('xml', 'vml') or ct == 'application/xml'
            p.part(n_, r.choice([b'<a/>', b'<?xml version="1.0"?>\n<a>&amp;</a>', b'<a:b xmlns:a="urn:a"><!-- c --> </a:b>'] if xml else [b'', b'plain', b'\x00\x01\xff']), ct)
            if r.random() < .4:
                p.rel(base, 'urn:example:stray', n_)

    def write(p, path):
        p.strays()
        r = p.r
        # write
        import posixpath
        for src, l in p.rels.items():
            n_ = '_rels/.rels' if src == '' else posixpath.join(posixpath.dirname(src), '_rels', posixpath.basename(src) + '.rels')
            doc = ('<Relationships xmlns="%srelationships">%s</Relationships>' % (
                PKG, ''.join('<Relationship Id="%s" Type="%s" Target=%s%s/>' % (a, b, at(r, t), ' TargetMode="%s"' % m if m else '') for a, b, t, m in l)))
            p.parts[n_] = (p.decl() + (prefixed(doc, PKG + 'relationships', 'rel') if p.has(.08) else doc)).encode('utf-8')
        ct = '<Types xmlns="%scontent-types">%s%s</Types>' % (PKG, ''.join('<Default Extension="%s" ContentType="%s"/>' % kv for kv in p.defs.items()),
                                                          ''.join('<Override PartName=%s ContentType="%s"/>' % (quoteattr('/' + a), b) for a, b in p.over.items()))
        if p.has(.08):
            ct = prefixed(ct, PKG + 'content-types', 'ct')
        out = [('[Content_Types].xml', (p.decl() + ct).encode('utf-8'))] + list(p.parts.items())
        u = random.Random('utf16-%s' % r.getstate()[1][0])
        if u.random() < .08:
            # the other encoding a part may have
            few = u.choice([.15, .5, 1])
            out = [(n_, utf16(u, b)) if u.random() < few and n_.endswith(('.xml', '.rels')) and b.lstrip(b'\xef\xbb\xbf').startswith(b'<') else (n_, b) for n_, b in out]
        elif u.random() < .07:
            # the names of strict documents
            out = [(n_, strict(b) if n_.endswith(('.xml', '.rels')) and n_ != '[Content_Types].xml' else b) for n_, b in out]
        if p.has(.3):
            r.shuffle(out)
        dirs = []
        if p.has(.12):
            # entries for the folders, as common archivers write them
            dirs = sorted({'/'.join(n_.split('/')[:k]) + '/' for n_, _ in out for k in range(1, n_.count('/') + 1)})
        how = r.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])
        stream, marks, note = p.has(.1), p.has(.2), p.has(.06)
        with open(path, 'wb') as f, zipfile.ZipFile(Forward(f) if stream else f, 'w', how) as z:
            for n_, b in [(d, b'') for d in dirs] + out:
                i = zipfile.ZipInfo(n_, (r.randint(1980, 2107), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), 2 * r.randint(0, 29)) if marks else (1980, 1, 1, 0, 0, 0))
                i.compress_type = zipfile.ZIP_STORED if n_.endswith('/') else r.choice([how, zipfile.ZIP_DEFLATED]) if marks else how
                if marks:
                    i.create_system = r.choice([0, 3, 19])
                    i.external_attr = r.choice([0, 0o100644 << 16, 0x20, 0o100400 << 16])
                    if r.random() < .4:
                        i.extra = b'UT\x05\x00\x03' + bytes(r.randrange(256) for _ in range(4))
                    if r.random() < .2:
                        i.comment = b'entry'
                z.writestr(i, b)
            if note:
                z.comment = r.choice([b'made by hand', b'PK\x03\x04 not really', 'größe'.encode()])

    # ------------------------------------------------------------------ parts
    def styles(p):
        r = p.r
        nf = [(164, '0.000'), (165, '#,##0 "x & y"'), (170, '[Red]0'), (200, 'yyyy\\-mm\\-dd')][:r.randint(0, 4)]
        fonts = ['<font><sz val="11"/><color theme="1"/><name val="Calibri"/><family val="2"/><scheme val="minor"/></font>',
                 '<font><b/><sz val="11"/><color rgb="FFFF0000"/><name val="Calibri"/><family val="2"/></font>',
                 '<font><b val="0"/><i val="1"/><strike/><u val="double"/><vertAlign val="superscript"/><sz val="10.5"/><color theme="4" tint="-0.249977111117893"/><name val="A &amp; B"/><charset val="1"/></font>',
                 '<font><u/><sz val="14"/><color indexed="10"/><name val="Arial"/><family val="2"/></font>',
                 '<font><sz val="11"/><name val="NoColor"/></font>', '<font/>',
                 '<font><b/><sz val="18"/><color theme="3"/><name val="Cambria"/><family val="1"/><scheme val="major"/></font>', '<font><i/><u val="single"/><sz val="9"/><color rgb="FF00FF00"/><name val="Cour"/><family val="3"/><scheme val="none"/></font>',
                 '<font><u val="singleAccounting"/><sz val="12"/><name val="D"/></font>', '<font><outline/><shadow/><condense/><extend/><sz val="8"/><color auto="1"/><name val="X"/></font>']
        fonts = fonts[:1] + r.sample(fonts[1:], r.randint(0, 9))
        fills = ['<fill><patternFill patternType="none"/></fill>', '<fill><patternFill patternType="gray125"/></fill>',
                 '<fill><patternFill patternType="solid"><fgColor rgb="FFFFFF00"/><bgColor indexed="64"/></patternFill></fill>',
                 '<fill><patternFill patternType="darkGrid"><fgColor theme="5" tint="0.59"/><bgColor rgb="FF00FF00"/></patternFill></fill>',
                 '<fill><gradientFill degree="90"><stop position="0"><color theme="0"/></stop><stop position="1"><color theme="4"/></stop></gradientFill></fill>',
                 '<fill><patternFill patternType="solid"><fgColor theme="4"/></patternFill></fill>', '<fill><patternFill/></fill>',
                 '<fill><patternFill patternType="solid"><fgColor indexed="13"/><bgColor indexed="64"/></patternFill></fill>', '<fill><patternFill patternType="lightUp"><bgColor theme="2" tint="-0.1"/></patternFill></fill>']
        fills = fills[:2] + r.sample(fills[2:], r.randint(0, 7))
        borders = ['<border><left/><right/><top/><bottom/><diagonal/></border>',
                   '<border><left style="thin"><color indexed="64"/></left><right style="thin"><color auto="1"/></right><top/><bottom style="double"><color rgb="FF0000FF"/></bottom><diagonal/></border>',
                   '<border diagonalUp="1" diagonalDown="1"><left/><right/><top/><bottom/><diagonal style="hair"><color theme="1" tint="0.5"/></diagonal></border>',
                   '<border outline="0"><left/><right/><top style="thick"><color theme="3"/></top><bottom/><diagonal/><vertical/><horizontal/></border>',
                   '<border><start/><end/><top/><bottom/></border>' if False else '<border/>',
                   '<border><left style="slantDashDot"/><right/><top/><bottom/><diagonal/></border>']
        borders = borders[:1] + r.sample(borders[1:], r.randint(0, 5))

        def xf(base):
            a = 'numFmtId="%d" fontId="%d" fillId="%d" borderId="%d"' % (
                r.choice([0, 0, 1, 9, 14, 22, 49] + [n for n, _ in nf]), r.randrange(len(fonts)), r.randrange(len(fills)), r.randrange(len(borders)))
            if not base:
                a += ' xfId="%d"' % r.randrange(p.ncsx)
                if r.random() < .2:
                    a += ' quotePrefix="1"'
                if r.random() < .1:
                    a += ' pivotButton="0"'
            for k in ('applyNumberFormat', 'applyFont', 'applyFill', 'applyBorder', 'applyAlignment', 'applyProtection'):
                if r.random() < .3:
                    a += ' %s="%s"' % (k, r.choice(['1', '0', 'true', 'false']))
            kids = ''
            if r.random() < .4:
                kids += '<alignment%s/>' % ''.join(x for x in (' horizontal="%s"' % r.choice(['left', 'center', 'right', 'fill', 'distributed', 'centerContinuous', 'justify', 'general']),
                                                               ' vertical="%s"' % r.choice(['top', 'center', 'bottom', 'justify', 'distributed']), ' textRotation="45"', ' wrapText="1"', ' indent="2"',
                                                               ' shrinkToFit="1"', ' readingOrder="2"', ' justifyLastLine="1"') if r.random() < .4)
            if r.random() < .25:
                kids += '<protection%s/>' % r.choice([' locked="0"', ' hidden="1"', ' locked="1" hidden="0"'])
            if not base and r.random() < .08:
                kids += '<extLst><ext uri="{ABC}"/></extLst>'
            return '<xf %s%s' % (a, '/>' if not kids else '>' + kids + '</xf>')
        p.ncsx = r.randint(1, 4)
        csx = ['<xf numFmtId="0" fontId="0" fillId="0" borderId="0"/>'] + [xf(True) for _ in range(p.ncsx - 1)]
        p.nxf = r.randint(1, 12)
        xfs = ['<xf numFmtId="0" fontId="0" fillId="0" borderId="0" xfId="0"/>'] + [xf(False) for _ in range(p.nxf - 1)]
        cnt = lambda n: ' count="%d"' % n if r.random() < .9 else ''
        out = ''
        if nf or r.random() < .2:
            out += '<numFmts%s>%s</numFmts>' % (cnt(len(nf)), ''.join('<numFmt numFmtId="%d" formatCode=%s/>' % (a, at(r, b)) for a, b in nf)) if nf else ''
        out += '<fonts%s%s>%s</fonts>' % (cnt(len(fonts)), ' x14ac:knownFonts="1"' if r.random() < .5 else '', ''.join(fonts))
        out += '<fills%s>%s</fills><borders%s>%s</borders>' % (cnt(len(fills)), ''.join(fills), cnt(len(borders)), ''.join(borders))
        out += '<cellStyleXfs%s>%s</cellStyleXfs><cellXfs%s>%s</cellXfs>' % (cnt(len(csx)), ''.join(csx), cnt(len(xfs)), ''.join(xfs))
        out += '<cellStyles count="%d">%s</cellStyles>' % (p.ncsx, ''.join('<cellStyle name=%s xfId="%d"%s/>' % (at(r, ['Normal', 'Good & bad', 'My "style"', 'Überschrift'][i]), i, ' builtinId="0"' if i == 0 else '') for i in range(p.ncsx)))
        if p.has(.7):
            out += '<dxfs count="1"><dxf><font><b/><color rgb="FF9C0006"/></font><fill><patternFill><bgColor rgb="FFFFC7CE"/></patternFill></fill></dxf></dxfs>'
        if p.has(.6):
            out += '<tableStyles count="0" defaultTableStyle="TableStyleMedium2" defaultPivotStyle="PivotStyleLight16"/>'
        if p.has(.4):
            out += '<colors><indexedColors>%s</indexedColors><mruColors><color rgb="FF123456"/></mruColors></colors>' % ''.join('<rgbColor rgb="00%06X"/>' % (i * 4099) for i in range(64))
        if p.has(.4):
            out += '<extLst><ext uri="{EB79DEF2-80B8-43e5-95BD-54CBDDF9020C}" xmlns:x14="%s"><x14:slicerStyles defaultSlicerStyle="SlicerStyleLight1"/></ext></extLst>' % X14
        return p.decl() + '<styleSheet xmlns="%s" xmlns:mc="%s" mc:Ignorable="x14ac" xmlns:x14ac="%s">%s</styleSheet>' % (NS, MC, AC, out)

    def sst(p):
        r = p.r
        items, plain = [], []
        n = r.randint(1, 9)
        for i in range(n):
            k = r.random()
            if k < .6:
                t = r.choice(TEXTS)
                items.append('<si><t%s>%s</t></si>' % (pres(t), esc(r, t)))
                p.strings.append(t)
            elif k < .68:
                # white space that is not marked as significant
                items.append('<si><t%s>%s</t></si>' % (r.choice(['', '', ' xml:space="default"']), r.choice([' lead', 'trail ', '  both  ', ' x', 'x ', 'hello ', ' 1', '1 ', ' ', '\n', '\thello'])))
                p.strings.append(None)
            elif k < .75:
                items.append('<si><r><t xml:space="preserve">rich </t></r><r><rPr><b/><sz val="11"/><color theme="1"/><rFont val="Calibri"/></rPr><t>text%d</t></r></si>' % i)
                p.strings.append(None)
            elif k < .85:
                items.append('<si><t>課きく</t><rPh sb="0" eb="1"><t>カ</t></rPh><phoneticPr fontId="0" type="noConversion"/></si>')
                p.strings.append(None)
            elif k < .93:
                items.append('<si><t/></si>')
                p.strings.append('')
            else:
                items.append('<si/>')
                p.strings.append('')
        extra = '<extLst><ext uri="{S}"/></extLst>' if p.has(.1) else ''
        c = '' if p.has(.15) else ' count="%d" uniqueCount="%d"' % (n + r.randint(0, 5), n)
        return p.decl() + '<sst xmlns="%s"%s>%s%s</sst>' % (NS, c, ''.join(items), extra)

    def rare_book(p, base, d):
        """elements of a workbook few programs write"""
        u = random.Random('book-%s' % p.r.getstate()[1][0])
        q = u.choice([0, 0, .3, .8])
        out = [x for x in ['<fileSharing readOnlyRecommended="1" userName="U &amp; V"/>',
                           '<functionGroups builtInGroupCount="17"><functionGroup name="My &lt;g&gt;"/></functionGroups>', '<oleSize ref="A1:B2"/>',
                           '<customWorkbookViews><customWorkbookView name="v &quot;1&quot;" guid="{0B1F3D8C-0000-4000-8000-000000000001}" windowWidth="100" windowHeight="90" activeSheetId="1"/></customWorkbookViews>',
                           '<smartTagPr embed="1" show="noIndicator"/>', '<smartTagTypes><smartTagType namespaceUri="urn:s" name="x"/></smartTagTypes>',
                           '<webPublishing codePage="1252"/>', '<fileRecoveryPr repairLoad="1"/>', '<fileRecoveryPr autoRecover="0"/>',
                           '<webPublishObjects count="1"><webPublishObject id="1" divId="x" destinationFile="a.htm"/></webPublishObjects>'] if u.random() < q]
        if u.random() < q:
            e = d + 'pivotCache/pivotCacheDefinition1.xml'
            p.part(e, '<?xml version="1.0"?><pivotCacheDefinition xmlns="%s" refreshOnLoad="1"><cacheSource type="worksheet"/><cacheFields count="0"/></pivotCacheDefinition>' % NS, SM + 'pivotCacheDefinition+xml')
            out.append('<pivotCaches><pivotCache cacheId="4" r:id="%s"/></pivotCaches>' % p.rel(base, 'pivotCacheDefinition', e))
        return out

    def rare_sheet(p, i, rel):
        """elements of a worksheet few programs write"""
        u = random.Random('sheet-%s-%d' % (p.r.getstate()[1][0], i))
        q = u.choice([0, 0, .3, .8])
        out = [x for x in ['<scenarios current="0"><scenario name="s &amp; t" count="1"><inputCells r="A1" val="1"/></scenario></scenarios>',
                           '<sortState ref="A1:B9"><sortCondition ref="A1:A9" descending="1"/></sortState>',
                           '<dataConsolidate function="max"><dataRefs count="1"><dataRef ref="A1:B2" sheet="S &amp; T"/></dataRefs></dataConsolidate>',
                           '<customSheetViews><customSheetView guid="{0B1F3D8C-0000-4000-8000-000000000001}" scale="80"><pane xSplit="1" topLeftCell="B1" activePane="topRight" state="frozen"/>'
                           '<selection pane="topRight" activeCell="B2" sqref="B2"/><colBreaks count="1" manualBreakCount="1"><brk id="3" max="1048575" man="1"/></colBreaks>'
                           '<pageMargins left="1" right="1" top="1" bottom="1" header="0" footer="0"/></customSheetView></customSheetViews>',
                           '<colBreaks count="1" manualBreakCount="1"><brk id="3" max="1048575" man="1"/></colBreaks>', '<cellWatches><cellWatch r="A1"/></cellWatches>',
                           '<smartTags><cellSmartTags r="A1"><cellSmartTag type="0"/></cellSmartTags></smartTags>',
                           '<webPublishItems count="1"><webPublishItem id="1" divId="d" sourceType="sheet" destinationFile="C:\\x.htm"/></webPublishItems>'] if u.random() < q]

        def obj(ty, name, ct=None, ext=None):
            p.part(name, bytes(u.randrange(256) for _ in range(50)), ct)
            if not ct:
                p.defs[ext] = 'application/octet-stream'
            return rel(ty, name)
        if u.random() < q:
            out.append('<customProperties><customPr name="n" r:id="%s"/></customProperties>' % obj('customProperty', 'xl/customProperty/item%d.bin' % (i + 1), SM + 'customProperty'))
        if u.random() < q:
            out.append('<legacyDrawingHF r:id="%s"/>' % obj('vmlDrawing', 'xl/drawings/header%d.vml' % (i + 1), OT + 'vmlDrawing'))
        if u.random() < q * .3:
            out.append('<drawingHF r:id="%s" lho="0"/>' % obj('vmlDrawing', 'xl/drawings/hf%d.vml' % (i + 1), OT + 'vmlDrawing'))
        if u.random() < q:
            out.append('<picture r:id="%s"/>' % obj('image', 'xl/media/back%d.gif' % (i + 1), 'image/gif'))
        if u.random() < q:
            out.append('<oleObjects><oleObject progId="Package" shapeId="1025" r:id="%s"/></oleObjects>' % obj('oleObject', 'xl/embeddings/oleObject%d.bin' % (i + 1), OT + 'oleObject'))
        if u.random() < q:
            out.append('<controls><control shapeId="1026" r:id="%s" name="B 1"/></controls>' % obj('control', 'xl/activeX/activeX%d.bin' % (i + 1), 'application/vnd.ms-office.activeX'))
        return out

    def sheet(p, i, name, part):
        r, rel = p.r, lambda ty, t, **k: p.rel(part, ty, t, **k)
        o = []
        feats = p.has
        if feats(.4):
            o.append('<sheetPr%s>%s</sheetPr>' % (r.choice(['', ' codeName="S%d"' % i, ' filterMode="1"']), r.choice(['<tabColor rgb="FF00B050"/>', '<outlinePr summaryBelow="0"/>', '<tabColor theme="4" tint="0.4"/><pageSetUpPr fitToPage="1"/>'])))
        rows = sorted(r.sample(range(1, 30), r.randint(0, 7))) if p.has(.8) else list(range(1, r.randint(2, 6)))
        if p.has(.1):
            rows.append(1048576)
        cols = sorted(r.sample(range(1, 12), r.randint(1, 5))) if p.has(.8) else list(range(1, r.randint(2, 6)))
        if p.has(.1):
            cols.append(16384)
        if feats(.85):
            o.append('<dimension ref="%s"/>' % ('A1' if not rows else '%s%d:%s%d' % (col(cols[0]), rows[0], col(cols[-1]), rows[-1])))
        if feats(.85):
            vs = ''
            for w in range(p.nviews):
                a = ''.join(' %s="%s"' % (k, r.choice(v)) for k, v in (
                    ('windowProtection', BOOL), ('showFormulas', BOOL), ('showGridLines', BOOL), ('showRowColHeaders', BOOL), ('showZeros', BOOL), ('rightToLeft', BOOL), ('tabSelected', BOOL),
                    ('showRuler', BOOL), ('showOutlineSymbols', BOOL), ('defaultGridColor', BOOL), ('showWhiteSpace', BOOL), ('view', ['pageBreakPreview', 'pageLayout', 'normal']), ('topLeftCell', ['B2', 'XFD1048576']),
                    ('colorId', ['20', '64']), ('zoomScale', ['85', '10', '400', '100']), ('zoomScaleNormal', ['90', '400', '0']), ('zoomScaleSheetLayoutView', ['60', '75', '0']), ('zoomScalePageLayoutView', ['110', '55']))
                    if r.random() < p.dense)
                kids = ''
                if r.random() < .5:
                    kids += r.choice(['<pane xSplit="1" ySplit="2" topLeftCell="B3" activePane="bottomRight" state="frozen"/><selection pane="topRight" activeCell="B1" sqref="B1"/><selection pane="bottomLeft"/><selection pane="bottomRight" activeCell="C4" sqref="C4:D5 F7"/>',
                                      '<pane ySplit="1" topLeftCell="A2" activePane="bottomLeft" state="frozenSplit"/><selection pane="bottomLeft" activeCell="A2" sqref="A2"/>',
                                      '<pane xSplit="2400" ySplit="1200"/><selection/>',
                                      '<pane ySplit="3" activePane="bottomLeft" state="frozen"/><selection pane="bottomLeft"/><pivotSelection pane="bottomLeft" axis="axisRow"><pivotArea dataOnly="0"/></pivotSelection>', '<selection activeCell="D4" sqref="D4"/>',
                                      '<selection activeCell="A1" activeCellId="1" sqref="B2 A1"/><extLst><ext uri="{V}"/></extLst>'])
                vs += '<sheetView%s workbookViewId="%d"%s' % (a, w, '/>' if not kids else '>' + kids + '</sheetView>')
            o.append('<sheetViews>%s</sheetViews>' % vs)
        if feats(.7):
            o.append('<sheetFormatPr baseColWidth="10" defaultRowHeight="15"%s/>' % r.choice(['', ' x14ac:dyDescent="0.25"', ' outlineLevelRow="1" outlineLevelCol="2" customHeight="1" zeroHeight="1"']))
        p.colpts = []
        if feats(.6):
            cs, c = '', 1
            while c < 60 and len(cs) < 900 and r.random() < .85:
                a = c + r.choice([0, 0, 1, 3])
                b = a + r.choice([0, 0, 1, 2, 5, 9])
                if r.random() < .05:
                    b = 16384
                t = ''.join(x for x in (' width="%s" customWidth="%s"' % (r.choice(['12.5', '9.140625', '20', '20', '0', '255', '0.85546875', '1']), yes(r)) if r.random() < .6 else ' width="9.5"' if r.random() < .5 else '',
                                        ' style="%d"' % r.randrange(p.nxf) if r.random() < .4 else '', ' hidden="%s"' % yes(r) if r.random() < .25 else ' hidden="0"' if r.random() < .1 else '', ' bestFit="%s"' % yes(r) if r.random() < .25 else '',
                                        ' outlineLevel="%d"' % r.randint(1, 3) if r.random() < .25 else '', ' collapsed="%s"' % yes(r) if r.random() < .15 else '', ' phonetic="1"' if r.random() < .08 else ''))
                cs += '<col min="%d" max="%d"%s/>' % (a, b, t)
                p.colpts += [a, b]
                c = b + 1
            if cs:
                o.append('<cols>%s</cols>' % cs)
        # cells
        data, masters, prow = '', [], 0
        p.implied = p.has(.15)
        shared = None
        for rn in rows:
            a = ''.join(x for x in (' spans="1:%d"' % cols[-1] if r.random() < .4 else '', ' ht="%s" customHeight="%s"' % (r.choice(['20', '33.75', '20', '0', '409.5', '0.75']), yes(r)) if r.random() < .25 else ' ht="16"' if r.random() < .1 else '',
                                    ' hidden="%s"' % yes(r) if r.random() < .15 else ' hidden="false"' if r.random() < .05 else '', ' s="%d" customFormat="%s"' % (r.randrange(p.nxf), yes(r)) if r.random() < .25 else '', ' outlineLevel="%d"' % r.choice([1, 1, 2, 7, 0]) if r.random() < .25 else '',
                                    ' collapsed="%s"' % yes(r) if r.random() < .1 else '', ' thickTop="%s"' % yes(r) if r.random() < .1 else '', ' thickBot="%s"' % yes(r) if r.random() < .1 else '', ' x14ac:dyDescent="0.25"' if r.random() < .3 else '',
                                    ' ph="1"' if r.random() < .05 else ''))
            cells = ''
            prev = 0
            for c in cols:
                if r.random() < .3:
                    continue
                here = len(cells)
                ref = '%s%d' % (col(c), rn)
                st = ' s="%d"' % r.randrange(p.nxf) if r.random() < .5 else ''
                if r.random() < .05:
                    st += ' cm="%d"' % r.choice([1, 2])
                if r.random() < .05:
                    st += ' vm="%d"' % r.choice([1, 3])
                if r.random() < .03:
                    st += ' ph="1"'
                k = r.random()
                if k < .2:
                    cells += '<c r="%s"%s><v>%s</v></c>' % (ref, st, r.choice(['1', '-2.5', '1E+20', '0.1', '42', '1.7976931348623157E+308']))
                elif k < .4 and p.strings:
                    cells += '<c r="%s"%s t="s"><v>%d</v></c>' % (ref, st, r.randrange(len(p.strings)))
                elif k < .47:
                    cells += '<c r="%s"%s t="b"><v>%d</v></c>' % (ref, st, r.randint(0, 1))
                elif k < .54:
                    t = r.choice(TEXTS)
                    cells += '<c r="%s"%s t="str"><f>%s</f><v%s>%s</v></c>' % (ref, st, esc(r, 'A1&"%s"' % t.replace('"', '""')), pres(t), esc(r, t))
                    p.formulas.append((i, rn, c))
                elif k < .6:
                    t = r.choice(TEXTS)
                    cells += '<c r="%s"%s t="inlineStr"><is>%s</is></c>' % (ref, st, '<t%s>%s</t>' % (pres(t), esc(r, t)) if r.random() < .6 else '<r><rPr><i/></rPr><t>ital</t></r><r><t xml:space="preserve"> x</t></r>')
                elif k < .65:
                    cells += '<c r="%s"%s t="%s"><v>%s</v></c>' % ((ref, st) + r.choice([('e', '#N/A'), ('e', '#DIV/0!'), ('e', '#N/A'), ('d', '2024-02-29T12:00:00Z')]))
                elif k < .72:
                    cells += '<c r="%s"%s/>' % (ref, st)
                elif k < .8:
                    cells += '<c r="%s"%s><f%s>%s</f><v>3</v></c>' % (ref, st, r.choice(['', ' ca="1"', ' aca="1"', ' bx="1"']), esc(r, r.choice(['A1+2', 'SUM(A1:B2)', 'IF(A1<B1,1,"x & y")'])))
                    p.formulas.append((i, rn, c))
                elif k < .86:
                    if shared is None:
                        shared = r.randint(0, 3)
                        cells += '<c r="%s"%s><f t="shared" ref="%s:%s%d" si="%d">A1*2</f><v>4</v></c>' % (ref, st, ref, col(c), rn + 5, shared)
                        masters.append((rn, c))
                    elif r.random() < .5:
                        cells += '<c r="%s"%s><f t="shared" si="%d"/><v>5</v></c>' % (ref, st, shared)
                    else:
                        ty, v = r.choice([('str', 'x &amp; y'), ('str', ''), ('b', '1'), ('e', '#N/A'), ('str', ' lead'), ('str', '12')])
                        cells += '<c r="%s"%s t="%s"><f t="shared" si="%d"%s<v%s>%s</v></c>' % (
                            ref, st, ty, shared, r.choice(['/>', '></f>']), pres(v), v)
                    p.formulas.append((i, rn, c))
                elif k < .9:
                    cells += '<c r="%s"%s><f t="array" ref="%s:%s">SUM(A1:A3*B1:B3)</f><v>6</v></c>' % (ref, st, ref, ref)
                    p.formulas.append((i, rn, c))
                elif k < .92:
                    cells += '<c r="%s"%s><f t="dataTable" ref="%s" dt2D="1" dtr="1" r1="A1" r2="A2"/><v>7</v></c>' % (ref, st, ref)
                    p.formulas.append((i, rn, c))
                elif k < .95:
                    cells += '<c r="%s"%s t="n"><v>8</v><extLst><ext uri="{C}"/></extLst></c>' % (ref, st)
                else:
                    cells += '<c r="%s"%s><f>1/0</f></c>' % (ref, st)
                    p.formulas.append((i, rn, c))
                if c == prev + 1 and p.implied:
                    # the position follows from the cell before
                    cells = cells[:here] + cells[here:].replace('<c r="%s"' % ref, '<c', 1)
                prev = c
            if cells and r.random() < .06:
                cells += '<extLst><ext uri="{R}"/></extLst>'
            rr = '' if rn == prow + 1 and p.implied else ' r="%d"' % rn
            prow = rn
            data += '<row%s%s%s' % (rr, a, '/>' if not cells else '>' + cells + '</row>')
        o.append('<sheetData>%s</sheetData>' % data if data or r.random() < .5 else '<sheetData/>')
        if feats(.2):
            o.append('<sheetCalcPr fullCalcOnLoad="1"/>')
        if feats(.25):
            o.append('<sheetProtection algorithmName="SHA-512" hashValue="a+b/c==" saltValue="x==" spinCount="100000" sheet="1" objects="1"/>')
        if feats(.15):
            o.append('<protectedRanges><protectedRange sqref="A1:B2" name="r &amp; d"/></protectedRanges>')
        if feats(.25):
            o.append('<autoFilter ref="A1:C9"><filterColumn colId="0"><filters><filter val="a &lt; b"/></filters></filterColumn></autoFilter>')
        if feats(.35):
            o.append('<mergeCells count="2"><mergeCell ref="A1:B2"/><mergeCell ref="D4:F4"/></mergeCells>')
        if feats(.15):
            o.append('<phoneticPr fontId="0" type="noConversion"/>')
        if feats(.3):
            o.append('<conditionalFormatting sqref="A1:A9"><cfRule type="cellIs" dxfId="0" priority="1" operator="lessThan"><formula>"a&amp;b"</formula></cfRule></conditionalFormatting>' * r.randint(1, 2))
        if feats(.3):
            o.append('<dataValidations count="1"><dataValidation type="list" allowBlank="1" showErrorMessage="1" prompt="pick&#10;one &quot;now&quot;" sqref="C1:C9"><formula1>"x,y &amp; z"</formula1></dataValidation></dataValidations>')
        if feats(.35):
            h = rel('hyperlink', r.choice(['http://example.com/?a=1&b=2', 'mailto:a@b.c', 'file:///C:/x%20y.txt', '../other%20book.xlsx#A1']), mode='External')
            o.append('<hyperlinks><hyperlink ref="A1" r:id="%s" tooltip=%s/><hyperlink ref="B2" location="\'x\'!A1" display="go"/><hyperlink ref="B3" location="" display=""/></hyperlinks>' % (h, at(r, 'see "this" & that\nnow')))
        if feats(.2):
            o.append('<printOptions horizontalCentered="1"/>')
        if feats(.6):
            o.append('<pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/>')
        if feats(.3):
            if p.has(.6):
                n = 'xl/printerSettings/printerSettings%d.bin' % (i + 1)
                p.part(n, bytes(r.randrange(256) for _ in range(200)))
                p.defs['bin'] = SM + 'printerSettings'
                o.append('<pageSetup paperSize="9" orientation="landscape" r:id="%s"/>' % rel('printerSettings', n))
            else:
                o.append('<pageSetup orientation="portrait"/>')
        if feats(.25):
            o.append('<headerFooter differentFirst="1"><oddHeader>&amp;L&amp;"Arial,Bold"R&amp;&amp;D &lt;1&gt;</oddHeader><oddFooter>&amp;P / &amp;N</oddFooter></headerFooter>')
        if feats(.15):
            o.append('<rowBreaks count="1" manualBreakCount="1"><brk id="5" max="16383" man="1"/></rowBreaks>')
        if feats(.15):
            o.append('<ignoredErrors><ignoredError sqref="A1:B9" numberStoredAsText="1"/></ignoredErrors>')
        if feats(.3):
            d = 'xl/drawings/%s%d.xml' % (r.choice(['drawing', 'drawing', 'my%20drawing']), i + 1)
            img = 'xl/media/image%d.%s' % (i + 1, p.png)
            p.part(img, b'\x89PNG\r\n\x1a\n' + p.blob(99))
            p.defs[p.png] = 'image/png'
            p.part(d, '<?xml version="1.0"?><xdr:wsDr xmlns:xdr="http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"><!-- d --> <xdr:absoluteAnchor/></xdr:wsDr>', OT + 'drawing+xml')
            p.rel(d, 'image', img)
            o.append('<drawing r:id="%s"/>' % rel('drawing', d))
        if feats(.2):
            v, cm = 'xl/drawings/vmlDrawing%d.vml' % (i + 1), 'xl/comments%d.xml' % (i + 1)
            p.part(v, '<xml xmlns:v="urn:schemas-microsoft-com:vml"><v:shape id="x"/></xml>')
            p.defs['vml'] = OT + 'vmlDrawing'
            p.part(cm, '<?xml version="1.0"?><comments xmlns="%s"><authors><author>A &amp; B</author></authors><commentList><comment ref="A1" authorId="0"><text><t>note</t></text></comment></commentList></comments>' % NS, SM + 'comments+xml')
            rel('comments', cm)
            o.append('<legacyDrawing r:id="%s"/>' % rel('vmlDrawing', v))
        if feats(.12):
            o.append('<mc:AlternateContent xmlns:mc="%s"><mc:Choice Requires="x14" xmlns:x14="%s"><controls/></mc:Choice><mc:Fallback/></mc:AlternateContent>' % (MC, X14) if False else '')
        if feats(.2):
            t = 'xl/tables/table%d.xml' % (i + 1)
            p.part(t, '<?xml version="1.0"?><table xmlns="%s" id="%d" name="T%d" displayName="T%d" ref="A1:B3"><tableColumns count="2"><tableColumn id="1" name="a"/><tableColumn id="2" name="b &amp; c"/></tableColumns></table>' % (NS, i + 1, i, i), SM + 'table+xml')
            o.append('<tableParts count="1"><tablePart r:id="%s"/></tableParts>' % rel('table', t))
        if feats(.25):
            o.append(r.choice(['<extLst><ext uri="{78C0D931-6437-407d-A8EE-F0AAD7539E65}" xmlns:x14="%s"><x14:conditionalFormattings><x14:conditionalFormatting xmlns:xm="http://schemas.microsoft.com/office/excel/2006/main"><xm:sqref>A1</xm:sqref></x14:conditionalFormatting></x14:conditionalFormattings></ext></extLst>' % X14,
                               '<extLst><ext uri="{E}"><y:z xmlns:y="urn:y" xmlns="urn:default"><inner a="1&amp;2">t &lt; u</inner></y:z></ext></extLst>',
                               '<extLst><ext uri="{F}" x:uri="{G}" xmlns:x="urn:x"><x:größe x:maß="1" maß="2" xmlns:ü="urn:ü"><ü:b-c.d_e ü:é="3"/><日本>&#x65E5;</日本><cafe\u0301 l\u00b7l="4"/><\u0928\u092e\u094d>5</\u0928\u092e\u094d></x:größe></ext></extLst>',
                               '<extLst><ext xmlns:x="urn:x" xmlns:y="urn:x" x:uri="{G}" uri="{F}"><x:a y:k="1" k="2"><y:b/><z:c xmlns:z="urn:x" z:k="3"><c xmlns="urn:x"/></z:c></x:a></ext><ext uri="{H}">%s</ext></extLst>' % ('<d:e xmlns:d="urn:d">' + 'long &amp; longer ' * r.choice([1, 70000]) + '</d:e>' if p.has(.2) else '')]))
        insert(o, SHEET_ORDER, p.rare_sheet(i, rel))
        root = ' xmlns="%s" xmlns:r="%s" xmlns:mc="%s" mc:Ignorable="x14ac" xmlns:x14ac="%s"' % (NS, RN, MC, AC)
        if p.has(.3):
            root += ' xmlns:xr="%s" xr:uid="{00000000-0001-0000-0000-00000000000%d}"' % (XR, i)
            root = root.replace('mc:Ignorable="x14ac"', 'mc:Ignorable="x14ac xr"')
        k = r.random()
        if k < .12:
            # two prefixes stand for one namespace
            a = r.choice(['rel', 'z9', 'R', 'r2'])
            root = root.replace(' xmlns:r=', ' xmlns:%s="%s" xmlns:r=' % (a, RN)) if p.has(.5) else root + ' xmlns:%s="%s"' % (a, RN)
            o = [x.replace(' r:id=', ' %s:id=' % a) if p.has(.5) else x for x in o]
        if .08 < k < .2:
            # another vocabulary uses the same names
            import re
            a = r.choice(['x', 'z', 'a', 'v1'])
            root = root.replace('mc:Ignorable="', 'mc:Ignorable="%s ' % a) + ' xmlns:%s="urn:x"' % a
            pick = r.choice(['ref', 'ref', 'left', 'zoomScale', 'orientation', 'defaultRowHeight', 'sqref', 'count', 'type', 'uri', 'horizontalCentered', 'id'])
            o = [re.sub(r'(<[a-zA-Z]+ (?:[^<>]* )?)(%s="[^"]*")' % pick, lambda m: m.group(1) + (a + ':%s="other" ' % pick + m.group(2) if r.random() < .5 else m.group(2) + ' ' + a + ':%s="other"' % pick), x)
                 if not x.startswith(('<sheetData', '<cols', '<extLst', '<sheetViews')) else x for x in o]
        gap = r.choice(['', '', '\n  '])
        body = gap.join(x for x in o if x)
        if p.has(.12):
            # the same document with a prefix on every element of the main namespace
            import re
            body = re.sub(r'<(/?)(?=[a-zA-Z][a-zA-Z0-9]*[\s/>])(?!!)', r'<\1q:', body) if '<![CDATA[' not in body and 'xmlns=' not in body and '<!--' not in body and '<日' not in body else None
            if body is not None:
                p.rows[i], p.cols[i], p.masters[i] = rows, cols, masters
                return p.decl() + '<q:worksheet%s>%s</q:worksheet>' % (root.replace(' xmlns=', ' xmlns:q='), body)
            body = gap.join(x for x in o if x)
        p.rows[i], p.cols[i], p.masters[i] = rows, cols, masters
        return p.decl() + '<worksheet%s>%s%s%s</worksheet>' % (root, gap, body, gap)

    def build(p, path):
        r = p.r
        p.rows, p.cols, p.strings, p.formulas = {}, {}, [], []
        p.shift = r.choice([0, 0, 3, 100])
        p.png = r.choice(['png', 'PNG', 'Png'])
        base = r.choice(['xl/workbook.xml', 'xl/workbook.xml', 'xl/workbook.xml', 'xl/book.xml', 'workbook.xml', 'content/wb.xml'])
        d = base.rsplit('/', 1)[0] + '/' if '/' in base else ''
        p.dense = r.choice([.08, .25, .25, .6])
        n = r.randint(10, 13) if p.focus == 'many' else r.randint(2 if p.focus == 'reuse' else 1, 4)
        names = ['page %d' % k for k in range(1, n + 1)] if p.focus == 'many' else r.sample(NAMES, n)
        while len({x.lower() for x in names}) < n:
            names = r.sample(NAMES, n)
        p.nviews = r.choice([1, 1, 1, 2])
        p.defs.update({'rels': PKG.replace('http://schemas.openxmlformats.org/package/2006/', 'application/vnd.openxmlformats-package.') + 'relationships+xml', 'xml': 'application/xml'})
        p.rel('', 'officeDocument', base)
        stylep, sstp = p.has(.92), p.has(.8)
        p.nxf = 1
        late = []
        if stylep:
            sp = d + r.choice(['styles.xml', 'styles.xml', 'style/s1.xml'])
            p.part(sp, p.styles(), SM + 'styles+xml')
            late.append(('styles', sp))
        if sstp:
            tp = d + 'sharedStrings.xml'
            p.part(tp, p.sst(), SM + 'sharedStrings+xml')
            late.append(('sharedStrings', tp))
        if p.has(.8):
            tp = d + 'theme/theme1.xml'
            p.part(tp, p.decl() + '<a:theme xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" name=%s><a:themeElements><a:clrScheme name="Office"/></a:themeElements></a:theme>' % at(r, 'My & "theme"'), OT + 'theme+xml')
            late.append(('theme', tp))
        ids = r.sample(range(1, 30), n) if p.has(.5) else list(range(1, n + 1))
        sheets, parts = [], []
        files = r.sample(range(1, max(9, n + 3)), n) if p.has(.5) else list(range(1, n + 1))
        states = ['visible'] + [r.choice(['visible', 'visible', 'hidden', 'veryHidden']) for _ in range(n - 1)]
        r.shuffle(states)
        for i in range(n):
            part = d + 'worksheets/%s%d.xml' % (r.choice(['sheet'] * 12 + ['Blatt'] * 6 + ['my%20sheet', 'sh.eet', 'a+b', 'deep/er/sheet']), files[i])
            parts.append(part)
            p.part(part, p.sheet(i, names[i], part), SM + 'worksheet+xml')
        order = list(range(n))
        r.shuffle(order)
        rid = {}
        todo = [('sheet', i) for i in order] + [('late', x) for x in late]
        if p.focus == 'reuse':
            # the sheets have the highest relationship ids
            todo = [x for x in todo if x[0] == 'late'] + [x for x in todo if x[0] == 'sheet']
        elif p.has(.5):
            r.shuffle(todo)
        for k, x in todo:
            if k == 'sheet':
                rid[x] = p.rel(base, 'worksheet', parts[x])
            else:
                p.rel(base, x[0], x[1])
        for i in range(n):
            st = states[i]
            sheets.append('<sheet name=%s sheetId="%d"%s r:id="%s"/>' % (at(r, names[i]), ids[i], ' state="%s"' % st if st != 'visible' or p.has(.1) else '', rid[i]))
        w = []
        if p.has(.6):
            w.append('<fileVersion appName="xl" lastEdited="7" lowestEdited="7" rupBuild="22228"/>')
        if p.has(.5):
            w.append('<workbookPr%s defaultThemeVersion="166925" codeName=%s/>' % (r.choice(['', ' date1904="1"']), at(r, 'This & that')))
        if p.has(.15):
            w.append('<mc:AlternateContent xmlns:mc="%s"><mc:Choice Requires="x15"><x15ac:absPath url="C:\\a &amp; b\\" xmlns:x15ac="http://schemas.microsoft.com/office/spreadsheetml/2010/11/ac"/></mc:Choice></mc:AlternateContent>' % MC)
        if p.has(.2):
            w.append('<workbookProtection lockStructure="1" workbookPassword="CC1A"/>')
        act = r.randrange(n)
        if p.has(.75) or p.nviews > 1:
            v = ''
            for q in range(p.nviews):
                a = ''.join(x for x in (' xWindow="0" yWindow="-120"', ' windowWidth="29040" windowHeight="15840"', ' tabRatio="%d"' % r.randint(100, 900), ' firstSheet="%d"' % r.randrange(n), ' activeTab="%d"' % act,
                                        ' visibility="hidden"', ' minimized="1"', ' showSheetTabs="0"', ' showHorizontalScroll="0"', ' showVerticalScroll="0"', ' autoFilterDateGrouping="0"', ' minimized="0"', ' showSheetTabs="true"')
                            if r.random() < .3 and not (x.startswith(' minimized="0"') or x.startswith(' showSheetTabs="true"')))
                v += '<workbookView%s%s' % (a, '/>' if p.has(.9) else '><extLst><ext uri="{W}"/></extLst></workbookView>')
            w.append('<bookViews>%s</bookViews>' % v)
        w.append('<sheets>%s</sheets>' % ''.join(sheets))
        if p.has(.2):
            e = d + 'externalLinks/externalLink1.xml'
            p.part(e, '<?xml version="1.0"?><externalLink xmlns="%s" xmlns:r="%s"><externalBook r:id="rId1"><sheetNames><sheetName val="S"/></sheetNames></externalBook></externalLink>' % (NS, RN), SM + 'externalLink+xml')
            p.rel(e, 'externalLinkPath', 'other%20book.xlsx', mode='External', rid='rId1')
            w.append('<externalReferences><externalReference r:id="%s"/></externalReferences>' % p.rel(base, 'externalLink', e))
        if p.has(.5) or p.focus == 'reuse':
            dn = '<definedName name="Glob"%s>%s</definedName>' % (r.choice(['', ' comment="c &amp; d"', ' hidden="1"', ' comment="" help=""']), esc(r, "'%s'!$A$1" % names[0].replace("'", "''")))
            if p.has(.35):
                dn = ''
            for i in r.sample(range(n), r.randint(0 if dn else 1, n)):
                dn += '<definedName name="_xlnm.Print_Area" localSheetId="%d">%s</definedName>' % (i, esc(r, "'%s'!$A$1:$B$9" % names[i].replace("'", "''")))
            w.append('<definedNames>%s</definedNames>' % dn)
        if p.has(.5):
            w.append('<calcPr calcId="191029"%s/>' % r.choice(['', ' fullCalcOnLoad="1"', ' iterate="1"']))
        if p.has(.25):
            w.append('<extLst><ext uri="{140A7094-0E35-4892-8432-C4D2E57EDEB5}" xmlns:x15="http://schemas.microsoft.com/office/spreadsheetml/2010/11/main"><x15:workbookPr chartTrackingRefBase="1"/></ext></extLst>')
        insert(w, BOOK_ORDER, p.rare_book(base, d))
        # the prefix of relationship ids: on the root, on every record, on the list, or another one
        rp = r.choice(['root', 'root', 'root', 'other', 'each', 'list']) if p.has(.5) else 'root'
        root = ' xmlns="%s"%s' % (NS, ' xmlns:r="%s"' % RN if rp == 'root' else ' xmlns:rel="%s"' % RN if rp == 'other' else '')
        if rp == 'other':
            w = [x.replace(' r:id=', ' rel:id=') for x in w]
        elif rp == 'each':
            w = [x.replace(' r:id=', ' xmlns:r="%s" r:id=' % RN) for x in w]
        elif rp == 'list':
            w = [x.replace('<sheets>', '<sheets xmlns:rel="%s">' % RN).replace(' r:id=', ' rel:id=') if x.startswith('<sheets>') else x.replace(' r:id=', ' xmlns:d3p1="%s" d3p1:id=' % RN) for x in w]
        if p.has(.4):
            root += ' xmlns:mc="%s" xmlns:x15="http://schemas.microsoft.com/office/spreadsheetml/2010/11/main" mc:Ignorable="x15"' % MC
        elif 'Requires="x15"' in ''.join(w):
            root += ' xmlns:x15="http://schemas.microsoft.com/office/spreadsheetml/2010/11/main"'
        if p.has(.15):
            root += ' conformance="transitional"'
        doc = '<workbook%s>%s</workbook>' % (root, ''.join(w))
        p.part(base, p.decl() + (prefixed(doc, NS, r.choice(['x', 'main', 's-1'])) if p.has(.15) else doc),
               SM + 'sheet.main+xml')
        if p.formulas and p.has(.7):
            its, last = '', None
            for (i, rn, c) in p.formulas:
                a = '' if last == i and p.has(.5) else ' i="%d"' % ids[i]
                last = i
                its += '<c r="%s%d"%s%s/>' % (col(c), rn, a, r.choice(['', '', ' l="1"', ' s="1"', ' a="1"', ' t="1"']))
            cp = d + 'calcChain.xml'
            p.part(cp, p.decl() + '<calcChain xmlns="%s">%s</calcChain>' % (NS, its), SM + 'calcChain+xml')
            p.rel(base, 'calcChain', cp)
        for n_ in list(p.parts):
            if p.over.get(n_, '').startswith(SM) and p.over[n_].rsplit('.', 1)[-1].split('+')[0] in ('styles', 'sharedStrings', 'calcChain') and p.has(.12):
                t = p.parts[n_].decode('utf-8')
                p.parts[n_] = prefixed(t, NS, r.choice(['x', 'main', 'q'])).encode('utf-8')
        p.props()
        if p.has(.3):
            p.part('customXml/item1.xml', '<root xmlns="urn:x"><!-- keep --><a b = \'1\' >  t </a>%s</root>' % ('' if p.has(.9) else 'more &amp; more ' * r.choice([5000, 90000])))
            p.part('customXml/itemProps1.xml', '<?xml version="1.0"?><ds:datastoreItem ds:itemID="{1}" xmlns:ds="http://schemas.openxmlformats.org/officeDocument/2006/customXml"/>', OT + 'customXmlProperties+xml')
            p.rel(base, 'customXml', 'customXml/item1.xml')
            p.rel('customXml/item1.xml', 'customXmlProps', 'customXml/itemProps1.xml')
        if p.has(.2):
            p.part(d + 'vbaProject.bin', p.blob(300), 'application/vnd.ms-office.vbaProject')
            p.rel(base, 'http://schemas.microsoft.com/office/2006/relationships/vbaProject', d + 'vbaProject.bin')
            p.over[base] = 'application/vnd.ms-excel.sheet.macroEnabled.main+xml'
        if p.has(.2):
            p.part('docProps/thumbnail.jpeg', bytes(r.randrange(256) for _ in range(99)))
            p.defs['jpeg'] = 'image/jpeg'
            p.rel('', PKG + 'relationships/metadata/thumbnail', 'docProps/thumbnail.jpeg')
        if p.has(.15):
            p.part(d + 'blob', b'no extension', 'application/octet-stream')
            p.rel(base, 'urn:example:blob', d + 'blob')
        p.write(path)
        allrows = sorted({x for l in p.rows.values() for x in l})
        allcols = sorted({x for l in p.cols.values() for x in l} | set(p.colpts))
        return {'file': path, 'names': names, 'rows': allrows, 'cols': [c for c in allcols if c <= 16384],
                'masters': sorted({x for l in p.masters.values() for x in l})}


class Office(Pkg):
    """a Word or PowerPoint package"""

    def build(p, path, kind):
        r = p.r
        p.shift = r.choice([0, 0, 3, 100])
        word = kind == 'w'
        p.defs.update({'rels': 'application/vnd.openxmlformats-package.relationships+xml', 'xml': 'application/xml'})
        base = r.choice(['word/document.xml', 'word/document.xml', 'doc.xml', 'word/document2.xml']) if word else \
            r.choice(['ppt/presentation.xml', 'ppt/presentation.xml', 'p/main.xml'])
        d = base.rsplit('/', 1)[0] + '/' if '/' in base else ''
        ml = 'wordprocessingml.' if word else 'presentationml.'
        p.rel('', 'officeDocument', base)
        ns = 'http://schemas.openxmlformats.org/%s/2006/main' % ('wordprocessingml' if word else 'presentationml')
        odd = lambda: r.choice(['', ' ', '\n  ', '\r\n', '<!-- c -->', '<?x y?>'])
        txt = esc(r, r.choice(TEXTS))
        p.part(base, p.decl() + ('<w:document xmlns:w="%s">%s<w:body><w:p ><w:r><w:t xml:space = \'preserve\'> %s</w:t></w:r></w:p></w:body>%s</w:document>' if word else
               '<p:presentation xmlns:p="%s">%s<p:sldIdLst/>%s<p:notesSz cx="1" cy="2"/></p:presentation>') % ((ns, odd(), txt, odd()) if word else (ns, odd(), odd())),
               OT + ml + ('document.main+xml' if word else 'presentation.main+xml'))
        for k in range(r.randint(0, 4)):
            n = d + r.choice(['header%d.xml', 'slides/slide%d.xml', 'deep/er/part%d.xml', 'my%%20part%d.xml', 'caf%%C3%%A9/p.%d.v2.XML', "it's+(%d),@=;&.xml", '_%d.xml', '-/~/%d.xml']) % k
            p.part(n, p.decl() + '<x:y xmlns:x="urn:x">%s<x:z a=%s/></x:y>' % (odd(), at(r, r.choice(TEXTS))), OT + ml + 'header+xml')
            p.rel(base, 'header', n)
            if p.has(.3):
                p.rel(n, 'hyperlink', 'http://example.com/?a=1&b=2', mode='External')
            if p.has(.3):
                m = d + r.choice(['media/image%d.%s', 'media/image%d.%s', 'media/my%%20image%d.%s', 'media/%%E6%%97%%A5%d.%s', 'media/a.b.c%d.%s']) % (k, r.choice(['png', 'PNG', 'jpeg', 'bin']))
                p.part(m, p.blob(r.choice([0, 1, 50, 3000])))
                if p.has(.2):
                    p.over[m] = 'image/x-own'
                else:
                    p.defs.setdefault(m.rsplit('.', 1)[1], 'image/x-%s' % m.rsplit('.', 1)[1].lower())
                p.rel(n, 'image', m)
        if word and p.has(.5):
            n = d + 'styles.xml'
            p.part(n, p.decl() + '<w:styles xmlns:w="%s"/>' % ns, OT + ml + 'styles+xml')
            p.rel(base, 'styles', n)
        if p.has(.5):
            n = d + 'theme/theme1.xml'
            p.part(n, p.decl() + '<a:theme xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" name=%s/>' % at(r, 'a & b'), OT + 'theme+xml')
            p.rel(base, 'theme', n)
        if p.has(.3):
            p.part(d + 'embeddings/sheet.xlsx', b'PK not really', 'application/vnd.openxmlformats-officedocument.spreadsheetml.sheet')
            p.rel(base, 'package', d + 'embeddings/sheet.xlsx')
        if p.has(.3):
            p.part('customXml/item1.xml', '<root xmlns="urn:x"><!-- keep --><a b = \'1\' >  t </a>%s</root>' % ('' if p.has(.9) else 'more &amp; more ' * r.choice([5000, 90000])))
            p.rel(base, 'customXml', 'customXml/item1.xml')
        if p.has(.2):
            p.part('docProps/thumbnail.jpeg', bytes(r.randrange(256) for _ in range(99)))
            p.defs['jpeg'] = 'image/jpeg'
            p.rel('', PKG + 'relationships/metadata/thumbnail', 'docProps/thumbnail.jpeg')
        if p.has(.2):
            p.rel('', 'http://example.com/rel', 'http://example.com/target?x=1&y=2', mode='External')
        p.props()
        p.write(path)
        return {'file': path, 'names': [], 'rows': [], 'cols': [], 'masters': []}


def office(seed, path, kind):
    return Office(seed).build(path, kind)


def build(seed, path, focus=''):
    return Pkg(seed, focus).build(path)


if __name__ == '__main__':
    import sys
    print(build(sys.argv[1], sys.argv[2]))

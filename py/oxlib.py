"""Runs scripts on the real library, turns the runs into traces, has TLC check them.

This file holds no notion of what is right: it builds the driver from /repo's
working tree, runs it, reads the saved files with proj.py and writes the events the
specification (spec/OxTrace.tla) consumes.
"""
import concurrent.futures as cf
import hashlib, json, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = '/repo'
FIX = REPO + '/rs/src/tests/TestFiles/basic_test.xlsx'
PPTX = REPO + '/rs/src/tests/TestFiles/basic_test.pptx'
DOCX = REPO + '/cs/test/test_files/basic_test.docx'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = min(8, os.cpu_count() or 1)
sys.path.insert(0, os.path.join(VERIF, 'py'))
import proj
from proj import numlex


class Broken(Exception):
    """the machinery itself can not give an answer"""


def build(release=bool(os.environ.get('OX_RELEASE'))):
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'build', '--offline', '-q'] + ['--release'] * release, cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode:
        raise Broken('driver does not build:\n' + r.stderr[-3000:])
    return os.path.join(HARNESS, 'target/%s/oxo_driver' % ('release' if release else 'debug'))


class Work:
    """scratch directory, removed at the end"""

    def __init__(s, tag):
        s.dir = tempfile.mkdtemp(prefix='oxo-%s-' % tag, dir='/tmp')

    def path(s, n):
        return os.path.join(s.dir, n)

    def close(s):
        shutil.rmtree(s.dir, ignore_errors=True)


# --------------------------------------------------------------------------- driver

def cpu(pid):
    """seconds of computing a process started here has had"""
    try:
        a = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0


def run_driver(exe, work, scripts, limit=20.0, env=None, prefix=None):
    """scripts: list of {'id','ops',['par']}; returns {id: {i: rec}}; aborts and hangs become records"""
    res = {}
    chunks = [scripts[i::CORES] for i in range(CORES)]

    def lane(k):
        todo = chunks[k]
        got, flush, n = {}, False, 0
        while todo:
            n += 1
            si, so = work.path('in-%d-%d.jsonl' % (k, n)), work.path('out-%d-%d.jsonl' % (k, n))
            alone = next((j for j, s in enumerate(todo) if s.get('own')), None)
            # a script marked own has a process to itself
            batch = todo if alone is None else todo[:alone] or todo[:1]
            with open(si, 'w') as f:
                for s in batch:
                    f.write(json.dumps({'id': s['id'], 'ops': s['ops'], 'par': s.get('par', False)}) + '\n')
            open(so, 'w').close()
            # what the library does must not depend on where it runs: every lane has a time zone of its own
            e = dict(os.environ if env is None else env, TZ=['UTC0', 'XST-5:30', 'YST9:30', 'ZST-13'][k % 4])
            p = subprocess.Popen((prefix or []) + [exe, si, so] + (['flush'] if flush else []), stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, env=e, cwd=work.dir)
            last, used, size, how = time.time(), 0, 0, ''
            while p.poll() is None:
                time.sleep(0.02)
                z = os.path.getsize(so)
                if z != size:
                    size, last, used = z, time.time(), cpu(p.pid)
                elif time.time() - last > limit and (cpu(p.pid) - used > limit or time.time() - last > 6 * limit):
                    # it computes without end, or waits for ever; a busy machine alone is neither
                    p.kill()
                    p.wait()
                    how = 'hang'
            if not how and p.returncode != 0:
                how = 'abort'
            done = set()
            cur = {}
            for l in open(so):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                cur.setdefault(d['sid'], {})[d['i']] = d
                if d['i'] == -2:
                    done.add(d['sid'])
            for sid in done:
                got[sid] = cur[sid]
            rest = [s for s in todo if s['id'] not in done]
            if not rest:
                break
            if all(s['id'] in done for s in batch):
                todo = rest
                continue
            if not how:
                raise Broken('driver stopped early')
            if not flush:
                # once more, to see how far the first unfinished script gets
                flush = True
                todo = rest
                continue
            bad = rest[0]
            rec = cur.get(bad['id'], {})
            at = next((i for i, op in enumerate(bad['ops']) if op['op'] != 'mark' and i not in rec), len(bad['ops']) - 1)
            rec[at] = {'sid': bad['id'], 'i': at, 'res': 'panic', 'msg': how}
            got[bad['id']] = rec
            todo = rest[1:]
            flush = False
        return got
    with cf.ThreadPoolExecutor(CORES) as ex:
        for g in ex.map(lane, range(CORES)):
            res.update(g)
    return res


# --------------------------------------------------------------------------- projection

def _proj(x):
    p, legal = x
    try:
        return p, proj.project(p) if legal else proj.light(p)
    except Exception as ex:
        d = proj.empty()
        d['err'] = 'projection: %r' % (ex,)
        return p, d


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = mp.get_context('fork').Pool(CORES)
    return _pool


def project_all(paths, hostile=frozenset()):
    return dict(pool().imap_unordered(_proj, [(p, p not in hostile) for p in sorted(set(paths))], chunksize=4))


def digest(p):
    try:
        return hashlib.sha1(open(p, 'rb').read()).hexdigest()
    except OSError:
        return None


# --------------------------------------------------------------------------- events

def txt(v):
    return v if isinstance(v, str) else ''.join(map(chr, v))


def cps(v):
    return [ord(c) for c in v] if isinstance(v, str) else list(v)


def legal_text(v):
    return all(c in (9, 10, 13) or 32 <= c <= 0xd7ff or 0xe000 <= c <= 0xfffd or c >= 0x10000 for c in cps(v))


def colour(c):
    if not c:
        return {'k': 'none', 'v': '', 'x': ''}
    if isinstance(c, str):
        return {'k': 'rgb', 'v': c, 'x': ''}
    return {'k': c['k'], 'v': c['v'], 'x': ''}


def f32(x):
    if x is None:
        return ''
    try:
        t = numlex(str(x), True)
    except OverflowError:
        t = '?'
    # one text for whatever is no number a file can hold
    return '?' if t.startswith('?') or t.endswith(('inf', 'nan')) else t


def norm_op(op):
    """driver operation -> the operation of the specification, every field present"""
    k = op['op']
    o = {'op': k, 'textok': True}
    if 'h' in op:
        o['h'] = op['h']
    if k in ('add', 'get'):
        n = op.get('name')
        o.update(auto=n is None, name=txt(n or ''), cp=cps(n or ''))
        o['textok'] = legal_text(n or '')
    elif k == 'rename':
        o.update(old=txt(op['old']), new=txt(op['new']), cp=cps(op['new']))
        o['textok'] = legal_text(op['new'])
    elif k in ('active', 'hide'):
        o['name'] = txt(op['name'])
    elif k == 'view':
        o.update(kind=op['k'], v=op['v'])
    elif k == 'cells':
        ref = op.get('ref')
        o.update(byref=ref is not None, refcp=cps(ref or ''), row=min(op.get('row', 0), 2 ** 31 - 1), col=op.get('col', 0), cells=[])
        for c in op['cells']:
            v, f = c.get('v'), c.get('f')
            nv = numlex(txt(v)) if v is not None else ''
            o['cells'].append({'v': txt(v or ''), 'hv': v is not None, 'cp': cps(v or ''), 't': c.get('t', 'auto'),
                               'f': txt(f or ''), 'hf': f is not None, 'fcp': cps(f or ''), 'sty': c.get('sty', ''),
                               'num': bool(nv) and not nv.startswith('?'), 'nv': nv})
            o['textok'] = o['textok'] and legal_text(v or '') and legal_text(f or '')
    elif k == 'row':
        p = op['p']
        o.update(row=min(op['row'], 2 ** 31 - 1), p={'ht': f32(p.get('height')), 'hidden': bool(p.get('hidden')), 'tt': bool(p.get('thickTop')),
                                    'tb': bool(p.get('thickBot')), 'sty': p.get('sty', '')})
    elif k == 'col':
        ref, p = op.get('ref'), op.get('p')
        o.update(byref=ref is not None, refcp=cps(ref or ''), col=op.get('col', 0), clear=p is None)
        p = p or {}
        o['p'] = {'w': f32(p.get('width')), 'hidden': bool(p.get('hidden')), 'bf': bool(p.get('bestFit')), 'sty': p.get('sty', '')}
    elif k == 'style':
        s = op['s']
        r = {'num': s.get('num', 0), 'code': txt(s.get('code') or ''), 'hascode': s.get('code') is not None,
             'font': txt(s.get('font', 'Calibri')), 'size': numlex(str(s.get('size', 11))),
             'color': colour(s.get('color', {'k': 'theme', 'v': '1'})), 'b': bool(s.get('b')), 'i': bool(s.get('i')),
             'u': bool(s.get('u')), 'uu': bool(s.get('uu')), 'wrap': bool(s.get('wrap')), 'bg': colour(s.get('bg')),
             'fg': colour(s.get('fg')), 'h': s.get('h', ''), 'va': s.get('va', '')}
        if r['num'] != -1:
            r['code'], r['hascode'] = '', False
        for b in ('bl', 'br', 'bt', 'bb', 'bd'):
            x = s.get(b) or {}
            r[b] = {'s': x.get('s', 'none'), 'c': colour(x.get('c'))}
        texts = [r['font'], r['code'] if s.get('num') == -1 else txt(s.get('code') or ''), r['fg']['v'], r['bg']['v'], r['color']['v']] + \
            [r[b]['c']['v'] for b in ('bl', 'br', 'bt', 'bb', 'bd')]
        o.update(tok=op['as'], s=r, texts=[cps(t) for t in texts])
        o['textok'] = all(legal_text(t) for t in texts)
    return o


def observed(op, rec):
    k = op['op']
    r = rec.get('ret')
    if k == 'style':
        return r if isinstance(r, int) else -1
    if k == 'list' or (k == 'add' and op.get('name') is None):
        return r if isinstance(r, list) else []
    return 0


def lanes(script):
    """the sub-scripts of the sessions of a script"""
    out = {}
    for i, op in enumerate(script['ops']):
        out.setdefault(op.get('ss', ''), []).append((i, op))
    return out


def answer(rec):
    """what the caller saw, as one text"""
    return json.dumps([rec['res'], rec.get('ret')], sort_keys=True) if rec else 'none'


def events(script, recs, packs, facts, all_recs=None):
    """the events of one script; package references are symbolic ('file', path)"""
    evs = []
    for ss, ops in lanes(script).items():
        sid = script['id'] + ('#' + ss if ss else '')
        legal = script.get('legal', True)
        evs.append({'ev': 'begin', 'sid': sid, 'i': 0})
        for i, op in ops:
            k = op['op']
            rec = recs.get(i)
            if k in ('mark', 'sleep'):
                continue
            if rec is None:
                break
            base = {'sid': sid, 'i': i, 'res': rec['res'], 'legal': legal}
            if op.get('like'):
                # the same operation of the same session run alone
                other = (all_recs or {}).get(op['like'][0], {}).get(op['like'][1])
                base.update(tw=True, tans=answer(other), ans=answer(rec))
            else:
                base.update(tw=False, tans='', ans='')
            if k in ('new', 'wnew', 'pnew'):
                f = op.get('file')
                evs.append(dict(base, ev='new', kind=k, blank=f is None, src=('file', f)))
            elif k in ('save', 'wsave', 'psave'):
                f = op['file']
                fx = facts.get((script['id'], i), {})
                evs.append(dict(base, ev='save', file=f, t0=rec.get('t0', 0), t1=rec.get('t1', 0),
                                tgt=fx.get('tgt', 'same'), input=fx.get('input', 'same'), badtarget=bool(op.get('badtarget')), more=bool(op.get('more')),
                                twin=('file', op['twin']) if op.get('twin') else 0))
            elif k == 'drop':
                evs.append(dict(base, ev='drop'))
            else:
                evs.append(dict(base, ev='op', op=norm_op({**op, **rec.get('sub', {})}), obs=observed(op, rec)))
            if rec['res'] == 'panic':
                break
        if recs.get(-1):
            evs.append({'ev': 'bad', 'sid': sid, 'i': -1, 'what': 'panic in drop'})
    return evs


def write_shard(path, evlists, packs, empty):
    """resolve symbolic package references to line numbers; returns the number of lines"""
    lines = [json.dumps({'ev': 'pkg', 'sid': '', 'i': 0, 'pkg': empty})]
    where = {None: 1}

    def ref(f):
        if f in where:
            return where[f]
        lines.append(json.dumps({'ev': 'pkg', 'sid': '', 'i': 0, 'pkg': packs[f]}))
        where[f] = len(lines)
        return len(lines)
    # sources that are not saved by the script itself come first
    for evs in evlists:
        own = {e['file'] for e in evs if e['ev'] == 'save'}
        for e in evs:
            if e['ev'] == 'new' and e['src'][1] not in own and e['src'][1] is not None and e['src'][1] in packs:
                ref(e['src'][1])
            if e['ev'] == 'save' and e['twin'] and e['twin'][1] not in own and e['twin'][1] in packs:
                ref(e['twin'][1])
    for evs in evlists:
        for e in evs:
            e = dict(e)
            if e['ev'] == 'new':
                f = e['src'][1]
                e['src'] = where.get(f, 1)
            elif e['ev'] == 'save':
                e['line'] = len(lines) + 1
                f = e.pop('file')
                e['twin'] = where.get(e['twin'][1], 0) if e['twin'] else 0
                if e['res'] == 'ok':
                    e['pkg'] = packs[f]
                    where[f] = len(lines) + 1
            lines.append(json.dumps(e))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return len(lines)


# --------------------------------------------------------------------------- TLC

def tlc(module, cfg, work, env, timeout, args=(), heap='2600m', workers='1', opts=()):
    meta = tempfile.mkdtemp(dir=work.dir)
    cmd = ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, *opts, '-cp', JARS, 'tlc2.TLC', '-workers', workers,
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), capture_output=True, text=True, timeout=timeout,
                           encoding='utf-8', errors='replace')
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b'').decode('utf-8', 'replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def parse_viols(out):
    """the printed findings; TLC may break long tuples over lines"""
    v = []
    lines = out.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('<<"VIOL"') or l.startswith('<< "VIOL"'):
            buf = l
            while not balanced(buf) and i + 1 < len(lines):
                i += 1
                buf += ' ' + lines[i].strip()
            m = re.match(r'<<\s*"VIOL",\s*"((?:[^"\\]|\\.)*)",\s*(-?\d+),\s*(.*)>>\s*$', buf, re.S)
            v.append((m.group(1), int(m.group(2)), m.group(3).strip()) if m else ('?', 0, buf))
        i += 1
    return v


def balanced(s):
    s = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s)
    return s.count('<<') == s.count('>>')


def check_traces(prop, work, evlists, packs, timeout=600, tag='t', shards=CORES):
    """evlists: list of event lists (one per script). Returns dict with findings and counts."""
    empty = proj.empty()
    evlists = [e for e in evlists if e]

    def cost(evs):
        return sum(30 if e['ev'] == 'save' else 1 for e in evs)
    order = sorted(evlists, key=cost, reverse=True)
    n = max(1, min(shards, len(order)))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for e in order:
        k = load.index(min(load))
        bins[k].append(e)
        load[k] += cost(e)

    def run(evs, name):
        path = work.path(name)
        cnt = write_shard(path, evs, packs, empty)
        rc, out = tlc('OxTrace.tla', 'OxTrace.cfg', work, {'OX_TRACE': path, 'OX_PROP': prop}, timeout)
        done = '<<"DONE", %d>>' % cnt in out
        os.unlink(path)
        return done, rc, out, cnt

    def shard(k):
        done, rc, out, cnt = run(bins[k], '%s-%d.ndjson' % (tag, k))
        st = STATES.findall(out)
        if done and rc == 0:
            return {'viol': parse_viols(out), 'events': cnt, 'states': int(st[-1][1]) if st else 0, 'err': []}
        if rc == 124:
            return {'viol': [], 'events': 0, 'states': 0, 'err': [('?', 'TLC time out')]}
        # a script the specification can not even evaluate: find it
        viol, err, ev, sts = [], [], 0, 0
        for j, e in enumerate(bins[k]):
            d, r, o, c = run([e], '%s-%d-%d.ndjson' % (tag, k, j))
            ev += c
            st = STATES.findall(o)
            sts += int(st[-1][1]) if st else 0
            viol += parse_viols(o)
            if not d or r != 0:
                m = re.search(r'(?s)Error: (.*?)(?:Error: The behavior|\n\n|$)', o)
                err.append((e[0]['sid'], (m.group(1) if m else o[-400:]).replace('\n', ' ')[:400]))
                if len(err) > 3:
                    break
        return {'viol': viol, 'events': ev, 'states': sts, 'err': err}
    tot = {'viol': [], 'events': 0, 'states': 0, 'err': []}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(shard, range(n)):
            for k in tot:
                tot[k] += r[k]
    return tot


def execute(exe, work, scripts, limit=20.0, sources=()):
    """run scripts, project everything, return (evlists, packs, recs)"""
    before = {}
    for s in scripts:
        for i, op in enumerate(s['ops']):
            if op['op'].endswith('save') and op.get('badtarget') == 'exists' or op.get('pre'):
                before[(s['id'], i)] = digest(op['file'])
    ins = {op['file'] for s in scripts for op in s['ops'] if op['op'].endswith('new') and op.get('file')}
    ins = {f for f in ins if os.path.exists(f)}
    dig = {f: digest(f) for f in ins}
    recs = run_driver(exe, work, scripts, limit)
    changed = {f for f in ins if digest(f) != dig[f]}
    saved = {op['file'] for s in scripts for i, op in enumerate(s['ops'])
             if op['op'].endswith('save') and recs.get(s['id'], {}).get(i, {}).get('res') == 'ok'}
    hostile = {op['file'] for s in scripts if not s.get('legal', True) for op in s['ops'] if op.get('file')}
    packs = project_all(saved | ins, hostile)
    facts = {}
    for s in scripts:
        cur = {}
        for i, op in enumerate(s['ops']):
            if op['op'].endswith('new'):
                cur[op.get('ss')] = op.get('file')
            if op['op'].endswith('save'):
                c = cur.get(op.get('ss'))
                fx = {'input': 'changed' if c in changed and c not in saved else 'same'}
                if (s['id'], i) in before:
                    fx['tgt'] = 'same' if digest(op['file']) == before[(s['id'], i)] else 'changed'
                facts[(s['id'], i)] = fx
    evl = []
    for s in scripts:
        evs = events(s, recs.get(s['id'], {}), packs, facts, recs)
        evl.append(evs)
    return evl, packs, recs

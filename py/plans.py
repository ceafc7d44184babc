"""What each property's check explores."""
import random, time
from oxlib import *
import alphabet, proj, gen, directed, pkgs, savefault

BLANK = {'file': None, 'names': ['sheet1'], 'rows': [], 'cols': []}
FIXTURE = {'file': FIX, 'names': ['Style', 'formula'], 'rows': [1, 2, 3, 4, 5, 6], 'cols': [1, 2, 3, 4, 5]}


def W(**k):
    """a mix by weight"""
    out = []
    for a, n in k.items():
        out += [a] * n
    return out


EDIT = W(add=2, get=4, cells=6, row=3, col=3, style=2, close=3, delete=1, rename=1, view=1, active=1, hide=1, list=1, auto=1)
SHEETS = W(add=4, auto=3, get=4, close=4, delete=4, rename=5, list=3, cells=2, active=1, hide=1)
CELLS = W(get=4, add=1, cells=12, row=2, col=2, style=1, close=2, rename=1)
ROWS = W(get=3, add=1, row=10, cells=4, style=2, close=1)
COLS = W(get=3, add=1, col=12, cells=2, style=2, close=1)
STYLES = W(style=10, cells=5, row=2, col=2, get=3, close=1, add=1)
VIEWS = W(view=10, active=5, hide=5, add=2, get=2, close=2, delete=3, rename=2, list=1, auto=1)
IDEMP = W(get=4, add=2, cells=6, row=3, col=3, style=4, close=3, view=2, active=1, hide=1)

# property -> generation profile
PROFILES = {
    'P01': dict(mix=SHEETS, sessions=3, len=16, bad=9, opts={'hardnames': True}),
    'P02': dict(mix=CELLS, sessions=3, len=12),
    'P03': dict(mix=W(get=3, add=3, cells=12, style=2, rename=4, close=2), sessions=3, len=10, bad=12, opts={'textnames': True}),
    'P04': dict(mix=W(get=2, cells=16, close=1), sessions=1, len=14, vals=60, bad=0, formula=20, opts={}),
    'P05': dict(mix=W(get=3, add=1, cells=12, row=3, col=4, close=1), sessions=1, len=14, bad=3, opts={}),
    'P06': dict(mix=ROWS, sessions=3, len=10),
    'P07': dict(mix=COLS, sessions=3, len=12, cols=6, opts={'cols': 6}),
    'P08': dict(mix=STYLES, sessions=2, len=14, stys=14, opts={'stys': 14}),
    'P09': dict(mix=VIEWS, sessions=3, len=8),
    'P10': dict(mix=EDIT, sessions=3, len=14),
    'P11': dict(mix=EDIT, sessions=2, len=8),
    'P13': dict(mix=W(add=4, get=6, close=4, cells=6, row=2, col=2, delete=2, rename=3, active=2, hide=2, style=1, view=1, list=1), sessions=2, len=18, bad=4, openSave=5),
    'P14': dict(mix=W(add=4, auto=2, get=4, close=2, delete=7, rename=3, cells=3, active=1, list=1), sessions=3, len=14),
    'P17': dict(mix=EDIT, sessions=2, len=12),
    'P18': dict(mix=EDIT, sessions=3, len=4),
    'P19': dict(mix=W(add=1, get=4, cells=6, delete=3, close=2, rename=1, auto=1), sessions=2, len=10, formula=3),
    'P20': dict(mix=CELLS, sessions=3, len=10),
    'P21': dict(mix=EDIT, sessions=3, len=8),
    'P22': dict(mix=W(get=4, add=2, cells=6, row=4, col=1, close=2), sessions=2, len=8, bad=20),
    'P23': dict(mix=EDIT, sessions=3, len=6),
    'P24': dict(mix=STYLES, sessions=2, len=10, stys=10),
    'P25': dict(mix=IDEMP, sessions=1, len=12, bad=14, openSave=999999),
    'P26': dict(mix=W(get=3, cells=10, row=1, col=1, close=2, delete=1, rename=1), sessions=2, len=10, formula=2),
    'P28': dict(mix=W(add=2, get=4, cells=8, row=4, col=4, style=5, close=3, delete=1, rename=1, view=3, active=1, hide=2, auto=1), sessions=2, len=12, formula=4),
    'P27': dict(mix=W(add=2, get=4, cells=6, row=3, col=3, style=5, close=3, delete=1, rename=1, view=1, active=1, hide=1, list=1, auto=1),
                sessions=2, len=11, walks=260, opts={'reqpool': 6}),
}


def run_scripts(prop, exe, work, scripts, tag='t', timeout=700):
    proj.SHAPES = prop in ('P28', 'ALL')
    ev, packs, recs = execute(exe, work, scripts)
    r = check_traces(prop, work, ev, packs, tag=tag, timeout=timeout)
    if any(x[1] == 'TLC time out' for x in r['err']):
        raise Broken('TLC did not finish in time')
    byid = {s['id']: s for s in scripts}
    vs = [{'sid': a, 'i': b, 'what': c, 'script': byid.get(a.split('#')[0])} for a, b, c in r['viol']]
    vs += [{'sid': a, 'i': -9, 'what': 'outside of what the specification can describe: ' + c, 'script': byid.get(a.split('#')[0])} for a, c in r['err']]
    acc = {x['res']: 0 for q in recs.values() for x in q.values()}
    for q in recs.values():
        for x in q.values():
            acc[x['res']] += 1
    saves = sum(1 for e in ev for x in e if x['ev'] == 'save' and x['res'] == 'ok')
    return {'violations': vs, 'level': 'model_checking',
            'coverage': {'states': r['states'], 'transitions': max(0, r['events']), 'traces_validated_against_impl': len(scripts),
                         'operations_refused': acc.get('err', 0), 'packages_compared': saves, 'samples': []}, 'recs': recs}


FOREIGN = {'quick': 36, 'thorough': 160}


def sources(prop, seed, tier, work, n=None):
    """packages the walks start from: a new workbook, the repository's, and foreign ones"""
    out = [BLANK, BLANK, FIXTURE, FIXTURE]
    for k in range(FOREIGN[tier] if n is None else n):
        s = '%s-%d-%d' % (prop, seed, k)
        out.append(pkgs.build(s, work.path('src-%d.xlsx' % k)))
    return out


SIZE = {'quick': 420, 'thorough': 4000}


def walk_scripts(prop, tier, seed, work, profile=None, size=None, tag='w'):
    p = dict(profile or PROFILES[prop])
    opts = dict(p.pop('opts', {}))
    opts.update({k: p[k] for k in ('rows', 'cols', 'stys') if k in p})
    if opts.get('reqpool'):
        rr = random.Random('%s-%d-formats' % (prop, seed))
        opts['reqpool'] = [gen.style_request(rr) for _ in range(opts['reqpool'])]
    if p.get('formula') is None:
        p['formula'] = 6
    srcs = sources(prop, seed, tier, work)
    total = size or p.pop('walks', SIZE[tier])
    groups = {}
    for s in srcs:
        groups.setdefault((s['file'] is None, len(s['names'])), []).append(s)
    scripts, states, trans = [], 0, 0
    todo = []
    for gi, ((blank, k), members) in enumerate(sorted(groups.items(), key=lambda x: x[0])):
        n = max(1, total * len(members) // len(srcs))
        todo.append((gi, members, (work, seed * 31 + gi, dict(p, walks=n, loaded=['l%d' % (j + 1) for j in range(k)], blank=blank), '%s%d' % (tag, gi))))
    with cf.ThreadPoolExecutor(CORES) as ex:
        got = list(ex.map(lambda x: gen.walks(*x[2]), todo))
    for (gi, members, _), (H, st, tr) in zip(todo, got):
        states += st
        trans += tr
        for i, h in enumerate(H):
            src = members[i % len(members)]
            scripts.append(gen.concretise(h, '%s%d.%d' % (tag, gi, i), random.Random('%s-%d-%s-%d-%d' % (prop, seed, tag, gi, i)), src, work, opts))
    return scripts, states, trans


# property -> the alphabet whose state graph is replayed transition by transition
SCOPE = {'P01': 'life', 'P10': 'life', 'P13': 'life', 'P14': 'life', 'P09': 'window', 'P21': 'window', 'P02': 'cells', 'P03': 'cells', 'P05': 'cells', 'P20': 'cells', 'P11': 'cells',
         'P06': 'rows', 'P22': 'rows', 'P17': 'rows', 'P07': 'cols', 'P08': 'styles', 'P24': 'styles', 'P19': 'formulas', 'P26': 'formulas', 'P28': 'window'}
CAP = {'quick': 1400, 'thorough': 9000}


def scope_scripts(prop, tier, seed, work):
    """every transition of the model in a small scope, each on one of several packages"""
    a = alphabet.ALPHABETS[SCOPE[prop]]
    opts = dict(PROFILES[prop].get('opts', {}))
    two = [FIXTURE]
    k = 0
    while len(two) < (6 if tier == 'quick' else 40):
        s = pkgs.build('%s-%d-scope-%d' % (prop, seed, k), work.path('scope-%d.xlsx' % k))
        k += 1
        if len(s['names']) == 2:
            two.append(s)
    scripts, states, trans, all_ = [], 0, 0, 0
    for tag, loaded, blank, members, depth in (('x', ['l1', 'l2'], False, two, a['depth'][tier]), ('y', ['l1'], True, [BLANK], a['depth'][tier] - 1)):
        H, st, tr = gen.histories(work, dict(alphabet=a['alphabet'], handles=a['handles'], depth=depth, loaded=loaded, blank=blank), tag)
        states += st
        trans += tr
        all_ += len(H)
        r = random.Random('%s-%d-scope' % (prop, seed))
        cap = CAP[tier] if tag == 'x' else CAP[tier] // 3
        if len(H) > cap:
            H = r.sample(H, cap)
        for i, h in enumerate(H):
            scripts.append(gen.concretise(h, '%s%d' % (tag, i), random.Random('%s-%d-%s-%d' % (prop, seed, tag, i)), r.choice(members), work, opts))
    return scripts, states, trans, all_


def alone_and_together(solo, r, work, rounds):
    """every script in a process of its own, once more, and among others: in turns and in threads"""
    for kind, fix in (('w', DOCX), ('p', PPTX)):
        for src in (None, fix):
            sid = '%s-%s' % (kind, 'f' if src else 'b')
            f = work.path(sid + '-1.x')
            solo.append({'id': sid, 'ops': [{'op': kind + 'new', 'file': src}, {'op': kind + 'save', 'file': f},
                                            {'op': kind + 'new', 'file': f}, {'op': kind + 'save', 'file': work.path(sid + '-2.x')}]})

    def copy(s, tag, ss):
        ren = {op['file']: op['file'] + '.' + tag + ss for op in s['ops'] if op['op'].endswith('save')}
        out = []
        for i, op in enumerate(s['ops']):
            o = dict(op, like=[s['id'], i])
            if ss:
                o['ss'] = ss
            if o.get('file') in ren:
                if op['op'].endswith('save'):
                    o['twin'] = o['file']
                o['file'] = ren[o['file']]
            out.append(o)
        return out
    res = [dict(s, own=True) for s in solo]
    for k, s in enumerate(solo):
        if k % 3 == 0:
            res.append({'id': s['id'] + '.again', 'own': True, 'ops': copy(s, 'again', '')})
    for n in range(rounds):
        pool = list(solo)
        r.shuffle(pool)
        while pool:
            g = [pool.pop() for _ in range(min(len(pool), r.choice([2, 2, 3, 4, 5])))]
            if len(g) < 2 or r.random() < .2:
                g.append(r.choice(g))       # the same document twice
            sid = 'g%d.%d' % (n, len(res))
            ls = [copy(s, sid, 's%d' % j) for j, s in enumerate(g)]
            par, mode, ops = r.random() < .4, r.choice(['turns', 'random', 'random', 'bursts']), []
            k = 0
            while ls:
                k = (k + 1) % len(ls) if mode == 'turns' else r.randrange(len(ls)) if mode == 'random' or r.random() < .3 else k % len(ls)
                ops.append(ls[k].pop(0))
                if not ls[k]:
                    ls.pop(k)
            res.append({'id': sid, 'ops': ops, 'par': par})
    return res


def repeated(scripts, work):
    """the operations of the first session again on what it saved, twice, and then none, twice"""
    for s in scripts:
        k = next(i for i, o in enumerate(s['ops']) if o['op'] == 'save')
        mid, ops = s['ops'][1:k], []
        for n in range(5):
            f = work.path('%s-r%d.xlsx' % (s['id'], n))
            ops += [{'op': 'new', 'file': s['ops'][0]['file'] if n == 0 else ops[-1]['file']}] + (mid if n < 3 else []) + [{'op': 'save', 'file': f}]
        s['ops'] = ops


def run(prop, tier, seed, exe, work):
    if prop == 'P12':
        return savefault.run(prop, tier, seed, exe, work)
    scripts, states, trans = [], 0, 0
    if prop in PROFILES:
        scripts, states, trans = walk_scripts(prop, tier, seed, work)
    if prop == 'P25':
        repeated(scripts, work)
    if prop == 'P27':
        scripts = alone_and_together(scripts, random.Random('P27-%d' % seed), work, 2 if tier == 'quick' else 3)
    d = directed.scripts(prop, tier, seed, work)
    x, every = [], 0
    if prop in SCOPE:
        x, st, tr, every = scope_scripts(prop, tier, seed, work)
        states += st
        trans += tr
    res = run_scripts(prop, exe, work, scripts + d + x)
    c = res['coverage']
    c['model_transitions_replayed'] = len(x)
    c['model_transitions_in_scope'] = every
    c['states'] += states
    c['transitions'] += trans
    c['generated_walks'] = len(scripts)
    c['directed_scripts'] = len(d)
    c['samples'] = [{'id': s['id'], 'ops': s['ops'][:6]} for s in (scripts[:1] + d[:1])]
    res['assumptions'] = ['the projection of a saved package (py/proj.py, Python zipfile and expat) reads it as an OOXML consumer would',
                          'TLC evaluates the specification correctly']
    return res

"""P12: the save protocol.

TLC checks OxSave exhaustively; then every file-system call of real saves is a crash
point and a fault, and OxSaveTrace judges the recorded calls and what is left.
"""
import errno, itertools, random
from oxlib import *
import pkgs

EDIT = [{'op': 'get', 'h': 'h', 'name': None}, {'op': 'cells', 'h': 'h', 'cells': [{'t': 's', 'v': 'after'}, {'t': 'n', 'v': '7'}], 'ref': 'B2'},
        {'op': 'close', 'h': 'h'}]


def edits(name):
    e = json.loads(json.dumps(EDIT))
    e[0]['name'] = name
    return e


def scenarios(prop, tier, seed):
    """(id, files put in the directory, operations with {D}, target name, extra)"""
    r = random.Random('save-%s' % seed)
    out = []

    def add(sid, put, ops, target, **k):
        out.append(dict(id=sid, put=put, ops=ops, target=target, **k))
    side = [('notes.txt', b'note'), ('out.xlsx.tmp', b'mine'), ('out.xlsx~', b'mine too'), ('out.xlsx.bak', b'bak'), ('out.tmp', b'x'), ('.out.xlsx.swp', b'y'),
            ('temp.xlsx', b'z'), ('out', b'o'), ('.openxml-office.tmp', b'p')]
    new = {'op': 'new', 'file': None}
    save = {'op': 'save', 'file': '{D}/out.xlsx'}
    add('blank-over-file', [('out.xlsx', b'previous content' * 900)] + side, [new] + edits('A') + [save], 'out.xlsx')
    add('blank-new-target', side, [new, save], 'out.xlsx')
    add('over-itself', [('out.xlsx', FIX)] + side[:2], [{'op': 'new', 'file': '{D}/out.xlsx'}] + edits('Style') + [save], 'out.xlsx')
    add('longer-over-shorter', [('out.xlsx', b's')], [new] + edits('Q') + [save], 'out.xlsx')
    add('relative', [('out.xlsx', b'old' * 50)], [new] + edits('A') + [dict(save, file='out.xlsx')], 'out.xlsx')
    add('dotted', [('out.xlsx', b'old' * 50)], [new, dict(save, file='./out.xlsx')], 'out.xlsx')
    add('odd-name', [('R&D ü.xlsx', b'old')], [new, dict(save, file='{D}/R&D ü.xlsx')], 'R&D ü.xlsx')
    add('long-name', [('n' * 250, b'old')], [new, dict(save, file='{D}/' + 'n' * 250)], 'n' * 250)
    add('word', [('out.docx', DOCX)], [{'op': 'wnew', 'file': '{D}/out.docx'}, {'op': 'wsave', 'file': '{D}/out.docx'}], 'out.docx')
    add('powerpoint', [('out.pptx', b'old')], [{'op': 'pnew', 'file': PPTX}, {'op': 'psave', 'file': '{D}/out.pptx'}], 'out.pptx')
    add('read-only-file', [('out.xlsx', b'old')], [new, save], 'out.xlsx', mode=0o444, mayfail=True)
    for k in range(2 if tier == 'quick' else 12):
        add('foreign-%d' % k, [('out.xlsx', ('pkg', 'save-%s-%d' % (seed, k)))], [{'op': 'new', 'file': '{D}/out.xlsx'}, {'op': 'list'}, save], 'out.xlsx')
    # saves that must be refused
    add('handle-open', [('out.xlsx', b'old')], [new] + edits('A')[:2] + [save], 'out.xlsx', mayfail=True, nofault=True)
    add('handle-open-new-target', side[:3], [new] + edits('A')[:2] + [save], 'out.xlsx', mayfail=True, nofault=True)
    add('no-directory', [], [new, dict(save, file='{D}/none/out.xlsx')], 'none', mayfail=True, nofault=True)
    add('is-directory', [('out.xlsx', None)], [new, save], 'out.xlsx', mayfail=True, nofault=True)
    add('empty-name', [('a', b'b')], [new, dict(save, file='')], 'none', mayfail=True, nofault=True)
    # two and more sessions at once
    for k in (2, 4):
        ops = []
        for s in range(k):
            ops += [dict(o, ss='s%d' % s) for o in [new] + edits('S%d' % s) + [save]]
        add('at-once-%d' % k, [('out.xlsx', b'old' * 3)], ops, 'out.xlsx', par=True, many=True, nofault=True, repeat=4 if tier == 'quick' else 30)
    return out


def content(p):
    """what a file holds, up to the times in the core properties"""
    d = proj._proj(p)[1] if hasattr(proj, '_proj') else proj.project(p)
    if not d['ok'] or any(not x['wf'] for x in d['parts']):
        return None
    core = d['core']['part']
    d['parts'] = sorted((x['n'], x['ct'], '' if x['n'] == core else x['h']) for x in d['parts'])
    d['rels'] = sorted(json.dumps(x, sort_keys=True) for x in d['rels'])
    for k in ('overrides', 'defaults'):
        d[k] = sorted(json.dumps(x, sort_keys=True) for x in d[k])
    d['core'] = {'rest': d['core']['rest'], 'n': d['core']['n']}
    return hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()


class Runner:
    def __init__(s, exe, work):
        s.exe, s.work, s.n = exe, work, 0
        s.so = work.path('fsshim.so')
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', s.so, os.path.join(HARNESS, 'shim/fsshim.c'), '-ldl', '-lpthread'],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('shim: ' + r.stderr[-800:])

    def one(s, n, sc, mode='', mode2=''):
        base = s.work.path('sv%d' % n)
        d, side = base + '/d', base + '/s'
        os.makedirs(d)
        os.makedirs(side)
        for name, c in sc['put']:
            p = os.path.join(d, name)
            if c is None:
                os.mkdir(p)
            elif isinstance(c, bytes):
                open(p, 'wb').write(c)
            elif isinstance(c, tuple):
                pkgs.build(c[1], p)
            else:
                shutil.copyfile(c, p)
        if sc.get('mode'):
            os.chmod(os.path.join(d, sc['target']), sc['mode'])
        start = {n_: digest(os.path.join(d, n_)) for n_ in os.listdir(d)}
        ops = json.loads(json.dumps(sc['ops']).replace('{D}', d))
        open(side + '/in', 'w').write(json.dumps({'id': 'x', 'ops': ops, 'par': sc.get('par', False)}) + '\n')
        env = dict(os.environ, OXO_DIR=d, OXO_LOG=side + '/log', LD_PRELOAD=s.so)
        if mode:
            env['OXO_MODE'] = mode
        if mode2:
            env['OXO_MODE2'] = mode2
        try:
            p = subprocess.run([s.exe, side + '/in', side + '/out', 'flush'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        calls = [json.loads(l) for l in open(side + '/log')] if os.path.exists(side + '/log') else []
        recs = [json.loads(l) for l in open(side + '/out')] if os.path.exists(side + '/out') else []
        saves = [x for x in recs if x['i'] >= 0 and ops[x['i']]['op'].endswith('save')]
        early = [x for x in recs if x['i'] >= 0 and not ops[x['i']]['op'].endswith('save') and x['res'] != 'ok']
        if rc == 99:
            how = 'crash'
        elif rc != 0:
            how = 'abort'
        elif any(x['res'] == 'panic' for x in recs):
            how = 'panic'
        elif early:
            how = 'never'
        else:
            how = 'ok' if any(x['res'] == 'ok' for x in saves) else 'err'
        left = []
        for n_ in sorted(os.listdir(d)):
            p = os.path.join(d, n_)
            left.append((n_, digest(p), content(p) if n_ == sc['target'] and os.path.isfile(p) else None))
        return {'n': n, 'how': how, 'calls': calls, 'start': start, 'left': left, 'base': base, 'msg': [x.get('msg') for x in saves]}


def events(sid, sc, run, want, whole, mayfail):
    evs = [{'ev': 'run', 'sid': sid, 'target': sc['target'], 'names': sorted(run['start'])}]
    for c in run['calls']:
        if c['call'] == 'crash':
            continue
        evs.append({'ev': 'call', 'sid': sid, 'call': c['call'], 'a': c['a'], 'b': c['b'], 'fd': c['fd'], 'ok': c['err'] == 0 and c['ret'] >= 0,
                    'creat': 'c' in c['x'] if c['call'] == 'open' else False, 'trunc': 't' in c['x'] if c['call'] == 'open' else False, 'whole': whole})
    dirs = []
    for n, dg, ct in run['left']:
        if n in run['start'] and run['start'][n] == dg:
            k = 'old'
        elif n == sc['target'] and ct is not None and ct in want:
            k = 'new'
        else:
            k = 'other'
        dirs.append({'n': n, 'c': k})
    evs.append({'ev': 'end', 'sid': sid, 'how': run['how'], 'dir': dirs, 'mayfail': mayfail})
    return evs


def run(prop, tier, seed, exe, work):
    # the protocol itself
    states = trans = 0
    for had in ('TRUE', 'FALSE'):
        cfg = work.path('save-%s.cfg' % had)
        t = open(os.path.join(SPEC, 'OxSave.cfg')).read().replace('Had = TRUE', 'Had = ' + had)
        if tier == 'thorough':
            t = t.replace('{s1, s2}', '{s1, s2, s3}').replace('Chunks = 3', 'Chunks = 4')
        open(cfg, 'w').write(t)
        rc, out = tlc('OxSave.tla', cfg, work, {}, 600, workers='8')
        st = STATES.findall(out)
        if rc != 0 or not st:
            raise Broken('OxSave: ' + out[-1500:])
        states += int(st[-1][1])
        trans += int(st[-1][0])
    rn = Runner(exe, work)
    jobs = []
    scs = scenarios(prop, tier, seed)
    n = itertools.count()
    r = random.Random('fault-%s' % seed)
    with cf.ThreadPoolExecutor(CORES) as ex:
        refs = list(ex.map(lambda sc: rn.one(next(n), sc), scs))
    evl, meta, seen = [], {}, set()
    whole = True
    for sc, ref in zip(scs, refs):
        want = set()
        tgt = [x for x in ref['left'] if x[0] == sc['target']]
        if tgt and tgt[0][2] and ref['how'] == 'ok':
            want.add(tgt[0][2])
        if sc.get('many'):
            # each session alone gives the documents that may be there in the end
            for k in sorted({o['ss'] for o in sc['ops']}):
                solo = rn.one(next(n), dict(sc, ops=[{a: b for a, b in o.items() if a != 'ss'} for o in sc['ops'] if o['ss'] == k], par=False))
                want |= {x[2] for x in solo['left'] if x[0] == sc['target']}
        jobs.append((sc, '', '', ref, want))
        if sc.get('repeat'):
            jobs += [(sc, '', '', None, want) for _ in range(sc['repeat'])]
        if sc.get('nofault') or ref['how'] == 'never':
            continue
        ks = [c['k'] for c in ref['calls'] if c['call'] != 'crash']
        if len(ks) > 60:
            whole = False
            # a save of many calls: the ends and a sample
            ks = sorted(set(ks[:15] + ks[-15:] + r.sample(ks, 20 if tier == 'quick' else 200)))
        kind = {c['k']: c['call'] for c in ref['calls']}
        for k in ks:
            jobs.append((sc, 'crash:%d' % k, '', None, want))
            if kind[k] == 'write':
                jobs.append((sc, 'half:%d' % k, '', None, want))
                jobs.append((sc, 'short:%d' % k, '', None, want))
            errs = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EMFILE] if tier == 'thorough' else [r.choice([errno.EIO, errno.ENOSPC, errno.EACCES])]
            for e in errs:
                if kind[k] != 'close':
                    jobs.append((sc, 'fail:%d:%d' % (k, e), '', None, want))
                    jobs.append((sc, 'failfrom:%d:%d' % (k, e), '', None, want))
                    # dies while it handles the failure
                    for j in range(k + 1, k + (3 if tier == 'quick' else 6)):
                        jobs.append((sc, 'fail:%d:%d' % (k, e), 'crash:%d' % j, None, want))
        jobs.append((sc, 'crash:%d' % (max(ks, default=0) + 1), '', None, want))

    def go(j):
        sc, a, b, ref, want = j
        return ref or rn.one(next(n), sc, a, b)
    with cf.ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(go, jobs))
    calls = 0
    for x, ((sc, a, b, ref, want), res) in enumerate(zip(jobs, results)):
        sid = '%s/%s/%s/%d' % (sc['id'], a or 'none', b or 'none', x)
        mayfail = bool(a) or sc.get('mayfail', False)
        if res['how'] == 'never':
            continue
        evl.append(events(sid, sc, res, want, not sc.get('many'), mayfail))
        meta[sid] = {'scenario': sc['id'], 'fault': a, 'fault2': b, 'calls': res['calls'][:40], 'left': [[q[0], q[1], q[2]] for q in res['left']], 'how': res['how'], 'msg': res['msg']}
        calls += len(res['calls'])
        seen.add((sc['id'], a, b, res['how'], tuple(c['call'] for c in res['calls'])))
        shutil.rmtree(res['base'], ignore_errors=True)
    path = work.path('save.ndjson')
    cnt = 0
    with open(path, 'w') as f:
        for evs in evl:
            for e in evs:
                f.write(json.dumps(e) + '\n')
                cnt += 1
    rc, out = tlc('OxSaveTrace.tla', 'OxSaveTrace.cfg', work, {'OX_TRACE': path}, 600)
    if '<<"DONE", %d>>' % cnt not in out:
        raise Broken('OxSaveTrace: ' + out[-2000:])
    st = STATES.findall(out)
    vs = [{'sid': a, 'i': b, 'what': c, 'script': dict(meta.get(a, {}), id=a, seed=seed, save=True)} for a, b, c in parse_viols(out)]
    return {'violations': vs, 'level': 'fault_enumeration',
            'coverage': {'evaluations': len(evl), 'distinct_nontrivial': len([x for x in seen if x[1]]),
                         'rule': 'a run of a real save with one call of it ended, failed or cut short (or two), distinct by scenario, fault, outcome and calls made',
                         'samples': list(meta.values())[1:3], 'calls_recorded': calls, 'scenarios': len(scs),
                         'states': states + int(st[-1][1]), 'transitions': trans + int(st[-1][0]), 'traces_validated_against_impl': len(evl),
                         'exhaustive': whole},
            'assumptions': ['a call that returned has taken effect; loss of unsynced pages at power failure is not modelled',
                            'the calls are seen through LD_PRELOAD; direct system calls would not be recorded (none are made by std or the zip crate)']}

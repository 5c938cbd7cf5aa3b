#!/usr/bin/env python3
"""run.py PROPERTY TIER - decides one property: builds the extension from /repo's working tree, records executions
of it, and has TLC decide whether they are behaviours of the specification in spec/ (and the other way round).
run.py --replay DIR - shows a saved counterexample and records and checks it again.
Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: no answer (error of the machinery)."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
import props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TEDS_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
SPEC = os.path.join(VERIF, 'spec')
PHPDIR = os.path.join(VERIF, 'harness/php')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KNOWN_TXT = os.path.join(VERIF, 'known_findings.txt')
KNOWN = os.path.join(WORK, 'known.ndjson')
CORES = 8

def known_findings():
    r = [dict(id=m.group(2), property=m.group(1), what=m.group(3)) for m in re.finditer(r'^finding: property=(\S+) key=(\S+) (.*)$', open(KNOWN_TXT).read(), re.M)]
    os.makedirs(WORK, exist_ok=True)
    tmp = f'{KNOWN}.{os.getpid()}'
    with open(tmp, 'w') as f: f.write(''.join(json.dumps(k) + '\n' for k in r))
    os.replace(tmp, KNOWN)
    return r

class NoAnswer(Exception): pass
class Violation(Exception):
    def __init__(self, what, files): super().__init__(what); self.what, self.files = what, files

def build():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/*.[ch]') + glob.glob(REPO + '/*/*.[ch]')) + [VERIF + '/harness/build_ext.sh', VERIF + '/harness/nodeep.c']:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    out = os.path.join(WORK, 'build-' + h.hexdigest()[:16])
    if not os.path.exists(out + '/ok'):
        for old in glob.glob(WORK + '/build-*'): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        p = subprocess.run(['bash', VERIF + '/harness/build_ext.sh', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: raise NoAnswer('the extension does not build:\n' + p.stdout[-3000:])
        open(out + '/ok', 'w').close()
    return out

ASAN = None
def php(bld, args, variant='asan', timeout=240, ini=()):
    global ASAN
    env = {k: v for k, v in os.environ.items() if not k.startswith('ASAN')}
    if variant == 'asan':
        ASAN = ASAN or subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env.update(LD_PRELOAD=f'{bld}/nodeep.so {ASAN}', USE_ZEND_ALLOC='0',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:verify_asan_link_order=0:allocator_may_return_null=1:detect_stack_use_after_return=0')
    cmd = ['php8.3', '-n', '-d', 'memory_limit=2G', '-d', f'extension_dir={bld}/{variant}', '-d', 'extension=teds.so']
    for i in ini: cmd += ['-d', i]
    try:
        p = subprocess.run(cmd + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

def tlc(module, cfg, env, meta, timeout=900, extra=(), xmx='2g', jopts=()):
    e = dict(os.environ); e.update(env)
    cmd = ['java', '-XX:+UseSerialGC', f'-Xmx{xmx}', '-Xss64m', *jopts, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-config', cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ''
        return 'timeout', o.decode() if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(meta, ignore_errors=True)

# ---------------------------------------------------------------- decoding, for people
def show(vals, i, depth=0):
    v = vals[i - 1]; k = v['t']
    if k in 'nft': return {'n': 'null', 'f': 'false', 't': 'true'}[k]
    if k == 'i': return str((v['n'][0] << 32) + (v['n'][1] << 16) + v['n'][2])
    if k == 's': return repr(bytes(v['b']))[1:]
    if k == 'a':
        if depth > 3: return '[...]'
        return '[' + ', '.join(show(vals, a, depth + 1) + ' => ' + show(vals, b, depth + 1) for a, b in v['e']) + ']'
    if k == 'd': return 'float(%s %s%s)' % (v['q'], v.get('fl', v['s']), '+' if v.get('fr') else '')
    return {'o': 'object#', 'r': 'resource#'}[k] + str(v.get('h')) + (('/probe%d' % v['p']) if v.get('p') else '')
def shows(vals, c):
    if isinstance(c, int): return show(vals, c)
    if isinstance(c, list): return '[' + ', '.join(shows(vals, x) for x in c) + ']'
    return str(c)
def describe(vals, e, n):
    s = f"#{n} {e.get('c') or ''} {e['op']} on {e['o'] or '-'}"
    if e['n']: s += f" -> object {e['n']}"
    s += ' args ' + '(' + ', '.join(show(vals, a) for a in e['a']) + ')'
    s += ' -> ' + ('throws ' + e['x'] if e['x'] else show(vals, e['r']))
    for k in e:
        if k not in ('op', 'o', 'a', 'x', 'r', 'n', 'c', 'ob'): s += f' {k}={json.dumps(e[k])}'
    for h, c in e['ob']: s += f'\n      contents of {h}: ' + shows(vals, c)
    return s

# ---------------------------------------------------------------- code -> specification
def trace_shard(prop, bld, camp, seed, events, tag, wdir):
    """records one trace and checks it; returns statistics or raises"""
    variant = camp.get('variant', 'asan')
    args = [PHPDIR + '/gen.php', camp['name'], str(seed), str(events), wdir, tag]
    tmo = camp.get('timeout', 240)
    def gen():
        for f in ('vals', 'trace', 'ops'):
            p = f'{wdir}/{f}{tag}.' + ('json' if f == 'ops' else 'ndjson')
            if os.path.exists(p): os.remove(p)
        rc, out = php(bld, args, variant, tmo, camp.get('ini', ()))
        pend = open(f'{wdir}/pending{tag}').read() if os.path.exists(f'{wdir}/pending{tag}') else ''
        return rc, out, pend
    rc, out, pend = gen()
    if not (rc == 0 and pend == 'DONE'):
        first = (rc, out, pend)
        rc2, out2, pend2 = gen()   # is it the code, or the machine?
        if rc2 == 0 and pend2 == 'DONE':
            rc3, out3, pend3 = gen()
            if not (rc3 == 0 and pend3 == 'DONE'): rc2, out2, pend2 = rc3, out3, pend3
        if not (rc2 == 0 and pend2 == 'DONE'):
            if rc2 in (-9, 137) : raise NoAnswer(f'php was killed (memory?) in {camp["name"]} seed {seed}')
            raise Violation(f'{"hang" if rc2 == "timeout" else "crash"} of the extension (exit {rc2}) during: {pend2}\n{out2[-6000:]}',
                            dict(camp=camp['name'], seed=seed, events=events, kind='crash'))
    tr, va = f'{wdir}/trace{tag}.ndjson', f'{wdir}/vals{tag}.ndjson'
    env = dict(TEDS_VALS=va, TEDS_TRACE=tr, TEDS_KNOWN=KNOWN)
    nlines = sum(1 for _ in open(tr, 'rb'))
    for attempt in (1, 2):
        rc, out = tlc('TedsTrace.tla', 'TedsTrace.cfg', env, f'{wdir}/meta{tag}')
        rej = re.search(r'@REJECT",\s*(\d+)', out)
        if rej or (rc == 0 and 'No error has been found' in out): break
        # TLC could not evaluate the specification on an event: the event has a shape the specification rules out
        err = re.search(r'Error: (Evaluating|Attempted|In evaluation|The first argument|The second argument|A non|CASE|TLC encountered|Cannot|The CASE|Field)', out)
        if err and attempt == 2:
            d = re.search(r'depth of the complete state graph search is (\d+)', out)
            if d: rej = d; break
    else:
        raise NoAnswer(f'TLC gave no verdict on {camp["name"]} seed {seed}: {out[-2500:]}')
    if rej:
        l = int(rej.group(1))
        lines = open(tr).read().split('\n'); vals = [json.loads(x) for x in open(va)]
        l = min(l, nlines)
        st = l - 1
        while st > 0 and json.loads(lines[st])['op'] != 'reset': st -= 1
        seg = lines[st:l]
        text = '\n'.join(describe(vals, json.loads(x), st + i + 1) for i, x in enumerate(seg[-40:]))
        exp = re.sub(r'\s+', ' ', out[out.index('@EXPECTED'):] if '@EXPECTED' in out else out[-1500:])[:3000]
        raise Violation(f'event {l} of the recorded execution is not a behaviour of the specification:\n{text}\nexpected: {exp}',
                        dict(camp=camp['name'], seed=seed, events=events, kind='rejected', segment=seg, vals=va))
    known = {k: int(n) for k, n in re.findall(r'@KNOWN", "([^"]+)", (\d+)', out)}
    g = re.search(r'(\d+) states generated, (\d+) distinct', out)
    ops = json.load(open(f'{wdir}/ops{tag}.json'))
    ntraces = 0; samples = []
    vals = None
    with open(tr) as f:
        for i, line in enumerate(f):
            if '"op":"reset"' in line: ntraces += 1
            if i in (3, 4, 5, 40, 41):
                vals = vals or [json.loads(x) for x in open(va)]
                samples.append(describe(vals, json.loads(line), i + 1)[:400])
    for f in (tr, va, f'{wdir}/ops{tag}.json', f'{wdir}/pending{tag}'):
        os.remove(f)
    return dict(events=nlines, traces=max(ntraces - 1, 0), ops=ops, known=known, samples=samples, states=int(g.group(2)), gen=int(g.group(1)))

# ---------------------------------------------------------------- specification -> code
def model_shard(prop, bld, m, tier, wdir, tag, seed):
    """explores a bounded model with TLC (checking its invariants), then walks the printed transition graph with the real code"""
    name = m['name']; deep = tier == 'thorough'; t0 = time.time()
    rc, out = php(bld, [PHPDIR + '/model_out.php', name, wdir, tag], 'plain', 60)
    if rc != 0: raise NoAnswer(f'model_out {name}: {out[-2000:]}')
    env = json.load(open(f'{wdir}/model{tag}.json'))
    env.update(TEDS_VALS=f'{wdir}/vals{tag}.ndjson', MC_CALLS=f'{wdir}/calls{tag}.ndjson', MC_INITS=f'{wdir}/inits{tag}.ndjson', TEDS_KNOWN=KNOWN)
    mod = m.get('module', 'MCTeds')
    for attempt in (1, 2):
        rc, out = tlc(mod + '.tla', mod + '.cfg', env, f'{wdir}/meta{tag}', extra=['-workers', '1'], xmx=m.get('xmx', '3g'))
        if 'No error has been found' in out or 'is violated' in out: break
    if 'is violated' in out: raise NoAnswer('the specification itself breaks an invariant: ' + re.sub(r'(?m)^"@.*$', '', out)[-3000:])
    if 'No error has been found' not in out: raise NoAnswer(f'TLC gave no verdict on {m}: {out[-2500:]}')
    g = re.search(r'(\d+) states generated, (\d+) distinct', out)
    st = dict(name=f'{mod} {name}', states=int(g.group(2)), transitions=int(g.group(1)), histories=0, calls=0, depth=m.get('deep' if deep else 'depth', m.get('depth', 2)), known={})
    gf = f'{wdir}/graph{tag}'
    with open(gf, 'w') as f:
        for l in out.split('\n'):
            if l.startswith('"@T ') or l.startswith('"@I '): f.write(json.loads(l)[3:] + '\n'); sample = l
    st['sample'] = sample[:400]
    split = m.get('split', 8 if deep else 2); walks = m.get('walks', 2000 if deep else 200) // split
    def go(i):
        args = [PHPDIR + '/replay.php', gf, name, str(st['depth']), str(i), str(split), str(walks), '100', str(seed), wdir, f'{tag}_{i}', KNOWN]
        for attempt in (1, 2):
            rc, out = php(bld, args, 'asan', 700)
            r = re.search(r'^@REPLAYED (\d+) (\d+) (.*)$', out, re.M)
            if rc == 0 and r: return r
        if rc in (-9, 137): raise NoAnswer('php was killed (memory?) during the replay')
        pend = open(f'{wdir}/pending{tag}_{i}').read() if os.path.exists(f'{wdir}/pending{tag}_{i}') else ''
        raise Violation(f'a history of the specification is not what the code does (model {name}, exit {rc}, after: {pend}):\n{out[-6000:]}',
                        dict(kind='replay', camp=mod, name=name, graph=gf, args=[str(st['depth']), str(i), str(split), str(walks), '100', str(seed)]))
    with ThreadPoolExecutor(split) as ex:
        for r in ex.map(go, range(split)):
            st['histories'] += int(r.group(1)); st['calls'] += int(r.group(2))
            for k, n in json.loads(r.group(3)).items(): st['known'][k] = st['known'].get(k, 0) + n
    for f in glob.glob(f'{wdir}/*{tag}_*') + [gf]: os.remove(f)
    st['wall_s'] = round(time.time() - t0, 1)
    return st

def shapes_shard(prop, bld, m, tier, wdir, tag, seed):
    """all tree shapes the real code reaches with a number of keys, each change checked by TLC"""
    n = m['deep' if tier == 'thorough' else 'keys']; c = m['class']
    for attempt in (1, 2):
        rc, out = php(bld, [PHPDIR + '/tree.php', c, str(n), wdir, tag], 'asan', 600)
        r = re.search(r'^@SHAPES (\d+) (\d+)$', out, re.M)
        if rc == 0 and r: break
    else:
        if rc in (-9, 137): raise NoAnswer('php was killed (memory?)')
        pend = open(f'{wdir}/pending{tag}').read() if os.path.exists(f'{wdir}/pending{tag}') else ''
        raise Violation(f'{c}: exit {rc} during {pend}\n{out[-4000:]}', dict(kind='shapes', camp='TedsShapes', model=m))
    env = dict(TEDS_VALS=f'{wdir}/vals{tag}.ndjson', TEDS_ROWS=f'{wdir}/rows{tag}.ndjson')
    for attempt in (1, 2):
        rc, out = tlc('TedsShapes.tla', 'TedsShapes.cfg', env, f'{wdir}/meta{tag}', xmx='4g')
        rej = re.search(r'@REJECT",\s*(\d+)', out)
        if rej or (rc == 0 and 'No error has been found' in out): break
    else: raise NoAnswer(f'TLC gave no verdict on the shapes: {out[-2500:]}')
    if rej:
        row = open(env['TEDS_ROWS']).read().split('\n')[int(rej.group(1)) - 1]
        raise Violation(f'a change of a tree breaks it: {row}', dict(kind='shapes', camp='TedsShapes', model=m))
    for f in env.values(): os.remove(f)
    return dict(name=f'TedsShapes {c}, {n} keys: {r.group(1)} shapes', states=int(r.group(1)), transitions=int(r.group(2)), histories=int(r.group(1)), calls=int(r.group(2)))

def order_shard(prop, bld, m, tier, wdir, tag, seed):
    """all pairs of a universe of values: the order of the specification, and that of the code"""
    n = m['deep' if tier == 'thorough' else 'size']; seed = seed * 100 + m['seed']
    for attempt in (1, 2):
        rc, out = php(bld, [PHPDIR + '/order.php', str(n), str(seed), wdir, tag], 'asan', 300)
        if rc == 0 and '@ORDER' in out: break
    else:
        if rc in (-9, 137): raise NoAnswer('php was killed (memory?)')
        pend = open(f'{wdir}/pending{tag}').read() if os.path.exists(f'{wdir}/pending{tag}') else ''
        raise Violation(f'exit {rc} during {pend}\n{out[-4000:]}', dict(kind='order', camp='TedsOrder', model=m, seed=seed))
    env = dict(TEDS_VALS=f'{wdir}/vals{tag}.ndjson', TEDS_ROWS=f'{wdir}/rows{tag}.ndjson')
    for attempt in (1, 2):
        rc, out = tlc('TedsOrder.tla', 'TedsOrder.cfg', env, f'{wdir}/meta{tag}')
        rej = re.search(r'@REJECT",\s*(\d+), (\d+), "([^"]+)"', out)
        if rej or (rc == 0 and 'No error has been found' in out): break
    else: raise NoAnswer(f'TLC gave no verdict on the order: {out[-2500:]}')
    if rej:
        vals = [json.loads(x) for x in open(env['TEDS_VALS'])]; rows = [json.loads(x) for x in open(env['TEDS_ROWS'])]
        a, b = int(rej.group(1)) - 1, int(rej.group(2)) - 1
        raise Violation(f'{rej.group(3)} of {show(vals, rows[a]["v"])} and {show(vals, rows[b]["v"])}: the code says stable_compare {rows[a]["c"][b]}, strict_equals {rows[a]["q"][b]}, hash classes {rows[a]["h"]} {rows[b]["h"]}', dict(kind='order', camp='TedsOrder', model=m, seed=seed))
    for f in env.values(): os.remove(f)
    return dict(name=f'TedsOrder, {n} values, seed {seed}', states=n, transitions=n * n * n, histories=n, calls=3 * n * n)

# ---------------------------------------------------------------- one check
def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[prop]; findings = known_findings()
    os.makedirs(WORK, exist_ok=True); os.makedirs(VERIF + '/evidence', exist_ok=True)
    wdir = os.path.join(WORK, f'run-{prop}-{os.getpid()}'); shutil.rmtree(wdir, ignore_errors=True); os.makedirs(wdir)
    tot = dict(events=0, traces=0, states=0, gen=0); ops = {}; known = {}; samples = []; models = []; bad = None; noans = None
    try:
        bld = build()
        jobs = []
        budget = float(os.environ.get('TEDS_BUDGET', 600 if tier == 'thorough' else 0))
        with ThreadPoolExecutor(CORES) as ex:
            def submit_models():
                for i, m in enumerate(P.get('models', [])):
                    if m.get('tier', tier) == tier or m.get('tier') == 'both': jobs.append(ex.submit(model_shard, prop, bld, m, tier, wdir, f'M{i}', seed))
            def submit_round(r):
                k = 0
                for c in P.get('campaigns', []):
                    if c.get('tier', tier) != tier: continue
                    for i in range(c['shards']):
                        s = seed * 100000 + r * 1000 + k
                        jobs.append(ex.submit(trace_shard, prop, bld, c, s, c['events'], f'{r}_{k}', wdir)); k += 1
            for i, m in enumerate(P.get('shapes', [])): jobs.append(ex.submit(shapes_shard, prop, bld, m, tier, wdir, f'S{i}', seed))
            for i, m in enumerate(P.get('orders', [])): jobs.append(ex.submit(order_shard, prop, bld, m, tier, wdir, f'O{i}', seed))
            submit_models(); submit_round(0)
            r = 0
            while jobs:
                j = jobs.pop(0)
                try:
                    z = j.result()
                    if 'histories' in z:
                        models.append(z)
                        for k, n in z.get('known', {}).items(): known[k] = known.get(k, 0) + n
                    else:
                        for k in ('events', 'traces', 'states', 'gen'): tot[k] += z[k]
                        for k, n in z['ops'].items(): ops[k] = ops.get(k, 0) + n
                        for k, n in z['known'].items(): known[k] = known.get(k, 0) + n
                        if len(samples) < 12: samples += z['samples'][:4]
                except Violation as v:
                    bad = v
                except NoAnswer as n:
                    noans = n
                if bad:
                    for q in jobs: q.cancel()
                    break
                if not jobs and tier == 'thorough' and time.time() - t0 < budget and not noans and P.get('campaigns'):
                    r += 1; submit_round(r)
        replay = None
        if bad:
            replay = os.path.join(VERIF, 'replays', f'{prop}-{int(time.time())}'); os.makedirs(replay, exist_ok=True)
            open(replay + '/what.txt', 'w').write(bad.what + '\n')
            f = dict(bad.files); vf = f.pop('vals', None); seg = f.pop('segment', None); hf = f.pop('graph', None)
            if seg: open(replay + '/trace.ndjson', 'w').write('\n'.join(seg) + '\n')
            if vf: shutil.copy(vf, replay + '/vals.ndjson')
            if hf: shutil.copy(hf, replay + '/graph')
            json.dump(dict(property=prop, **f), open(replay + '/replay.json', 'w'), default=str)
    finally:
        shutil.rmtree(wdir, ignore_errors=True)
    if noans and not bad:
        print('NO ANSWER:', noans); return 2
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'model_checking'), wall_s=round(time.time() - t0, 1), violations=1 if bad else 0,
              coverage=dict(states=tot['states'] + sum(m['states'] for m in models), transitions=tot['gen'] + sum(m['transitions'] for m in models),
                            traces_validated_against_impl=tot['traces'] + sum(m['histories'] for m in models),
                            recorded_traces=tot['traces'], recorded_events=tot['events'], replayed_histories=sum(m['histories'] for m in models), replayed_calls=sum(m['calls'] for m in models),
                            operations=dict(sorted(ops.items(), key=lambda x: -x[1])), models=models, known_findings_seen=known, samples=samples[:12] or [m.get('sample', '') for m in models][:5]))
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    for k in findings:
        if k['property'] == prop and known.get(k['id'], 0) > 0: print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['id']}, seen {known[k['id']]} times]")
    if bad:
        print(bad.what[:6000]); print(f'VIOLATION property={prop} replay={replay}'); return 1
    print(f"{prop} held: {tot['events']} recorded events in {tot['traces']} executions accepted, {sum(m['histories'] for m in models)} specification histories replayed, {ev['wall_s']} s")
    return 0

def replay(d):
    known_findings()
    print(open(d + '/what.txt').read())
    f = json.load(open(d + '/replay.json')); bld = build()
    wdir = os.path.join(WORK, f'replay-{os.getpid()}'); os.makedirs(wdir, exist_ok=True)
    try:
        if f['kind'] == 'shapes':
            try: shapes_shard(f['property'], bld, f['model'], 'quick', wdir, 'R', 1)
            except Violation as v: print(v.what); print(f"VIOLATION property={f['property']} replay={d}"); return 1
            print('does not happen any more'); return 0
        if f['kind'] == 'order':
            try: order_shard(f['property'], bld, f['model'], 'quick', wdir, 'R', (f['seed'] - f['model']['seed']) // 100)
            except Violation as v: print(v.what); print(f"VIOLATION property={f['property']} replay={d}"); return 1
            print('does not happen any more'); return 0
        if f['kind'] == 'replay':
            rc, out = php(bld, [PHPDIR + '/replay.php', d + '/graph', f['name'], *f['args'], wdir, 'R', KNOWN], 'asan', 700); print(out[-4000:])
            if rc: print(f"VIOLATION property={f['property']} replay={d}")
            return 1 if rc else 0
        camp = next((c for P in props.PROPS.values() for c in P.get('campaigns', []) if c['name'] == f['camp']), dict(name=f['camp']))
        try: trace_shard(f['property'], bld, camp, f['seed'], f['events'], 'R', wdir)
        except Violation as v: print(v.what); print(f"VIOLATION property={f['property']} replay={d}"); return 1
        print('does not happen any more'); return 0
    finally: shutil.rmtree(wdir, ignore_errors=True)

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except NoAnswer as n:
        print('NO ANSWER:', n); sys.exit(2)

#!/usr/bin/env python3
"""Driver of the ta-lib-rt simulator.
  check.py PROP [--tier quick|thorough] [--secs N]   decide one property (exit 0 held, 1 violated)
  check.py --replay FILE                             re-execute a replay file
  check.py --setup                                   build the simulator variants
The simulator is rebuilt from /repo's working tree (cached by content hash under build/)."""
from concurrent.futures import ThreadPoolExecutor
import sys, os, re, json, time, subprocess, hashlib, shutil, struct, glob, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TALIB_REPO', '/repo')
SRC = os.path.join(REPO, 'ta-lib-rt', 'c')
ENV = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:allow_user_segv_handler=0')
WORKERS = min(8, os.cpu_count() or 4)
PREEMPT = ('C11', 'C13')  # properties that need load/store preemption points
RULES = {
 'C01': ('streaming vs batch history', 'a delivered value was compared with the batch result'),
 'C02': ('stream history with checkpoints, crashes and restores', 'at least one image was restored'),
 'C03': ('stream history with failing and healthy saves', 'at least one save ran'),
 'C04': ('saves against a failing device', 'the device fault fired during a save'),
 'C05': ('loads of torn, truncated and unreadable images', 'at least one load was refused'),
 'C06': ('journals of several streams and markers in one file', 'at least one image was restored'),
 'C07': ('operations on empty and occupied slots', 'such an operation ran'),
 'C08': ('life-cycle histories over several slots', 'a delivered value was compared'),
 'C09': ('batch calls under allocation failure', 'an allocation failure fired'),
 'C10': ('StateInit/StateLoad under allocation failure', 'an allocation failure fired'),
 'C11': ('interleaved streaming callers', 'at least one preemptive switch happened'),
 'C12': ('segmentations of a feed between BatchState and State', 'a delivered value was compared'),
 'C13': ('interleaved batch callers', 'at least one preemptive switch happened'),
 'C14': ('histories of global settings calls', 'at least one settings call was compared with the model'),
 'C15': ('histories of parameter-holder calls', 'at least one holder call was compared with the model'),
 'C16': ('reflection and holder calls under allocation failure', 'an allocation failure fired'),
 'C18': ('recomputations over a growing or rolling history', 'a delivered value was compared with an earlier delivery'),
 'C22': ('refused and good calls over live streams', 'at least one refused call was made'),
 'C23': ('streams moved 2^k bars into their future', 'at least one such move happened'),
 'C19': ('requests to both precisions over a growing history', 'a request was made to both precisions'),
 'C20': ('pipelines of calls working in place over one arena of series', 'at least one output shared its array with an input'),
 'C24': ('streams and batch calls over a feed with broken quotes and its clean twin', 'at least one broken quote was fed'),
 'C26': ('twin histories over different memory contents with saves, restores and block divisions', 'at least two images were compared'),
 'C25': ('open streams, and copies restored from their images, under changing settings', 'at least one setting was changed'),
 'C27': ('batch calls, streams and restored streams against reference models', 'a delivered value was compared with the model'),
 'C28': ('runs of the source generator under faults, and runs after them', 'a run of the generator was compared with an undisturbed one'),
 'C29': ('histories of developers\' edits, damaged generated parts and runs of the source generator', 'a regenerated source was compared with the developers\' lines'),
 'C17': ('histories replayed over differently dirtied memory', 'a delivered value was compared'),
}

GEN = ('C28', 'C29')

def die(msg, rc=2):
    print('check error: ' + msg); sys.exit(rc)

FOCUS = []

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in (os.path.join(SRC, 'include'), os.path.join(SRC, 'src'), os.path.join(V, 'sim')):
        for r, ds, ns in os.walk(d):
            ds.sort()
            fs += [os.path.join(r, n) for n in ns if n.endswith(('.c', '.h', '.cpp', '.sh', '.py', '.inc'))]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def variant_of(prop): return 'cov' if prop in PREEMPT else 'plain' if prop in GEN else 'asan'

def build(variant):
    h = tree_hash(); out = os.path.join(V, 'build', '%s-%s' % (variant, h)); sim = os.path.join(out, 'sim')
    if os.path.exists(sim): return sim
    for old in glob.glob(os.path.join(V, 'build', variant + '-*')):
        if time.time() - os.path.getmtime(old) > 1800: shutil.rmtree(old, ignore_errors=True)
    tmp = out + '.tmp%d' % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    p = subprocess.run(['bash', os.path.join(V, 'sim', 'build.sh'), tmp, variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, TALIB_REPO=REPO))
    if p.returncode or not os.path.exists(os.path.join(tmp, 'sim')):
        print(p.stdout[-4000:]); shutil.rmtree(tmp, ignore_errors=True); die('the simulator does not build')
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return sim

# ---- change-directed search: functions whose preprocessed source differs from the recorded one, and their callers, are drawn more often.
# This only steers where the search looks; the verdict depends on what the code does, and everything else is still drawn.
BASE = os.path.join(V, 'tools', 'baseline.json')

def fingerprints():
    inc = ['-Iinclude', '-Isrc/ta_abstract', '-Isrc/ta_abstract/frames', '-Isrc/ta_common', '-Isrc/ta_func']
    fs = sorted(glob.glob(os.path.join(SRC, 'src', 'ta_func', 'ta_*.c')))
    def one(f):
        p = subprocess.run(['clang', '-E', '-P', '-w'] + inc + [os.path.relpath(f, SRC)], cwd=SRC, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return os.path.basename(f)[3:-2], hashlib.sha256(b' '.join(p.stdout.split())).hexdigest()[:16]
    with ThreadPoolExecutor(WORKERS) as ex: return dict(ex.map(one, fs))

def focus_list():
    try: base = json.load(open(BASE)); now = fingerprints()
    except Exception: return []
    changed = [n for n in now if now[n] != base.get(n)]
    if not changed or len(changed) > 40: return []
    calls = {}
    for n in now:
        t = open(os.path.join(SRC, 'src', 'ta_func', 'ta_%s.c' % n), encoding='latin1').read()
        calls[n] = {x for m in re.findall(r'CALL\w*\(\s*(\w+)|TA_INT_(\w+)|\bTA_(\w+?)_(?:State|Lookback)', t) for x in m if x} - {n}
    al = {'PO': 'APO', 'VAR': 'VAR', 'stddev_using_precalc_ma': 'STDDEV'}
    for n in calls: calls[n] = {al.get(x, x) for x in calls[n]}
    reach, todo = set(changed), list(changed)
    while todo:
        x = todo.pop()
        for n in now:
            if n not in reach and x in calls[n]: reach.add(n); todo.append(n)
    return changed * max(2, 2 * len(reach - set(changed)) // max(1, len(changed))) + sorted(reach - set(changed))

def known_file(path):
    ks = [json.loads(l) for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('{')]
    with open(path, 'w') as f:
        for k in ks: f.write(' '.join(k[x] for x in ('id', 'property', 'key', 'fn', 'cond')) + '\n')
    return {k['id']: k for k in ks}

def classify(rc, err, text=''):
    """Signature of a run that killed its process."""
    if 'SIMHANG' in err or rc == 97: kind = 'hang'
    else:
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
        kind = 'crash-' + m.group(1) if m else 'crash-rc%d' % rc
        kind = kind.replace('crash-ABRT', 'crash-abort')
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (TA_\w+|\w+) .*?/ta-lib-rt/c/', err)
    fn = fr[0] if fr else ''
    m = re.search(r'SUMMARY: (.*)', err)
    if not fn:
        m2 = re.search(r'^(?:stream|batch|null|call|task)\b.*\bfn=(\w+)', text, re.M); fn = m2.group(1) if m2 else ''
    fn = re.sub(r'^TA_(S_)?', '', fn); fn = re.sub(r'_(State|BatchState|StateInit|StateFree|StateSave|StateLoad|Lookback|Frame\w*)$', '', fn)
    if kind == 'hang': return kind, fn, 'the call did not return within 20 s of CPU time'
    return kind, fn, (m.group(1) if m else 'process ended with code %d' % rc)

class Sim:
    def __init__(self, sim, known): self.sim = sim; self.known = known; self.execs = 0
    def gen(self, prop, seed, idx):
        return subprocess.run([self.sim, 'gen', '--prop', prop, '--seed', str(seed), '--idx', str(idx)] + FOCUS, stdout=subprocess.PIPE, text=True, env=ENV).stdout
    def execute(self, text, path, timeout=120, extra=()):
        """Run a scenario in a fresh process. -> (held?, key, fn, detail, hash, known, stdout)"""
        self.execs += 1
        open(path, 'w').write(text)
        try: p = subprocess.run([self.sim, 'exec', path, '--known', self.known] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV, timeout=timeout)
        except subprocess.TimeoutExpired: return (False, 'hang', '', 'no result after %d s' % timeout, '', '', '')
        m = re.search(r'^HASH (\w+)', p.stdout, re.M); hs = m.group(1) if m else ''
        if p.returncode == 0: return (True, '', '', '', hs, '', p.stdout)
        v = re.search(r'^VIOL (\{.*\})', p.stdout, re.M)
        if p.returncode == 1 and v:
            d = json.loads(v.group(1)); return (False, d['key'], d['fn'], d['detail'], hs, d['known'], p.stdout)
        k, f, d = classify(p.returncode, p.stderr, text)
        return (False, k, f, d, k + f, '', p.stdout)

def worker(sim, known, prop, seed, w, secs, tmp, out, stop, maxruns):
    first = w; end = time.time() + secs; part = 0
    while time.time() < end - 0.3 and not stop.is_set() and part < 40:
        pr = os.path.join(tmp, 'pr%d' % w); b = os.path.join(tmp, 'w%d.%d' % (w, part)); part += 1
        cmd = [sim, 'run', '--prop', prop, '--seed', str(seed), '--first', str(first), '--stride', str(WORKERS), '--secs', '%.1f' % (end - time.time()), '--known', known, '--progress', pr, '--cov', b + '.cov', '--dump', b + '.hash', '--maxviol', '12', '--count', str(maxruns)] + FOCUS
        ef = open(b + '.err', 'w+', errors='replace'); p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, text=True, errors='replace', env=ENV)
        def watch():
            while p.poll() is None:
                if stop.is_set() or time.time() > end + 60: p.kill(); return
                time.sleep(0.2)
        t = threading.Thread(target=watch); t.start()
        done = False
        for l in p.stdout:
            if l.startswith('VIOL '):
                d = json.loads(l[5:]); d['w'] = w; d['start'] = first; out['viol'].append(d)
            elif l.startswith('STATS '): out['stats'].append(json.loads(l[6:])); done = True
        rc = p.wait(); t.join()
        if done or stop.is_set(): return
        ef.seek(0); err = ef.read(); ef.close()
        try: idx = int(open(pr).read())
        except Exception: out['err'].append('worker died: rc %d %s' % (rc, err[-500:])); return
        if rc == -9: out['err'].append('worker killed (memory or time) at run %d' % idx); return
        k, f, d = classify(rc, err); out['viol'].append(dict(idx=idx, key=k, fn=f, detail=d, w=w, start=first, crash=True)); out['died'] += 1
        first = idx + WORKERS

def shrink(sm, text, sig, path, deadline):
    """Delta-debug the operation list, then the numbers, keeping the violation class."""
    def same(t):
        if time.time() > deadline: return False
        r = sm.execute(t, path); return (not r[0]) and r[1] == sig[0] and r[2] == sig[1]
    parts = re.split(r'(?m)^(?=prop )', text); parts = [p for p in parts if p.strip()]
    # drop earlier scenarios of the same process
    i = 0
    while len(parts) > 1 and i < len(parts) - 1 and time.time() < deadline:
        for k in (len(parts) // 2, 8, 1):
            if k >= 1 and i + k <= len(parts) - 1 and same(''.join(parts[:i] + parts[i + k:])): parts = parts[:i] + parts[i + k:]; break
        else: i += 1
    head = ''.join(parts[:-1]); lines = parts[-1].rstrip('\n').split('\n')
    join = lambda ls: head + '\n'.join(ls) + '\n'
    def fixed(l): return l.startswith('prop ')
    n = max(1, len(lines) // 2)
    while n >= 1 and time.time() < deadline:
        i = 0; ch = False
        while i < len(lines):
            c = lines[:i] + [l for l in lines[i:i + n] if fixed(l)] + lines[i + n:]
            if len(c) < len(lines) and same(join(c)): lines = c; ch = True
            else: i += n
        n = n // 2 if not ch or n > 1 else n
        if n == 0: break
    def shrink_nums():
        for li in range(len(lines)):
            for m in list(re.finditer(r' ([\w]+)=(-?\d+)(?= |$)', lines[li])):
                key, val = m.group(1), int(m.group(2))
                if key in ('seed', 's', 'f', 'id', 'feed', 'kind') or abs(val) < 1: continue
                cands = []
                if key in ('u', 'unst', 'compat', 'cdl', 'flt', 'dflt', 'app', 'base') or key.startswith('u'): cands.append(None)
                cands += [0, 1, val // 8, val // 2, val - val // 8, val - 1]
                for c in cands:
                    if c is not None and (c >= val or c < 0): continue
                    cur = re.search(r' %s=(-?\d+)(?= |$)' % key, lines[li])
                    if not cur: break
                    new = lines[li][:cur.start()] + ('' if c is None else ' %s=%d' % (key, c)) + lines[li][cur.end():]
                    if c is not None and int(cur.group(1)) <= c: continue
                    ls = lines[:li] + [new] + lines[li + 1:]
                    if same(join(ls)): lines[li] = new; break
                if time.time() > deadline: return
            m = re.search(r' (sw|ops)=([^ ]+)', lines[li])  # explicit switch lists / op strings
            if m and ',' in m.group(2):
                it = m.group(2).split(','); n = max(1, len(it) // 2)
                while n >= 1 and time.time() < deadline:
                    i = 0
                    while i < len(it):
                        c = it[:i] + it[i + n:]
                        new = lines[li][:m.start(2)] + (','.join(c) or '-') + lines[li][m.end(2):]
                        if same(join(lines[:li] + [new] + lines[li + 1:])): it = c; lines[li] = new; m = re.search(r' (sw|ops)=([^ ]+)', new)
                        else: i += n
                    n //= 2
    for _ in range(2):
        if time.time() < deadline: shrink_nums()
    return join(lines)

def main():
    a = sys.argv[1:]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    if '--fingerprint' in a:
        json.dump(fingerprints(), open(BASE, 'w'), indent=0, sort_keys=True); return 0
    if '--setup' in a:
        build('asan'); build('cov'); build('plain'); print('setup ok'); return 0
    tmp = os.path.join(V, 'build', 'tmp.%d' % os.getpid()); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    try: return run(a, opt, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run(a, opt, tmp):
    kn = known_file(os.path.join(tmp, 'known')); known = os.path.join(tmp, 'known')
    if '--replay' in a:
        path = opt('--replay'); text = open(path).read(); prop = re.findall(r'(?m)^prop (\w+)', text)[-1]
        sm = Sim(build(variant_of(prop)), known); r = sm.execute(text, os.path.join(tmp, 'x'), extra=['--log', '1'])
        print(r[6][-6000:])
        if r[0]: print('HELD'); return 0
        print('VIOLATION property=%s replay=%s' % (prop, path)); print('  %s %s: %s' % (r[1], r[2], r[3])); return 1
    prop = a[0]; tier = opt('--tier', os.environ.get('VERIF_TIER') or 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or opt('--seed', '1'))
    secs = float(opt('--secs', '35' if tier == 'quick' else '1200'))
    t0 = time.time(); variant = variant_of(prop)
    sim = build(variant)
    fl = focus_list() if opt('--focus', '1') != '0' else []
    if fl: FOCUS[:] = ['--focus', ','.join(fl)]
    tb = time.time() - t0
    out = dict(viol=[], stats=[], err=[], died=0); stop = threading.Event()
    ts = [threading.Thread(target=worker, args=(sim, known, prop, seed, w, secs, tmp, out, stop, int(opt('--count', '1000000000')))) for w in range(WORKERS)]
    t1 = time.time()
    for t in ts: t.start()
    seen = None
    while any(t.is_alive() for t in ts):
        time.sleep(0.2)
        if out['viol'] and seen is None: seen = time.time()
        if seen and time.time() - seen > (6 if tier == 'quick' else 30): stop.set()
    search = time.time() - t1
    sm = Sim(sim, known); res = []
    # ---- determinism probe: the first runs again, in a fresh process, hash by hash
    def once(_):
        p = subprocess.run([sim, 'run', '--prop', prop, '--seed', str(seed), '--count', '8' if prop in GEN else '40', '--known', known, '--hashes', '1'] + FOCUS, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=ENV)
        return [l for l in p.stdout.splitlines() if l.startswith('H ')]
    with ThreadPoolExecutor(2) as ex: probe = list(ex.map(once, range(2)))
    deterministic = probe[0] == probe[1]
    if not deterministic and not out['viol']: die('two executions of the same runs differ: the simulation is not deterministic')
    # ---- confirm, minimise and write violations
    groups = {}
    for v in sorted(out['viol'], key=lambda v: v['idx']): groups.setdefault((v['key'], v['fn']), v)
    unconfirmed = []; nodet = []
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for (key, fn), v in list(groups.items())[:6]:
        x = os.path.join(tmp, 'x'); text = sm.gen(prop, seed, v['idx']); r = sm.execute(text, x)
        if r[0]:  # perhaps it needs what earlier runs of the same process left behind
            for k in (1, 4, 16, 64, 256, 1024, 4096):
                ids = list(range(max(v['start'], v['idx'] - k * WORKERS), v['idx'], WORKERS))
                big = ''.join(sm.gen(prop, seed, i) for i in ids[-300:]) + text
                r = sm.execute(big, x, timeout=300)
                if not r[0]: text = big; break
                if len(ids) < k or len(ids) >= 300: break
        if r[0] or r[5]: unconfirmed.append(v); continue
        sig = (r[1], r[2]); small = shrink(sm, text, sig, x, time.time() + (45 if not res else 15) * (1 if tier == 'quick' else 4))
        r1 = sm.execute(small, x); r2 = sm.execute(small, x)
        if r1[0] or r2[0] or (r1[1], r1[2]) != sig or (r1[1], r1[2], r1[4]) != (r2[1], r2[2], r2[4]):
            small = text; r1 = sm.execute(small, x); r2 = sm.execute(small, x)
        if r1[0] or r2[0] or (r1[1], r1[2]) != (r2[1], r2[2]): nodet.append(v); continue
        rp = os.path.join(V, 'replays', '%s-%s-%s.replay' % (prop, re.sub(r'\W', '_', r1[1]), re.sub(r'\W', '_', r1[2] or 'x')))
        open(rp, 'w').write('# property %s  violation %s  in %s\n# %s\n# seed %d run %d; minimised from %d to %d lines; outcome hash %s\n# replay: python3 check.py --replay %s\n' % (prop, r1[1], r1[2], r1[3], seed, v['idx'], text.count('\n'), small.count('\n'), r1[4], os.path.relpath(rp, V)) + small)
        res.append((rp, r1))
    # ---- evidence
    S = {}; tot = dict(runs=0, skipped=0, nontrivial=0, bars=0)
    for s in out['stats']:
        for k in tot: tot[k] += s[k]
        for k, n in s['counters'].items(): S[k] = max(S.get(k, 0), n) if k.startswith('max_') else S.get(k, 0) + n
    distinct = set(); cov = None
    for f in glob.glob(os.path.join(tmp, 'w*.hash')):
        d = open(f, 'rb').read(); distinct.update(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
    for f in glob.glob(os.path.join(tmp, 'w*.cov')):
        d = open(f, 'rb').read(); cov = d if cov is None or len(cov) != len(d) else bytes(x | y for x, y in zip(cov, d))
    rule = RULES.get(prop, ('scenario', 'it ran'))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 1), violations=len(res), coverage=dict(
        evaluations=tot['runs'], distinct_nontrivial=len(distinct),
        rule='One evaluation is one simulated run of a seeded scenario (%s). Non-trivial: %s. Distinct: by the hash of the whole recorded history (operations, return codes, delivered values).' % rule,
        samples=[sm.gen(prop, seed, i) for i in (0, 1)],
        skipped_runs=tot['skipped'], nontrivial_runs=tot['nontrivial'], runs_per_hour=int(tot['runs'] / max(search, .1) * 3600), seeds_per_hour=int(tot['runs'] / max(search, .1) * 3600),
        simulated_bars=tot['bars'], simulated_time='%d market bars (the library has no clock; a bar is one tick of simulated time)' % tot['bars'],
        faults_fired={k: n for k, n in sorted(S.items()) if k.startswith('fault.')}, probes={k: n for k, n in sorted(S.items()) if not k.startswith(('fault.', 'known.'))},
        known_findings_hit={k[6:]: n for k, n in sorted(S.items()) if k.startswith('known.')},
        edges_reached=sum(cov) if cov else 0, edges_total=len(cov) if cov else 0, search_s=round(search, 1), build_s=round(tb, 1), workers=WORKERS,
        change_directed=('three quarters of the runs drawn from functions whose source differs from the recorded one, and their callers: ' + ' '.join(sorted(set(fl)))) if fl else 'no function source differs from the recorded one: functions drawn evenly',
        determinism_probe='%d runs executed twice in fresh processes, hashes %s' % (len(probe[0]), 'identical' if deterministic else 'DIFFER'),
        real_components=['all of src/tools/gen_code and the tables it reads, compiled from the working tree', 'every template, header and source of the repository it reads'] if prop in GEN else ['all of src/ta_func, src/ta_common, src/ta_abstract, compiled from the working tree', 'glibc stdio buffering between the library and the simulated device'],
        stubbed_components=['the file system (an in-memory tree; every change is journalled)', 'mcpp and sed, javac and java (stand-ins that deliver a text that depends on their input)', 'malloc/calloc/realloc/free/strdup (simulated heap)', 'the process: a run is a forked child that can be killed at any operation'] if prop in GEN else ['malloc/calloc/realloc/free/strdup of the library (simulated heap)', 'file device (fopencookie)', 'TA_FunctionDescriptionXML data table (not part of any property)'] + (['threads (coroutines switched at library loads and stores)'] if prop in PREEMPT else [])),
        assumptions=['FILE* operations reach the device only through stdio', 'x86-64 IEEE-754 double arithmetic'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in kn.values():
        if k['property'] == prop: print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], ' (hit %d times in this run)' % S['known.' + k['id']] if 'known.' + k['id'] in S else ''))
    print('%s %s: %d runs (%d distinct non-trivial), %d bars, %.0f s, faults %s' % (prop, tier, tot['runs'], len(distinct), tot['bars'], time.time() - t0, {k[6:]: n for k, n in sorted(S.items()) if k.startswith('fault.')}))
    for rp, r in res:
        print('VIOLATION property=%s replay=%s' % (prop, rp)); print('  %s in %s: %s' % (r[1], r[2], r[3]))
    if res: return 1
    if nodet or unconfirmed: die('violation seen but not reproducible from its seed: %s' % (nodet or unconfirmed)[:2])
    if out['err']: die('; '.join(out['err'][:3]))
    if not out['stats'] or tot['runs'] == 0: die('no runs completed')
    return 0

if __name__ == '__main__': sys.exit(main())

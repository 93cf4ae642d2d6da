#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decides one property on /repo's working tree.

Exit 0: held on everything explored (evidence/ID.json says what that was).
Exit 1: 'VIOLATION property=ID replay=FILE' printed; FILE replays with
        check.py --replay FILE
"""
import hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT + '/mc')
import build as BLD
from jobs import JOBS, COMMON_ASSUMPTIONS
NS = max(2, min(16, os.cpu_count() or 8))
STALL = 60          # seconds without progress before an execution is suspected to hang
ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
           TSAN_OPTIONS='exitcode=98:halt_on_error=0:report_signal_unsafe=0', MALLOC_PERTURB_='165')

def read_cell(p):
    try:
        b = open(p, 'rb').read(); return struct.unpack('<Q', b[:8])[0], b[16:16 + struct.unpack('<I', b[8:12])[0]].decode('latin-1')
    except Exception: return 0, ''

class Shard:
    def __init__(s, binp, fam, tier, i, n, tmp, budget, extra):
        s.out = '%s/%s.%s.%d.json' % (tmp, os.path.basename(binp), hashlib.md5(fam.encode()).hexdigest()[:8], i); s.cell = s.out + '.cell'; s.err = s.out + '.err'
        s.cmd = [binp, '--family', fam, '--tier', tier, '--shard', '%d/%d' % (i, n), '--out', s.out, '--cell', s.cell, '--budget', str(budget)] + extra
        s.start()
    def start(s):
        for f in (s.out, s.cell):
            if os.path.exists(f): os.unlink(f)
        s.p = subprocess.Popen(s.cmd, stdout=open(s.err, 'w'), stderr=subprocess.STDOUT, env=ENV, cwd=os.path.dirname(s.out), start_new_session=True)
        s.last = (-1, time.time()); s.hung = False
    def poll(s, stall):
        rc = s.p.poll()
        if rc is not None: return rc
        c = read_cell(s.cell)[0]
        if c != s.last[0]: s.last = (c, time.time())
        elif time.time() - s.last[1] > stall:
            s.hung = True; os.killpg(s.p.pid, signal.SIGKILL); s.p.wait(); return -999
        return None
    def tail(s): return open(s.err, errors='replace').read()[-3000:]

def run_replay(binp, path, timeout, tmp):
    try:
        r = subprocess.run([binp, '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, cwd=tmp, start_new_session=True)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode(errors='replace')

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay_file(a[1])
    pid = a[0]; tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time(); limit = 820 if tier == 'quick' else 3300
    jobs = JOBS[pid]
    variants = {}
    for j in jobs['jobs']:
        if j.get('thorough_only') and tier != 'thorough': continue
        variants.setdefault(j.get('variant', 'rel'), set()).add(j['bin'])
    for v, names in sorted(variants.items()): BLD.build(v, sorted(names))
    tmp = tempfile.mkdtemp(prefix='mc.' + pid + '.'); os.chmod(tmp, 0o777)
    rdir = ROOT + '/build/replay'; os.makedirs(rdir, exist_ok=True)
    known = [k for k in json.load(open(ROOT + '/known_findings.json'))['known'] if k['property'] == pid]
    tot = dict(executions=0, states=0, transitions=0, evaluations=0, traces=0, skipped=0, dedup=0)
    counters, notes, samples, viol, knownhit = {}, [], [], [], {}; distinct = set(); dsum = 0; capped = False; fams = []
    def add_violation(key, text, body, binname, variant, kind):
        for k in known:
            if re.search(k['match'], key): knownhit.setdefault(k['match'], (k, 0)); knownhit[k['match']] = (k, knownhit[k['match']][1] + 1); return
        path = '%s/%s.%d.replay' % (rdir, pid, len(viol))
        open(path, 'w').write(json.dumps(dict(property=pid, bin=binname, variant=variant, kind=kind, body=body, key=key)) + '\n' + body + '\n')
        viol.append(dict(key=key, text=text[:6000], replay=path))
    try:
        for j in jobs['jobs']:
            if j.get('thorough_only') and tier != 'thorough': continue
            v = j.get('variant', 'rel'); binp = '%s/build/%s-mc/%s' % (ROOT, v, j['bin'])
            fam = j['families']; extra = j.get('args', []) + (j.get('thorough_args', []) if tier == 'thorough' else j.get('quick_args', []))
            left = limit - (time.time() - t0); n = j.get('shards', NS); fams.append(fam)
            stall = j.get('stall', STALL)
            sh = [Shard(binp, fam, tier, i, n, tmp, max(20, left * 0.6 if tier == 'quick' else left * 0.9), extra) for i in range(n)]
            live = list(sh); res = {}
            while live:
                for s in list(live):
                    rc = s.poll(stall)
                    if rc is not None: res[s] = rc; live.remove(s)
                if live: time.sleep(0.05)
            for s in sh:
                rc = res[s]
                if rc == 0:
                    d = json.load(open(s.out))
                    for k in tot: tot[k] += d[k]
                    for k, x in d['counters'].items(): counters[k] = counters.get(k, 0) + x
                    for x in d['notes']:
                        if x not in notes: notes.append(x)
                    samples += d['samples'][:2]; capped |= d['capped']
                    if os.path.exists(s.out + '.distinct'):
                        b = open(s.out + '.distinct', 'rb').read(); distinct.update((fam, x) for x in struct.unpack('<%dQ' % (len(b) // 8), b))
                    else: dsum += d['distinct']
                    for w in d['violations']:
                        if len(viol) >= 20: break
                        if any(re.search(k['match'], w['key']) for k in known): add_violation(w['key'], w['text'], w['replay'], j['bin'], v, 'mismatch'); continue
                        rp = tmp + '/r.txt'; open(rp, 'w').write(w['replay'])
                        r, o = run_replay(binp, rp, 240, tmp)
                        if r == 0:     # not reproducible alone: does the whole shard do it again?
                            s2 = Shard(binp, fam, tier, sh.index(s), n, tmp, 300, extra)
                            while s2.poll(stall) is None: time.sleep(0.05)
                            again = os.path.exists(s2.out) and any(x['key'] == w['key'] for x in json.load(open(s2.out))['violations'])
                            if not again: notes.append('unreproducible report dropped: ' + w['key'][:200]); continue
                            add_violation(w['key'], 'in sequence only: ' + ' '.join(s.cmd) + '\n' + w['text'], w['replay'], j['bin'], v, 'shard'); continue
                        add_violation(w['key'], w['text'], w['replay'], j['bin'], v, 'mismatch' if r == 3 else 'crash')
                    continue
                # crash or hang
                cnt, cell = read_cell(s.cell); rp = tmp + '/r.txt'; open(rp, 'w').write(cell)
                if rc == 64 or not cell: print('internal error: %s rc=%s\n%s' % (' '.join(s.cmd), rc, s.tail())); sys.exit(2)
                r, o = run_replay(binp, rp, 150 if not s.hung else 200, tmp)
                kind = 'hang' if s.hung else 'crash'; head = ' '.join(cell.split('\n')[:2])[:160]
                if r == 'timeout': add_violation('hang: ' + head, 'does not terminate\n' + cell + '\n' + o[-3000:], cell, j['bin'], v, 'hang')
                elif r not in (0,): add_violation(('crash: ' if r != 3 else 'mismatch: ') + head, 'exit status %s\n%s\n%s' % (r, cell, o[-4000:]), cell, j['bin'], v, 'crash')
                else:
                    s2 = Shard(binp, fam, tier, sh.index(s), n, tmp, 300, extra)
                    while True:
                        rc2 = s2.poll(150)
                        if rc2 is not None: break
                        time.sleep(0.05)
                    if rc2 == 0:
                        d = json.load(open(s2.out)); notes.append('shard %d of %s ended with %s once and completed when repeated' % (sh.index(s), fam, rc))
                        for k in tot: tot[k] += d[k]
                        if d['violations']: add_violation(d['violations'][0]['key'], d['violations'][0]['text'], d['violations'][0]['replay'], j['bin'], v, 'shard')
                    else: add_violation(kind + ' in sequence: ' + head, 'exit status %s then %s: %s\n%s\n%s' % (rc, rc2, ' '.join(s.cmd), cell, s2.tail()), cell, j['bin'], v, 'shard')
            if viol: break
        zero = not viol and not (tot['executions'] or tot['evaluations'])
        cov = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'], evaluations=tot['executions'] + tot['evaluations'],
                   distinct_nontrivial=len(distinct) + dsum, rule=jobs['rule'], samples=samples[:8], exhaustive=not capped, families=fams,
                   skipped_outside_model=tot['skipped'], merged_with_equal_state=tot['dedup'], counters=counters, notes=notes)
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov,
                  assumptions=COMMON_ASSUMPTIONS + jobs.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        tf = ROOT + '/evidence/.%s.tmp' % pid; json.dump(ev, open(tf, 'w'), indent=1); os.replace(tf, ROOT + '/evidence/%s.json' % pid)
        for k, (f, c) in knownhit.items(): print('KNOWN-FINDING: property=%s %s (%d reports)' % (pid, f['what'], c))
        print('%s %s: %d executions, %d states, %d transitions, %d distinct, %d skipped, %.1f s%s' % (pid, tier, tot['executions'] + tot['evaluations'], tot['states'], tot['transitions'], len(distinct) + dsum, tot['skipped'], time.time() - t0, ' CAPPED' if capped else ''))
        if zero: print('internal error: nothing was explored'); sys.exit(2)
        for x in viol[:5]: print('--- ' + x['key'][:600] + '\n' + x['text'][:3500])
        for x in viol[:5]: print('VIOLATION property=%s replay=%s' % (pid, x['replay']))
        sys.exit(1 if viol else 0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def replay_file(p):
    d = json.loads(open(p).readline()); BLD.build(d['variant'], [d['bin']]); tmp = tempfile.mkdtemp(prefix='mc.replay.')
    try:
        rp = tmp + '/r.txt'; open(rp, 'w').write(d['body']); r, o = run_replay('%s/build/%s-mc/%s' % (ROOT, d['variant'], d['bin']), rp, 300, tmp); print(o); print('replay exit:', r)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(0 if r == 0 else 1)
if __name__ == '__main__': main()

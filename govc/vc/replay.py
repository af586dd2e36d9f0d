"""Builds the in-package replay engine over /repo (go test -overlay) and runs it in parallel parts."""
import glob
import json
import os
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'


def goenv():
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOENV='off', GOTOOLCHAIN='local',
             GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME='/root', GOPATH='/root/go',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
    return e


def build(work, race=False):
    """(path, error text)"""
    rep = {}
    for f in sorted(glob.glob(VERIF + '/harness/*_test.go')):
        rep[REPO + '/' + os.path.basename(f)] = f
    ov = work + '/overlay.json'
    json.dump({'Replace': rep}, open(ov, 'w'))
    out = work + ('/engine_race' if race else '/engine')
    p = subprocess.run(['go', 'test', '-c', '-vet=off'] + (['-race'] if race else []) +
                       ['-overlay', ov, '-o', out, '.'], cwd=REPO, env=goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout
    return out, ''


class Run:
    def __init__(self):
        self.cases = self.steps = self.distinct = self.maxh = 0
        self.counts = {}
        self.sample = None
        self.fail = None        # (message, replay dict)
        self.wall = 0.0
        self.parts = 0
        self.notes = []


def run(binary, work, prop, ms, seed, parts=None, race=False, extra=None, limit=None):
    parts = parts or os.cpu_count() or 8
    r = Run()
    t0 = time.time()
    procs = []
    for i in range(parts):
        b = '%s/%s_%d' % (work, prop, i)
        e = goenv()
        e.update(VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_PART=str(i), VERIF_PARTS=str(parts),
                 VERIF_BUDGET_MS=str(ms), VERIF_OUT=b + '.out', VERIF_SUMMARY=b + '.sum', VERIF_CUR=b + '.cur',
                 GORACE='exitcode=66 halt_on_error=1', GOTRACEBACK='all')
        e.update(extra or {})
        log = open(b + '.log', 'w')
        procs.append((b, log, subprocess.Popen([binary, '-test.run', '^TestVerif$', '-test.timeout', '0'], cwd=work,
                                               env=e, stdout=log, stderr=subprocess.STDOUT)))
    end = time.time() + (limit or (ms / 1000.0 * 2 + 90))
    for b, log, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        log.close()
        txt = open(b + '.log', errors='replace').read()
        if os.path.exists(b + '.sum'):
            try:
                s = json.load(open(b + '.sum'))
                r.parts += 1
                r.cases += s.get('cases', 0)
                r.steps += s.get('steps', 0)
                r.distinct += s.get('distinct', 0)
                r.maxh = max(r.maxh, s.get('max_height', 0))
                for k, v in (s.get('counts') or {}).items():
                    r.counts[k] = r.counts.get(k, 0) + v
                r.sample = r.sample or s.get('sample')
            except ValueError:
                pass
        if rc == 0:
            continue
        if rc == 'timeout':
            r.notes.append('part killed after its time limit')
            continue
        if r.fail:
            continue
        rep = None
        for f in (b + '.out', b + '.cur'):
            if os.path.exists(f):
                try:
                    rep = json.load(open(f))
                    break
                except ValueError:
                    pass
        msg = [l for l in txt.split('\n') if 'VERIF-FAIL' in l or 'DATA RACE' in l or l.startswith('panic:') or
               l.startswith('fatal error:')]
        if not msg and rep is None:
            r.notes.append('part exited %s: %s' % (rc, txt[-300:]))
            continue
        if not msg:
            msg = ['exit status %s' % rc]
        rep = rep or {}
        rep.setdefault('property', prop)
        rep['message'] = msg[0][:2000]
        rep['output'] = txt[:8000]
        rep['race'] = race
        r.fail = (msg[0][:400], rep)
    r.wall = time.time() - t0
    return r

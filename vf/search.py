"""Bounded search over the real code: 8 harness processes, crashes and hangs included."""
import json, os, resource, signal, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EXE = os.path.join(VERIF, 'harness/target/release/harness')
WORKERS = 8
STALL = 10.0
# for these, input on which the code does not return says nothing
SILENT = ('C06', 'C08', 'C10')


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(path, times=200, timeout=60):
    """None: held; otherwise what happened"""
    try:
        p = subprocess.run([EXE, 'replay', path, str(times)], capture_output=True, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return 'no result after %d s' % timeout
    if p.returncode == 0:
        return None
    if p.returncode == 1:
        return p.stdout.strip()
    return 'the process died (%s)' % (signal.Signals(-p.returncode).name if p.returncode < 0 else p.returncode)


class Search:
    def __init__(self, prop, seed, budget, work):
        self.prop, self.seed, self.budget, self.work = prop, seed, budget, work
        self.t0 = time.time()
        self.procs = []
        for w in range(WORKERS):
            self.procs.append(self.spawn(w, seed, budget))
        self.stats = dict(evaluations=0, held=0, distinct=0, tiny_complete=True, samples=[], workers=WORKERS)
        self.fail = None

    def spawn(self, w, seed, budget):
        cur, out = os.path.join(self.work, 'cur%d' % w), os.path.join(self.work, 'out%d' % w)
        for f in (cur, out):
            if os.path.exists(f): os.unlink(f)
        log = open(os.path.join(self.work, 'log%d' % w), 'w+')
        p = subprocess.Popen([EXE, 'search', self.prop, str(seed), str(w), str(WORKERS), str(budget), cur, out], stdout=log, stderr=subprocess.DEVNULL, preexec_fn=limits)
        return dict(p=p, w=w, cur=cur, out=out, log=log, last=None, at=time.time(), done=False)

    def case(self, s):
        try: return open(s['cur']).read().rstrip('\n') + '\n'
        except OSError: return ''

    def stop(self):
        for s in self.procs:
            if s['p'].poll() is None:
                s['p'].kill(); s['p'].wait()

    def abnormal(self, s, what):
        """the worker died or stalled on a case: is it the code under test?"""
        text = self.case(s)
        s['done'] = True
        self.stats['tiny_complete'] = False
        if not text.strip():
            return
        if self.prop not in SILENT:
            f = os.path.join(self.work, 'suspect%d' % s['w'])
            open(f, 'w').write('\n'.join(l for l in text.splitlines() if not l.startswith('# ')) + '\n')
            e = replay(f, 3)
            if e:
                self.fail = (open(f).read(), e)
                return
        self.stats['abnormal'] = self.stats.get('abnormal', 0) + 1
        left = self.budget - (time.time() - self.t0)
        if left > 2 and self.stats['abnormal'] < 40:
            self.procs[s['w']] = self.spawn(s['w'], self.seed + 7919 * self.stats['abnormal'], left)

    def poll(self):
        """one round; True while something runs and nothing failed"""
        alive = False
        for s in list(self.procs):
            if self.fail: return False
            if s['done']: continue
            rc = s['p'].poll()
            if rc is None:
                alive = True
                try: head = open(s['cur']).readline()
                except OSError: head = ''
                if head != s['last']:
                    s['last'], s['at'] = head, time.time()
                elif time.time() - s['at'] > STALL and time.time() - self.t0 < self.budget + 30:
                    s['p'].kill(); s['p'].wait()
                    self.abnormal(s, 'stalled')
                elif time.time() - self.t0 > self.budget + 60:
                    s['p'].kill(); s['p'].wait(); s['done'] = True
                continue
            if rc in (0, 1):
                s['done'] = True
                s['log'].seek(0)
                try:
                    j = json.loads(s['log'].read())
                    for k in ('evaluations', 'held', 'distinct'): self.stats[k] += j[k]
                    self.stats['tiny_complete'] &= j['tiny_complete']
                    self.stats['samples'] = (self.stats['samples'] + j['samples'])[:6]
                except ValueError:
                    pass
                if rc == 1 and not self.fail:
                    self.fail = (open(s['out']).read(), '')
            else:
                self.abnormal(s, 'died')
                if self.procs[s['w']] is not s: alive = True
            if self.fail: return False
        return alive

    def run(self, until=None):
        while self.poll():
            if until and until(): break
            time.sleep(0.05)
        self.stop()
        self.stats['seconds'] = round(time.time() - self.t0, 1)
        return self.fail

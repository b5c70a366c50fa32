"""Common machinery of the checks: builds a harness from /repo's working tree (through an
overlay, nothing is written to /repo), runs it, lets TLC judge what it recorded, reports.

Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 error of the check itself.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar'
MOD = 'github.com/npillmayer/uax'


class CheckError(Exception):
    """The check cannot give an answer."""


def known_findings(pid):
    """Returns {key: text} of the recorded findings of a property (not the fixed ones)."""
    d = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', line.strip())
            if m and m.group(1) == pid:
                d[m.group(2)] = m.group(3)
    return d


class Check:
    def __init__(self, pid, tier, level='model_checking'):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED') or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.bad = []          # (key, observation, expected)
        self.assumptions = []
        self.notes = []
        self.nbin = 0
        self.models = []       # (name, states) of model checking runs
        self.extra = {}
        self.overlay = {}

    # ---- building and running the real code --------------------------------------------
    def build(self, comp, race=False, extra=None, optional=False, quiet=False):
        """Builds /verif/harness/<comp> as a command inside of /repo's module."""
        rep = {}
        for c in {comp, 'hlib'}:
            d = os.path.join(VERIF, 'harness', c)
            for f in sorted(os.listdir(d)):
                if f.endswith('.go'):
                    rep['%s/internal/zzverif/%s/%s' % (REPO, c, f)] = os.path.join(d, f)
        rep.update(extra or {})
        ov = os.path.join(self.dir, 'ov-%s.json' % comp)
        with open(ov, 'w') as f:
            json.dump({'Replace': rep}, f)
        self.nbin += 1
        out = os.path.join(self.dir, 'bin%d' % self.nbin)
        env = self.goenv()
        cmd = ['go', 'build', '-overlay', ov, '-o', out]
        if race:
            cmd.append('-race')
        cmd.append('%s/internal/zzverif/%s' % (MOD, comp))
        p = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            if optional:
                return None
            raise CheckError('harness %s does not build:\n%s' % (comp, p.stderr[-3000:]))
        return out

    def tool(self, pkg):
        """Builds a command of the repository."""
        self.nbin += 1
        out = os.path.join(self.dir, 'tool%d' % self.nbin)
        p = subprocess.run(['go', 'build', '-o', out, './' + pkg], cwd=REPO, env=self.goenv(),
                           capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError('%s does not build:\n%s' % (pkg, p.stderr[-3000:]))
        return out

    def goenv(self):
        env = dict(os.environ)
        env.setdefault('HOME', '/root')
        env['PATH'] = '/usr/local/go/bin:' + env.get('PATH', '/usr/bin:/bin')
        env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off',
                   LANG='C.UTF-8', LC_ALL='C.UTF-8')
        return env

    def run(self, binary, env=None, timeout=300, args=(), what='', mem_gb=12):
        """Runs a harness; returns the path of its observations. A crash or a hang of the
        real code is a violation; the harness notes the input it is working on in $CUR."""
        self.nbin += 1
        obs = os.path.join(self.dir, 'obs%d.ndjson' % self.nbin)
        cur = os.path.join(self.dir, 'cur%d' % self.nbin)
        e = self.goenv()
        e.update(OBS=obs, CUR=cur, VERIF_DATA=os.path.join(VERIF, 'data'),
                 VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        e.update({k: str(v) for k, v in (env or {}).items()})

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        lim = None if mem_gb == 0 else limit
        try:
            p = subprocess.run([binary] + list(args), env=e, capture_output=True, text=True,
                               errors='replace', timeout=timeout, preexec_fn=lim, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise CheckError('harness did not finish within %d s' % timeout)
        self.stderr = p.stderr
        if p.returncode == 0:
            return obs
        c = ''
        if os.path.exists(cur):
            c = open(cur, errors="replace").read().split("\0")[0].strip()
        if p.returncode == 5 and c:     # watchdog
            self.violation(c, {'input': c, 'hang': True}, 'an answer within the time limit')
            return obs
        if p.returncode == 66 and 'DATA RACE' in p.stderr:
            self.violation('race', {'race': p.stderr[:4000]}, 'no data race')
            return obs
        if p.returncode == 2 and c and re.search(r'^(panic|fatal error):', p.stderr, re.M):
            self.violation(c, {'input': c, 'crash': p.stderr[:3000]}, 'no panic')
            return obs
        if p.returncode == 2 and self.in_repo(p.stderr):
            self.violation('crash', {'crash': p.stderr[:3000]}, 'no panic')
            return obs
        raise CheckError('harness failed (%d) %s:\n%s' % (p.returncode, what, p.stderr[-3000:]))

    @staticmethod
    def in_repo(trace):
        """True if a panic happened in the code of the repository (and not in a harness)."""
        if not re.search(r'^(panic|fatal error):', trace, re.M):
            return False
        for m in re.finditer(r'^\t(\S+\.go):\d+', trace, re.M):
            if m.group(1).startswith(REPO + '/'):
                return '/zzverif/' not in m.group(1)
        return False

    def cat(self, files):
        """Puts observation files together."""
        out = os.path.join(self.dir, 'cat%d.ndjson' % self.nbin)
        with open(out, 'wb') as o:
            for f in files:
                with open(f, 'rb') as i:
                    shutil.copyfileobj(i, o)
        return out

    # ---- TLC -----------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=600, workers=8, heap='6g', args=()):
        self.nbin += 1
        meta = os.path.join(self.dir, 'meta%d' % self.nbin)
        spec = os.path.join(VERIF, 'spec')
        cfg = cfg or module + '.cfg'
        if not os.path.isabs(cfg):
            cfg = os.path.join(spec, cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cp = ':'.join([JAR] + [os.path.join(os.path.dirname(JAR), f)
                               for f in sorted(os.listdir(os.path.dirname(JAR)))
                               if f.endswith('.jar') and f != os.path.basename(JAR)])
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + self.dir, '-cp', cp, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-config', cfg, '-noGenerateSpecTE']
        cmd += list(args) + [os.path.join(spec, module + '.tla')]
        try:
            p = subprocess.run(cmd, env=e, cwd=spec, capture_output=True, text=True,
                               errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC did not finish %s within %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', p.stdout)
        if not m:
            raise CheckError('TLC on %s: no result\n%s\n%s' % (module, p.stdout[-3000:], p.stderr[-1000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        return p.returncode, gen, dist, p.stdout

    def model(self, module, cfg=None, env=None, timeout=600, min_states=2, **kw):
        """Model checks a specification. A failure is an error of the specification."""
        rc, gen, dist, out = self.tlc(module, cfg, env, timeout, **kw)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('specification %s (%s) fails:\n%s' % (module, cfg, out[-3000:]))
        if dist < min_states:
            raise CheckError('specification %s (%s): just %d states' % (module, cfg, dist))
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'config': cfg or module + '.cfg', 'distinct_states': dist})
        return out

    def pieces(self, obsfile, size=60 << 20):
        """Splits a file of observations into parts TLC has enough memory for."""
        if os.path.getsize(obsfile) <= size:
            yield 0, obsfile
            return
        with open(obsfile) as f:
            off, line = 0, f.readline()
            while line:
                piece = os.path.join(self.dir, 'piece.ndjson')
                k = b = 0
                with open(piece, 'w') as o:
                    while line and b < size:
                        o.write(line)
                        k += 1
                        b += len(line)
                        line = f.readline()
                yield off, piece
                off += k

    def judge(self, module, obsfile, cfg=None, env=None, timeout=800, min_obs=1, key=None, nsample=3, **kw):
        """Lets TLC judge recorded observations; collects those which do not conform."""
        n = 0
        with open(obsfile) as f:
            for line in f:
                n += 1
                if n in (1, 2) or n % 9973 == 0:
                    if len(self.samples) < 12 and len(line) < 1500:
                        self.samples.append(json.loads(line))
        if n < min_obs:
            if self.bad:
                return []
            raise CheckError('just %d observations of at least %d' % (n, min_obs))
        whys = {}
        left = timeout
        for off, piece in self.pieces(obsfile):
            began = time.time()
            e = {'OBS': piece}
            e.update(env or {})
            rc, gen, dist, out = self.tlc(module, cfg, e, left, **kw)
            if rc != 0 or 'No error has been found' not in out:
                raise CheckError('TLC cannot judge with %s:\n%s' % (module, out[-3000:]))
            judged = sum(int(x) for x in re.findall(r'JUDGED (\d+)', out))
            with open(piece) as f:
                n -= judged
                if judged != sum(1 for _ in f):
                    raise CheckError('%s: %d observations judged of a part\n%s' % (module, judged, out[-2000:]))
            self.states += dist
            self.transitions += gen
            self.traces += judged
            for i, why in re.findall(r'BAD (\d+) expected (.*)', out):
                whys[off + int(i)] = why.rstrip('"').replace('\\"', '"')
            if piece != obsfile:
                os.remove(piece)
            left = max(30, left - (time.time() - began))
        if n != 0:
            raise CheckError('%s: %d observations have not been judged' % (module, n))
        bad = whys
        res = []
        if bad:
            with open(obsfile) as f:
                for i, line in enumerate(f, 1):
                    if i in bad:
                        o = json.loads(line)
                        k = (key(o) if key else o.get('k')) or line.strip()
                        self.violation(k, o, bad[i])
                        res.append(o)
        return res

    def ranges(self, obsfile, data, free, lo=1, hi=0x10ffff):
        """Lets TLC compare ranges [lo, hi, class] recorded from the Go code with a table."""
        table = os.path.join(self.dir, 'table-' + data)
        with open(os.path.join(VERIF, 'data', data)) as f, open(table, 'w') as o:
            for line in f:
                a, b, k = line.split()
                o.write('[%s,%s,"%s"]\n' % (a, b, k))
        n, nxt = 0, lo
        with open(obsfile) as f:
            for line in f:
                a, b, _ = json.loads(line)
                if nxt == 0xd800:
                    nxt = 0xe000
                if a != nxt:
                    raise CheckError('%s: code point %X is missing' % (obsfile, nxt))
                nxt = b + 1
        if nxt != hi + 1:
            raise CheckError('code points from %X on are missing' % nxt)
        self.judge('RangesTrace', obsfile, env={'TABLE': table, 'FREE': 1 if free else 0},
                   key=lambda o: '%04X..%04X %s' % tuple(o))
        self.extra['code_points_judged'] = self.extra.get('code_points_judged', 0) + hi + 1 - lo

    def tables(self, names):
        """One JSON object of tables [[lo, hi, class]..] out of the data, classes renamed."""
        out = os.path.join(self.dir, 'tables.json')
        r = {}
        for k, (data, ren) in names.items():
            with open(os.path.join(VERIF, 'data', data)) as f:
                r[k] = [[int(a), int(b), ren.get(x, x)] for a, b, x in map(str.split, f)]
        with open(out, 'w') as o:
            json.dump(r, o)
        return out

    # ---- verdict ---------------------------------------------------------------------------
    def violation(self, key, observed, expected):
        self.bad.append((str(key), observed, expected))

    def finish(self):
        known = known_findings(self.pid)
        new, seen = [], {}
        for k, o, e in self.bad:
            if k in known:
                seen.setdefault(k, (o, e))
            else:
                new.append((k, o, e))
        for k in seen:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[k], k))
        rdir = os.path.join(VERIF, 'replay')
        viol = []
        new.sort(key=lambda x: len(x[0]))
        for i, (k, o, e) in enumerate(new[:5]):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d.json' % (self.pid, i))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': k, 'observed': o, 'expected_by_specification': e,
                           'seed': self.seed, 'tier': self.tier,
                           'again': 'VERIF_SEED=%d python3 /verif/check.py %s %s' % (self.seed, self.pid, self.tier)},
                          f, indent=1, ensure_ascii=False)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  observed %s' % json.dumps(o, ensure_ascii=False)[:600])
            print('  expected %s' % str(e)[:600])
            viol.append({'key': k[:300], 'expected': str(e)[:300]})
        if len(new) > 5:
            print('  ... and %d more' % (len(new) - 5))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': dict({'states': self.states, 'transitions': self.transitions,
                                'traces_validated_against_impl': self.traces,
                                'models': self.models, 'samples': self.samples[:12]}, **self.extra),
              'wall_s': round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        ev['violations'] = len(new)
        if viol:
            ev['coverage']['violating'] = viol
        ev['coverage']['known_findings_seen'] = len(seen)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print('%s %s: %d states, %d transitions, %d observations judged, %d violations, %.1f s' %
              (self.pid, self.tier, self.states, self.transitions, self.traces, len(new), time.time() - self.t0))
        return 1 if new else 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

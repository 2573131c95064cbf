#!/usr/bin/env python3
"""Decide one property: check.py <ID>   (VERIF_TIER, VERIF_SEED from the environment)

1. build the harness against /repo's working tree (with and without `memchr`);
2. run the TLC model checks of the specification that belong to the property;
3. record traces of the real code (or replay behaviours generated from the
   specification) and let TLC validate them against the specification.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: no answer.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
from props import PROPS

SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CHUNK = 6000
CHUNK_BYTES = 1200000
NCPU = max(2, min(8, os.cpu_count() or 8))


class NoAnswer(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'):
        e.pop(k, None)
    return e


CONFIGS = {'std': ['--features', 'std'], 'memchr': ['--features', 'std,memchr'], 'core': [],
           # reports coverage to the search for inputs; see harness/covrt
           'cov': ['--features', 'cov']}


def build(config):
    tgt = os.path.join(ROOT, 'harness', 'target', config)
    env, prof = cargo_env(), 'release'
    if config == 'cov':
        env['RUSTC_WRAPPER'] = os.path.join(ROOT, 'bin', 'covrustc.sh')
        prof = 'cov'
    cmd = ['cargo', 'build', '--profile', prof, '--offline', '--locked', '--quiet', '--no-default-features',
           '--target-dir', tgt] + CONFIGS[config]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-1500:])
        raise NoAnswer('harness does not build (%s)' % config)
    return os.path.join(tgt, prof, 'harness')


def build_all(configs):
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(configs, ex.map(build, configs)))


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, meta, out, env=None, workers=1, heap='3g', timeout=780, extra=()):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e['JDK_JAVA_OPTIONS'] = '-Xss%s -Xmx%s -XX:+UseSerialGC' % ('900m' if workers == 1 else '400m', heap)
    if env:
        e.update(env)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    with open(out, 'w') as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc


def tail(path, n=2500):
    with open(path, errors='replace') as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - n))
        return f.read()


def stats(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


RESOURCE = ('OutOfMemory', 'StackOverflow', 'java.io.IOException', 'No space left', 'Killed')


def weight(line):
    return 1 + len(json.loads(line)['steps']) if '"steps":[' in line else 1


def validate_chunk(path, lines, work, tag, module='Trace', cfg='Trace.cfg'):
    """Returns (accepted, rejected index or None, reason, (generated, distinct))."""
    out = os.path.join(work, 'o_' + tag)
    rc = tlc(module + '.tla', cfg, os.path.join(work, 'm_' + tag), out, {'TRACE': path})
    text = tail(out, 6000)
    st = stats(text)
    m = re.search(r'The depth of the complete state graph search is (\d+)', text)
    n = len(lines)
    if m:
        # transitions taken; a history event takes one transition per step and one to start
        d = int(m.group(1)) - 1
        ws = [weight(line) for line in lines]
        if sum(ws) > 60000:
            raise NoAnswer('more steps than TLC counts levels in ' + tag)
        for k, w in enumerate(ws):
            if d < w:
                return k, k, 'the specification does not allow this event' + (' at step %d' % d if w > 1 else ''), st
            d -= w
        if d == 0 and rc == 0:
            return n, None, '', st
    if rc == -1:
        raise NoAnswer('TLC timed out on ' + tag)
    full = open(out, errors='replace').read()
    if any(x in full for x in RESOURCE):
        raise NoAnswer('TLC ran out of resources on %s: %s' % (tag, text[-600:]))
    m = re.findall(r'^(?:/\\ )?l = (\d+)', full, re.M)
    if m and ('Error' in full):
        d = int(m[-1]) - 1
        if 0 <= d < n:
            return d, d, 'the specification is undefined on this event (%s)' % text[-300:].replace('\n', ' '), st
    raise NoAnswer('TLC failed on %s: %s' % (tag, text[-900:]))


# ---------------------------------------------------------------- known findings
def known(prop):
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) event=(\{.*\}) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                res.append((json.loads(m.group(2)), m.group(3)))
    return res


def is_known(ev, findings):
    for pat, what in findings:
        if all(ev.get(k) == v for k, v in pat.items()):
            return what
    return None


# ---------------------------------------------------------------- pretty printing
def is_text(v):
    return isinstance(v, list) and v and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 0x110000 for x in v)


def pretty(v):
    if is_text(v):
        return ''.join(chr(x) if not 0xD800 <= x < 0xE000 else '?' for x in v)
    if isinstance(v, list):
        return [pretty(x) for x in v]
    if isinstance(v, dict):
        return {k: pretty(x) for k, x in v.items()}
    return v


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.conf = PROPS[prop]
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.work = os.path.join(ROOT, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.evdir = os.path.join(ROOT, 'evidence')
        os.makedirs(self.evdir, exist_ok=True)
        for f in os.listdir(self.evdir):
            if f.startswith('replay-%s' % prop):
                os.unlink(os.path.join(self.evdir, f))
        self.edges = []
        self.violations = []          # (what, replay dict)
        self.known_hits = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[], recorded={})
        self.findings = known(prop)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- specification-level model checking
    def model(self, module, cfg, workers, minstates, emit=False):
        tag = 'model_' + cfg.replace('.cfg', '')
        out = os.path.join(self.work, 'o_' + tag)
        t = time.time()
        rc = tlc(module + '.tla', cfg, os.path.join(self.work, 'm_' + tag), out, workers=workers, heap='6g',
                 timeout=720 if self.tier == 'quick' else 7200)
        text = tail(out, 8000)
        gen, dist = stats(text)
        if rc != 0 or 'No error has been found' not in text:
            raise NoAnswer('the specification itself fails its model check %s: %s' % (cfg, text[-1500:]))
        if dist < minstates:
            raise NoAnswer('model check %s explored only %d states' % (cfg, dist))
        if emit:
            dst = os.path.join(self.work, 'edges_%s.ndjson' % cfg.replace('.cfg', ''))
            n = 0
            with open(dst, 'w') as f:
                for line in open(out):
                    if line.startswith('"{'):
                        f.write(json.loads(line) + '\n')
                        n += 1
            os.unlink(out)
            if n:
                self.edges.append((module, dst, n, cfg.replace('.cfg', '')))
            self.log(cfg, 'emitted', n, 'transitions to replay')
        self.cov['models'].append(dict(module=module, cfg=cfg, generated=gen, distinct=dist, wall_s=round(time.time() - t, 1)))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.log('model', cfg, gen, 'generated', dist, 'distinct, %.1fs' % (time.time() - t))

    # -- recording
    def record(self, exe, config, args, sub):
        d = os.path.join(self.work, sub)
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([exe] + args(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=700 if self.tier == 'quick' else 6000)
        self.log(config, 'recorder:', p.stdout.strip()[-400:])
        for line in p.stdout.splitlines():
            if line.startswith('HANG '):
                self.violations.append(('%s build: the call does not return: %s' % (config, line[5:]), {'hang': line[5:], 'config': config}))
                return d, None
            if line.startswith('DIFF '):
                ev = json.loads(line[5:])
                self.reject(ev, ev.pop('why', 'differs from the specification'), config)
        m = re.search(r'^SUMMARY (\{.*\})$', p.stdout, re.M)
        if p.returncode != 0 or not m:
            if p.returncode < 0 or p.returncode in (134, 139):
                cur = ''
                self.violations.append(('%s build: the process died (status %d) %s' % (config, p.returncode, p.stdout[-500:]), {'died': p.returncode, 'config': config}))
                return d, None
            raise NoAnswer('recorder failed (%d): %s' % (p.returncode, p.stdout[-2000:]))
        return d, json.loads(m.group(1))

    # -- searching for inputs that make the code do something new; the specification judges what is found
    def hunt(self, exe, auto):
        c = self.conf
        shards = []
        for k in range(NCPU):
            # grammar words and calls share the shards where a property has both
            words = auto and (not c.get('record', True) or k % 2)
            d = os.path.join(self.work, 'hunt_%d' % k)
            os.makedirs(d)
            shards.append((k, d, bool(words)))

        def one(x):
            k, d, words = x
            try:
                p = subprocess.run([exe, 'hunt', self.prop, self.tier, str(self.seed), d, str(k)] + ([auto] if words else []),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                                   timeout=150 if self.tier == 'quick' else 1500)
            except subprocess.TimeoutExpired:
                return x, None
            return x, p

        dirs, tot = [], {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (k, d, words), p in ex.map(one, shards):
                if p is None:
                    self.log('search', k, 'ran out of time')
                    continue
                m = re.search(r'^SUMMARY (\{.*\})$', p.stdout, re.M)
                for line in p.stdout.splitlines():
                    if line.startswith('HANG '):
                        self.violations.append(('the call does not return: %s' % line[5:], {'hang': line[5:], 'config': 'cov'}))
                    elif line.startswith('DIFF '):
                        ev = json.loads(line[5:])
                        self.reject(ev, ev.pop('why'), 'cov')
                    elif line.startswith('WORDS '):
                        for a, b in json.loads(line[6:]).items():
                            tot[a] = tot.get(a, 0) + b
                    elif line.startswith('SEARCH '):
                        if k == 0:
                            self.log(line)
                        for a, b in re.findall(r'(runs|features|edges|corpus|kept) (\d+)', line):
                            tot[a] = max(tot.get(a, 0), int(b)) if a in ('edges', 'features') else tot.get(a, 0) + int(b)
                if p.returncode in (-6, -11, 134, 139):
                    self.violations.append(('the process died (status %d) in the search %s' % (p.returncode, p.stdout[-300:]), {'died': p.returncode, 'shard': k, 'config': 'cov'}))
                elif m and not words:
                    dirs.append(('cov', d))
                elif not m:
                    self.log('search', k, 'ended with', p.returncode, p.stdout[-300:])
        self.cov['recorded']['search'] = tot
        self.cov['traces_validated_against_impl'] += tot.get('words', 0)
        self.log('search over all shards:', tot)
        return dirs

    def reject(self, ev, why, config):
        w = is_known(ev, self.findings)
        if w:
            self.known_hits.append(w)
        else:
            self.violations.append((why, {'config': config, 'event': ev}))

    def validate(self, dirs, module='Trace', cfg='Trace.cfg'):
        """dirs: list of (config, directory).  Validates every trace line; identical files once."""
        files, seen = [], {}
        for config, d in dirs:
            for f in sorted(os.listdir(d)):
                if not f.endswith('.ndjson'):
                    continue
                p = os.path.join(d, f)
                h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
                if h in seen:
                    continue
                seen[h] = p
                files.append((config, p))
        jobs = []
        for config, p in files:
            lines = open(p).read().splitlines()
            i = 0
            while i < len(lines):
                k, size = i, 0
                while k < len(lines) and k - i < CHUNK and size < CHUNK_BYTES:
                    size += len(lines[k])
                    k += 1
                jobs.append((size, config, lines[i:k], len(jobs)))
                i = k
        # the big ones first, so that the cores finish together
        jobs.sort(key=lambda j: -j[0])

        def job(j):
            _, config, lines, k = j
            acc, g, dd = 0, 0, 0
            rej = []
            rest = lines
            while True:
                path = os.path.join(self.work, 'c%d.ndjson' % k)
                with open(path, 'w') as f:
                    f.write('\n'.join(rest) + '\n')
                a, bad, why, st = validate_chunk(path, rest, self.work, '%s_%d' % (module, k), module, cfg)
                acc += a
                g += st[0]
                dd += st[1]
                if bad is None:
                    break
                ev = json.loads(rest[bad])
                rej.append((ev, why))
                if not is_known(ev, self.findings):
                    break
                rest = rest[bad + 1:]
                if not rest:
                    break
            os.unlink(path)
            return config, acc, rej, g, dd, len(lines)

        total = acc = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for config, a, rej, g, dd, n in ex.map(job, jobs):
                total += n
                acc += a
                self.cov['states'] += dd
                self.cov['transitions'] += g
                for ev, why in rej:
                    self.reject(ev, why, config)
        self.cov['traces_validated_against_impl'] += acc
        self.log('validated %d of %d events in %d TLC runs' % (acc, total, len(jobs)))
        if files:
            lines = open(files[0][1]).read().splitlines()
            for k in range(3):
                if lines:
                    ev = json.loads(lines[(k * 7919 + 13) % len(lines)])
                    self.cov['samples'].append(pretty(ev))

    # -- the same events from every build (the specification does not know of builds)
    def agree(self, runs):
        """runs: list of (config, directory); compares the recorded events pairwise with the first."""
        (c0, d0), n = runs[0], 0
        for c, d in runs[1:]:
            for f in sorted(x for x in os.listdir(d0) if x.endswith('.ndjson')):
                with open(os.path.join(d0, f)) as a, open(os.path.join(d, f)) as b:
                    while True:
                        x, y = a.readline(), b.readline()
                        n += 1
                        if x != y:
                            ev = dict(first=json.loads(x or 'null'), second=json.loads(y or 'null'))
                            self.reject(ev, 'the builds %s and %s differ' % (c0, c), c0 + '/' + c)
                            break
                        if not x:
                            break
        return n

    def compare_builds(self, exes):
        def one(p):
            runs = []
            for config in ('std', 'memchr'):
                d = os.path.join(self.work, 'cmp_%s_%s' % (p, config))
                os.makedirs(d)
                subprocess.run([exes[config], 'rec', p, self.tier, str(self.seed + 1000), d, '1'], stdout=subprocess.DEVNULL,
                               timeout=700 if self.tier == 'quick' else 6000)
                runs.append((config, d))
            n = self.agree(runs)
            for _, d in runs:
                shutil.rmtree(d, ignore_errors=True)
            return n
        with cf.ThreadPoolExecutor(4) as ex:
            n = sum(ex.map(one, ['C%02d' % i for i in range(3, 20)]))
        self.cov['recorded']['events_compared_between_builds'] = n
        self.log(n, 'events of all recorders compared between builds')

    # -- automata
    def automata(self, rules_cfg):
        """Let TLC turn the ABNF into automata; returns the file for the harness."""
        out = os.path.join(self.work, 'automata.out')
        t = time.time()
        rc = tlc('Automaton.tla', rules_cfg, os.path.join(self.work, 'm_auto'), out, workers=1, heap='8g', timeout=600)
        if rc != 0:
            raise NoAnswer('automaton export failed: ' + tail(out))
        gen, dist = stats(tail(out))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        states, head = {}, None
        for line in open(out):
            if line.startswith('"{'):
                o = json.loads(json.loads(line))
                if 'reps' in o:
                    head = o
                else:
                    states.setdefault('/'.join(o['r']), {})[tuple(sorted(o['q']))] = (o['acc'], {c: tuple(sorted(f)) for c, f in o['d']})
        reps = sorted(head['reps'])
        idx = {r: i for i, r in enumerate(reps)}
        dst = os.path.join(self.work, 'automata.txt')
        with open(dst, 'w') as f:
            f.write('reps %s\n' % ' '.join(map(str, reps)))
            f.write('bounds %s\n' % ' '.join('%d:%d' % (b, idx[r]) for b, r in sorted(head['repof'])))
            n = 0
            for r in sorted(states):
                ss = states[r]
                ids = {(0,): 0}
                for q in sorted(ss):
                    ids.setdefault(q, len(ids))
                n += len(ids)
                f.write('rule %s %d\n' % (r, len(ids)))
                for q in sorted(ids, key=ids.get):
                    acc, d = ss[q]
                    f.write('%d %s\n' % (1 if acc else 0, ' '.join(str(ids[d[c]]) for c in reps)))
        if n != dist:
            raise NoAnswer('automaton export lost states: %d of %d' % (n, dist))
        os.unlink(out)
        self.cov['models'].append(dict(module='Automaton', cfg=rules_cfg, generated=gen, distinct=dist, wall_s=round(time.time() - t, 1)))
        self.log('automata: %d rules, %d states, %.1fs' % (len(states), n, time.time() - t))
        return dst

    def run(self):
        c = self.conf
        configs = c.get('configs', ['std', 'memchr'])
        with cf.ThreadPoolExecutor(4) as ex:
            fb = ex.submit(build_all, configs + (['cov'] if c.get('search', True) else []))
            models = []
            for m in c.get('models', []):
                t = m[1].replace('.cfg', '_t.cfg')
                larger = self.tier == 'thorough' and os.path.exists(os.path.join(SPEC, t))
                # the larger configurations of some models are too large to replay: those are replayed from the small one
                if not larger or len(m) > 3:
                    models.append(m)
                if larger:
                    models.append((m[0], t) + m[2:])
            fm = [ex.submit(self.model, *(m[:2] + (4,) + m[2:])) for m in models]
            fa = ex.submit(self.automata, c['automata']) if 'automata' in c else None
            exes = fb.result()
            self.log('built', ', '.join(configs))
            auto = fa.result() if fa else None
            for f in fm:
                f.result()
        dirs = []
        if auto:
            for config in configs:
                d, s = self.record(exes[config], config,
                                   lambda d: ['dfa', self.prop, self.tier, str(self.seed), auto, d], 'dfa_' + config)
                if s:
                    self.cov['recorded']['automaton_' + config] = s
                    self.cov['traces_validated_against_impl'] += s['words']
                    self.cov['samples'] += s.pop('samples', [])[:3]
        for module, path, n, tag in self.edges:
            for config in configs:
                d, s = self.record(exes[config], config, lambda d: ['replay', module, path, d], 'rep_%s_%s' % (tag, config))
                if s:
                    if s['replayed'] != n:
                        raise NoAnswer('replayed only %d of %d transitions' % (s['replayed'], n))
                    self.cov['recorded']['replay_%s_%s' % (tag, config)] = s
                    self.cov['traces_validated_against_impl'] += n
            if n:
                self.cov['samples'].append(pretty(json.loads(open(path).readline())))
        if c.get('record', True):
            for config in configs:
                d, s = self.record(exes[config], config,
                                   lambda d: ['rec', self.prop, self.tier, str(self.seed), d, str(NCPU)], 'rec_' + config)
                if s:
                    self.cov['recorded'][config] = s
                    if s['events'] < c.get('min_events', 1000) and not self.violations:
                        raise NoAnswer('only %d events recorded' % s['events'])
                    dirs.append((config, d))
        if c.get('agree') and len(dirs) > 1:
            self.agree(dirs)
        if c.get('search', True):
            dirs += self.hunt(exes['cov'], auto)
        if dirs:
            self.validate(dirs, c.get('module', 'Trace'), c.get('module', 'Trace') + '.cfg')
        for f in c.get('extra', []):
            getattr(self, f)(exes)

    def finish(self):
        wall = time.time() - self.t0
        level = self.conf.get('level', 'model_checking')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.conf.get('assumptions', []), wall_s=round(wall, 1), violations=len(self.violations))
        self.cov['rule'] = self.conf['rule']
        self.cov['samples'] = self.cov['samples'][:8] or ['none']
        if self.known_hits:
            self.cov['known_findings'] = sorted(set(self.known_hits))
        with open(os.path.join(self.evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for w in sorted(set(self.known_hits)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        if self.violations:
            self.violations.sort(key=lambda v: len(json.dumps(v[1])))
            for i, (why, rep) in enumerate(self.violations[:5]):
                p = os.path.join(self.evdir, 'replay-%s-%d.json' % (self.prop, i))
                rep = dict(property=self.prop, why=why, seed=self.seed, tier=self.tier, readable=pretty(rep.get('event')), **rep)
                with open(p, 'w') as f:
                    json.dump(rep, f, indent=1)
                print('  %s: %s' % (why, json.dumps(rep['readable'], ensure_ascii=True)[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
            return 1
        print('OK property=%s %d events, %d states, %.1fs' % (self.prop, self.cov['traces_validated_against_impl'], self.cov['states'], wall))
        return 0


def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        c.run()
        rc = c.finish()
    except NoAnswer as e:
        if c.violations:
            rc = c.finish()
        else:
            print('NO ANSWER property=%s: %s' % (prop, e))
            rc = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        if c.violations:
            rc = c.finish()
        else:
            print('NO ANSWER property=%s: %r' % (prop, e))
            rc = 2
    if not os.environ.get('KEEP_WORK'):
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()

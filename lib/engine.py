"""Builds the encoding of /repo's current source, runs CBMC on the harnesses of
one property, replays traces on a native build of the same source, writes the
evidence file."""
import concurrent.futures as cf
import threading
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
MEM = 14 << 30

PKG = ['glib-2.0', 'gobject-2.0', 'gmodule-2.0', 'gio-2.0']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='milterverif.')
        self.gen = os.path.join(self.dir, 'gen')
        self.pkg = sh(['pkg-config', '--cflags'] + [p for p in PKG if sh(['pkg-config', '--exists', p]).returncode == 0]).stdout.split()
        self.pkglibs = sh(['pkg-config', '--libs'] + [p for p in PKG if sh(['pkg-config', '--exists', p]).returncode == 0]).stdout.split()
        self.cache, self.locks = {}, {}
        self.mutex = threading.Lock()
        self.generate()

    def lock(self, key):
        with self.mutex:
            return self.locks.setdefault(key, threading.Lock())

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- generated sources of the repository's own build ----------------
    def generate(self):
        g = self.gen
        src = os.path.join(VERIF, 'model', 'gen')
        for lib in ('core', 'client', 'manager', 'server'):
            d = os.path.join(g, 'milter', lib)
            os.makedirs(d)
            mk = open(os.path.join(REPO, 'milter', lib, 'Makefile.am')).read().replace('\\\n', ' ')
            m = re.search(r'^milter_%s_public_headers\s*=\s*(.*)$' % lib, mk, re.M)
            hdrs = [h for h in m.group(1).split() if h.endswith('.h') and os.path.exists(os.path.join(REPO, 'milter', lib, h))]
            # every header is scanned: a type may move to another file
            prefix = 'milter-enum-types' if lib == 'core' else 'milter-%s-enum-types' % lib
            for ext in ('c', 'h'):
                t = open(os.path.join(src, 'enum-types-template.' + ext)).read().replace('@enum_types_header@', prefix + '.h')
                tp = os.path.join(d, 'template.' + ext)
                open(tp, 'w').write(t)
                r = subprocess.run(['/usr/bin/glib-mkenums', '--template', tp] + hdrs, cwd=os.path.join(REPO, 'milter', lib),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode:
                    raise RuntimeError('glib-mkenums: ' + r.stderr)
                open(os.path.join(d, prefix + '.' + ext), 'w').write(r.stdout)
        shutil.copy(os.path.join(src, 'config.h'), g)
        shutil.copy(os.path.join(src, 'milter-version.h'), os.path.join(g, 'milter', 'core'))

    def incs(self):
        r = ['-I' + REPO, '-I' + self.gen]
        for lib in ('core', 'client', 'manager', 'server'):
            r += ['-I%s/milter/%s' % (self.gen, lib), '-I%s/milter/%s' % (REPO, lib)]
        return r + ['-I%s/libmilter-compatible' % REPO, '-I%s/model' % VERIF, '-I%s/harness' % VERIF]

    def path(self, src):
        if src.startswith('gen:'):
            return os.path.join(self.gen, src[4:])
        if src.startswith('v:'):
            return os.path.join(VERIF, src[2:])
        return os.path.join(REPO, src)

    COMMON = ['-DHAVE_CONFIG_H', '-DMILTER_LOG_DOMAIN="x"', '-DLOCALEDIR="x"', '-DG_DISABLE_CAST_CHECKS', '-DG_LOG_DOMAIN="x"',
              '-DPACKAGE="x"', '-DCONFIG_DIR="/etc"', '-DCONFIG_FILE_NAME="f"', '-DCUSTOM_CONFIG_FILE_NAME="c"', '-DCONFIGURATION_MODULE_DIR="/m"', '-DMILTER_MANAGER_PACKAGE_PLATFORM="p"', '-DMILTER_MANAGER_PACKAGE_OPTIONS=""',
              '-DMILTER_MANAGER_DEFAULT_EFFECTIVE_USER="u"', '-DMILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP="g"', '-DMILTER_MANAGER_DEFAULT_SOCKET_GROUP="g"', '-DMILTER_MANAGER_DEFAULT_CONNECTION_SPEC="inet:1"', '-DMILTER_MANAGER_DEFAULT_PID_FILE="p"', '-DPREFIX="/usr"', '-DEV_COMPAT3=0', '-w']

    def goto(self, src, defs=()):
        key = ('g', src, tuple(defs))
        with self.lock(key):
            return self.cache[key] if key in self.cache else self._goto(key, src, defs)

    def _goto(self, key, src, defs):
        out = os.path.join(self.dir, hashlib.md5(repr(key).encode()).hexdigest() + '.gb')
        r = sh(['goto-cc', '-c'] + self.pkg + self.incs() + self.COMMON + ['-DVSYMBOLIC', '-include', VERIF + '/model/vglib.h'] + list(defs)
               + [self.path(src), '-o', out])
        if r.returncode:
            raise BuildError('goto-cc %s: %s' % (src, r.stdout[-2000:]))
        self.cache[key] = out
        return out

    def native(self, src, defs=()):
        key = ('n', src, tuple(defs))
        with self.lock(key):
            return self.cache[key] if key in self.cache else self._native(key, src, defs)

    def _native(self, key, src, defs):
        out = os.path.join(self.dir, hashlib.md5(repr(key).encode()).hexdigest() + '.o')
        r = sh(['gcc', '-c', '-g1', '-O0', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment'] + self.pkg + self.incs()
               + self.COMMON + ['-include', VERIF + '/model/vnative.h'] + list(defs) + [self.path(src), '-o', out])
        if r.returncode:
            raise BuildError('gcc %s: %s' % (src, r.stdout[-2000:]))
        self.cache[key] = out
        return out


class BuildError(Exception):
    pass


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()


MODEL = ['v:model/vglib.c', 'v:model/vnd_sym.c', 'v:model/vstub_log.c']
NATIVE = ['v:model/vnd_native.c', 'v:model/vexact_gstring.c']


class Harness:
    """One solver query set: a harness source, the files of /repo it encodes,
    and the concrete parameters (bounds) of this configuration."""

    def __init__(self, name, src, repo, defs=(), caps=(), budget=300, tier='quick', note='', extra_model=(), native_extra=(), flags=(), native_libs=(), vformat=False, model_defs=(), repo_defs=(), own=8):
        self.name, self.src, self.repo = name, src, list(repo)
        self.defs, self.caps = list(defs), list(caps)
        if vformat:
            self.caps.append('-DVFORMAT')
        self.budget, self.tier, self.note = budget, tier, note
        self.extra_model, self.native_extra = list(extra_model), list(native_extra)
        self.flags, self.native_libs = list(flags), list(native_libs)
        self.own = own                       # first unwinding of loops of the model and the harness
        self.repo_defs = list(repo_defs)     # for the files of /repo and the harness (-D of a reduced constant)


def hint_path(h):
    return os.path.join(VERIF, 'harness', 'unwind', h.name.split('@')[0] + '.json')


def load_hints(h):
    try:
        return json.load(open(hint_path(h)))
    except Exception:
        return {}


BASE_UNWIND = 6
SETUP_LOOPS = (r'(v_(find_prop|find_prop_name|default_constructor|is_a|sig_lookup|sig_of|hash|iface_vtable|emit|class_setup|level)|g_signal_\w+|'
               r'g_object_new\w*|g_type_\w+|g_param\w+|g_flags_register_static|g_enum_register_static|g_quark\w+|g_object_class\w+)'
               r'(\$link\d+)?\.\d+$')


def cbmc_once(goto, unwind, unwindset, h, timeout, logdir):
    cmd = ['cbmc', goto, '--unwind', str(unwind), '--unwinding-assertions', '--object-bits', '12', '--no-malloc-may-fail',
           '--drop-unused-functions', '--no-signed-overflow-check', '--no-undefined-shift-check', '--no-pointer-primitive-check', '--json-ui', '--trace', '--verbosity', '8'] + h.flags
    if unwindset:
        cmd += ['--unwindset', ','.join('%s:%d' % kv for kv in sorted(unwindset.items()))]
    out = os.path.join(logdir, 'cbmc.json')
    t0 = time.time()
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limit)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return {'status': 'timeout', 'wall': time.time() - t0}
    wall = time.time() - t0
    try:
        d = json.load(open(out))
    except Exception:
        txt = open(out, errors='replace').read()
        return {'status': 'error', 'wall': wall, 'text': txt[-600:], 'rc': p.returncode}
    res = None
    stats = {'steps': 0, 'vccs': 0, 'solver_s': 0.0, 'vars': 0}
    text = ''
    for x in d:
        if 'result' in x:
            res = x['result']
        t = x.get('messageText', '') if isinstance(x, dict) else ''
        text += t + '\n'
        m = re.search(r'size of program expression: (\d+) steps', t)
        if m:
            stats['steps'] = int(m.group(1))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
        if m:
            stats['vccs'], stats['vccs_left'] = int(m.group(1)), int(m.group(2))
        m = re.search(r'Runtime decision procedure: ([\d.e-]+)s', t)
        if m:
            stats['solver_s'] += float(m.group(1))
        m = re.search(r'(\d+) variables, (\d+) clauses', t)
        if m:
            stats['vars'] = max(stats['vars'], int(m.group(1)))
    os.unlink(out)
    if res is None:
        return {'status': 'error', 'wall': wall, 'text': text[-600:], 'rc': p.returncode}
    return {'status': 'done', 'wall': wall, 'result': res, 'stats': stats}


def classify(r):
    d, p = r['description'], r['property']
    if d.startswith('PROP '):
        return 'prop'
    if d.startswith('WITNESS '):
        return 'witness'
    if d.startswith('MODEL-BOUND'):
        return 'bound'
    if '.unwind.' in p or '.recursion' in p:
        return 'unwind'
    if 'no body' in d or '.no-body.' in p or '.no_body' in p:
        return 'nobody'
    return 'safety'


def nd_values(trace):
    out = []
    for s in trace:
        if s.get('stepType') == 'input' and s.get('inputID') == 'nd':
            v = s['values'][0]
            b = v.get('binary')
            out.append(int(b, 2) if b else int(v['data']))
    return out


def obs_values(trace):
    out = []
    for s in trace:
        if s.get('stepType') == 'output' and s.get('outputID') == 'obs':
            v = s['values'][-1]
            b = v.get('binary')
            out.append(int(b, 2) if b else int(re.sub(r'[a-zA-Z]+$', '', v['data'])))
    return out


def run_harness(b, h, deadline):
    """-> dict with verdict: ok / violation / inconclusive"""
    logdir = os.path.join(b.dir, 'run.' + re.sub(r'[^A-Za-z0-9_.-]', '_', h.name))
    os.makedirs(logdir, exist_ok=True)
    res = {'name': h.name, 'verdict': 'inconclusive', 'why': '', 'rounds': 0, 'solver_s': 0.0, 'wall': 0.0, 'replayed': 0}
    hints = load_hints(h)
    hint = hints.get(h.name, {})
    base = hint.get('recursion', BASE_UNWIND)
    repo = list(h.repo)
    res['repo'] = repo
    uset, kind = {}, {}
    goto = os.path.join(logdir, 'h.goto')
    why = link_goto(b, h, repo, goto, uset, kind, hint)
    if why:
        res['why'] = why
        return res
    while True:
        v = run_rounds(b, h, deadline, res, goto, base, uset, kind, logdir)
        if v == 'ok' or v == 'violation':
            return res
        # code moved to (or calls) a file that was not encoded: encode it too
        more = [f for f in (defining_file(n) for n in v) if f and f not in repo] if isinstance(v, list) else []
        if not more:
            return res
        for f in more:
            if f not in repo:
                repo.append(f)
        why = link_goto(b, h, repo, goto, uset, kind, hint)
        if why:
            res['why'] = why
            return res


def defining_file(name):
    for lib in ('core', 'client', 'server', 'manager'):
        for f in lib_sources(lib):
            if f.startswith('gen:'):
                if re.match(r'milter_.*_get_type$', name):
                    continue
            else:
                try:
                    if re.search(r'^%s \(' % re.escape(name), open(os.path.join(REPO, f)).read(), re.M):
                        return f
                except OSError:
                    pass
    return None


def link_goto(b, h, repo, goto, uset, kind, hint):
    objs = [b.goto(h.src, h.defs + h.repo_defs)]
    objs += [b.goto(s, h.caps if s.endswith('vglib.c') else ()) for s in MODEL + h.extra_model]
    objs += [b.goto(s, h.repo_defs) for s in repo]
    r = sh(['goto-cc'] + objs + ['-o', goto])
    if r.returncode:
        return 'link: ' + r.stdout[-500:]
    for k, fl in re.findall(r'^Loop (\S+):\n\s+file (\S+)', sh(['goto-instrument', '--show-loops', goto]).stdout, re.M):
        kind[k] = 'repo' if not os.path.abspath(fl).startswith(VERIF) and '/model/' not in fl and '/harness/' not in fl else 'own'
        if re.match(SETUP_LOOPS, k):
            uset[k] = 150       # loops of the model over constant tables stop by themselves
        else:
            uset.setdefault(k, hint.get(k, 3 if kind[k] == 'repo' else h.own))
    return None


def run_rounds(b, h, deadline, res, goto, base, uset, kind, logdir):
    while True:
        left = min(h.budget, deadline - time.time())
        if left < 2:
            res['why'], res['verdict'] = 'time budget', 'undecided'
            return None
        c = cbmc_once(goto, base, uset, h, left, logdir)
        if os.environ.get('VERIF_DEBUG'):
            print('   round', h.name, c['status'], round(c['wall'], 1), flush=True)
        res['rounds'] += 1
        res['wall'] += c['wall']
        if c['status'] != 'done':
            res['why'] = c['status'] + ' ' + c.get('text', '')[-300:]
            if c['status'] == 'timeout':
                res['verdict'] = 'undecided'
            return None
        res['solver_s'] += c['stats']['solver_s']
        res['stats'] = c['stats']
        fails = {}
        for x in c['result']:
            if x['status'] == 'FAILURE':
                fails.setdefault(classify(x), []).append(x)
            elif classify(x) == 'witness':
                fails.setdefault('vacuous', []).append(x)
        res['assertions'] = sum(1 for x in c['result'] if classify(x) == 'prop')
        res['checks'] = len(c['result'])
        bad = fails.get('prop', []) + fails.get('safety', [])
        unconfirmed = []
        for x in bad:
            ok, path, out = replay(b, h, x, logdir)
            if ok:
                res['verdict'], res['why'], res['replay'] = 'violation', '%s: %s' % (x['description'], x.get('sourceLocation', {}).get('function', '')), path
                res['output'] = out
                res['cex'] = x['description']
                return 'violation'
            unconfirmed.append((x, out))
        if 'unwind' in fails:
            for x in fails['unwind']:
                m = re.match(r'(.*)\.unwind\.(\d+)$', x['property'])
                if m:
                    k = m.group(1) + '.' + m.group(2)
                    n = uset.get(k, base)
                    uset[k] = (n + 1 if n < 8 else n + 4 if n < 20 else n * 2) if kind.get(k) == 'repo' else (n + 4 if n < 12 else n * 2)
                    if os.environ.get('VERIF_DEBUG'):
                        print('   bump', h.name, k, uset[k], flush=True)
                else:
                    base += 3
            if res['rounds'] < 40 and base < 30 and all(v < 400 for v in uset.values()):
                continue
            res['why'] = 'unwinding bound not reached'
            return None
        if unconfirmed:
            x, out = unconfirmed[0]
            res['why'] = 'counterexample not confirmed by replay: %s in %s line %s [%s]' % (
                x['description'], x.get('sourceLocation', {}).get('function', ''), x.get('sourceLocation', {}).get('line', ''), out[-400:])
            return None
        for k in ('nobody', 'bound'):
            if k in fails:
                if k == 'nobody':
                    names = [m.group(1) for m in (re.search(r'callee (\S+)', x['description']) for x in fails[k]) if m]
                    names += [x['property'].split('.')[0] for x in fails[k]]
                res['why'] = '; '.join(sorted(set('%s (%s)' % (x['description'], x.get('sourceLocation', {}).get('function', '')) for x in fails[k])))[:400]
                return names if k == 'nobody' else None
        if 'vacuous' in fails:
            res['why'] = 'witness not reachable: ' + fails['vacuous'][0]['description']
            return None
        break
    res['unwindset'] = dict({k: v for k, v in uset.items() if v != (3 if kind[k] == 'repo' else 8) and not re.match(SETUP_LOOPS, k)}, **({'recursion': base} if base != BASE_UNWIND else {}))
    # the witness traces are run on the native build: the model and the real
    # code must agree that the trace is possible and violates nothing
    for x in fails.get('witness', [])[:4]:
        ok, out = native_witness(b, h, x, logdir)
        if not ok:
            res['why'] = 'witness trace disagrees with the native build: %s: %s' % (x['description'], out[-500:])
            return None
        res['replayed'] += 1
        res.setdefault('samples', []).append({'harness': h.name, 'witness': x['description'], 'inputs': nd_values(x['trace'])[:200]})
    res['verdict'] = 'ok'
    return 'ok'


def lib_sources(lib):
    prefix = 'milter-enum-types' if lib == 'core' else 'milter-%s-enum-types' % lib
    d = os.path.join(REPO, 'milter', lib)
    return ['milter/%s/%s' % (lib, f) for f in sorted(os.listdir(d)) if f.endswith('.c')] + ['gen:milter/%s/%s.c' % (lib, prefix)]


def libs_of(h):
    libs = ['core']
    for l in ('client', 'server', 'manager'):
        if any(s.startswith('milter/%s/' % l) for s in h.repo + h.native_extra):
            libs.append(l)
    if 'manager' in libs:
        libs = ['core', 'client', 'server', 'manager']
    return libs


def native_archive(b, lib):
    """the whole library, compiled as it is, for replays"""
    with b.lock(lib):
        out = os.path.join(b.dir, 'lib%s.a' % lib)
        if not os.path.exists(out):
            with cf.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(b.native, lib_sources(lib)))
            r = sh(['ar', 'rcs', out + '.tmp'] + objs)
            if r.returncode:
                raise BuildError('ar: ' + r.stdout)
            os.rename(out + '.tmp', out)
        return out


def build_native(b, h, logdir):
    exe = os.path.join(logdir, 'native')
    if os.path.exists(exe):
        return exe
    objs = [b.native(h.src, h.defs + h.repo_defs)] + ([b.native(s, h.repo_defs) for s in h.repo] if h.repo_defs else []) + [b.native(s) for s in NATIVE + [x for x in h.native_extra if not x.startswith('milter/')]]
    arch = [native_archive(b, l) for l in reversed(libs_of(h))]
    r = sh(['gcc', '-fsanitize=address,undefined'] + objs + ['-Wl,--start-group'] + arch + ['-Wl,--end-group', '-o', exe] + b.pkglibs + ['-lev'] + h.native_libs)
    if r.returncode:
        raise BuildError('native link %s: %s' % (h.name, r.stdout[-1500:]))
    return exe


ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=98',
           G_SLICE='always-malloc', LC_ALL='C', MILTER_LOG_LEVEL='none')


def run_native(exe, values, logdir, tag):
    inp = os.path.join(logdir, 'in.' + tag)
    open(inp, 'w').write('\n'.join(str(v) for v in values) + '\n')
    scratch = os.path.join(logdir, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([exe], env=dict(ENV, VND_INPUT=inp), cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, errors='replace', text=True)
    except subprocess.TimeoutExpired:
        return 'hang', ''
    return p.returncode, p.stdout


def replay(b, h, x, logdir):
    if 'trace' not in x:
        return False, '', 'no trace'
    exe = build_native(b, h, logdir)
    vals = nd_values(x['trace'])
    tag = re.sub(r'[^A-Za-z0-9]', '_', x['property'])
    rc, out = run_native(exe, vals, logdir, tag)
    confirmed = rc in (1, 98, 99, 'hang') or (isinstance(rc, int) and rc < 0)
    if rc == 1 and 'REPLAY-PROP-FAILED' not in out:
        confirmed = 'Sanitizer' in out
    path = ''
    if confirmed:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, re.sub(r'[^A-Za-z0-9_.-]', '_', h.name) + '.txt')
        with open(path, 'w') as f:
            f.write('harness %s (%s)\ndefines %s\nassertion %s\nat %s:%s %s\n' % (
                h.name, h.src, ' '.join(h.defs), x['description'], x.get('sourceLocation', {}).get('file', ''),
                x.get('sourceLocation', {}).get('line', ''), x.get('sourceLocation', {}).get('function', '')))
            f.write('input values (VND_INPUT file for the native build)\n%s\n' % ' '.join(map(str, vals)))
            f.write('native run: exit %s\n%s\n' % (rc, out[-4000:]))
    return confirmed, path, 'rc=%s %s' % (rc, out)


def native_witness(b, h, x, logdir):
    if 'trace' not in x:
        return False, 'no trace'
    exe = build_native(b, h, logdir)
    vals = nd_values(x['trace'])
    rc, out = run_native(exe, vals, logdir, 'w_' + re.sub(r'[^A-Za-z0-9]', '_', x['property']))
    want = 'REPLAY-WITNESS ' + x['description'][len('WITNESS '):]
    ok = rc == 0 and want in out
    if ok:
        # every observation up to the witness has to be the same
        sym = obs_values(x['trace'])
        nat = [int(m) for m in re.findall(r'^REPLAY-OBS (-?\d+)', out[:out.index(want)], re.M)]
        if sym != nat:
            return False, 'observations differ: model %s native %s' % (sym, nat)
    return ok, 'rc=%s %s' % (rc, out)


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def check(prop, harnesses, tier, meta, only=None, update=False, budget=840):
    t0 = time.time()
    deadline = t0 + budget
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    hs = [h for h in harnesses if (tier == 'thorough' or h.tier == 'quick')]
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    b = Build()
    results = []
    try:
        files = {}
        for h in hs:
            for s in h.repo:
                files[('g', s)] = (b.goto, s)
            for s in h.extra_model:
                files[('g', s)] = (b.goto, s)
            for l in libs_of(h):
                for s in lib_sources(l):
                    files[('n', s)] = (b.native, s)
            for s in NATIVE:
                files[('n', s)] = (b.native, s)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda fs: fs[0](fs[1]), files.values()))
            build_s = time.time() - t0
            def go(h):
                try:
                    return run_harness(b, h, deadline)
                except BuildError as e:
                    return {'name': h.name, 'verdict': 'inconclusive', 'why': str(e), 'solver_s': 0, 'wall': 0, 'replayed': 0, 'rounds': 0}
            hs_sorted = sorted(hs, key=lambda h: -load_hints(h).get('wall', {}).get(h.name, 5))
            for r in ex.map(go, hs_sorted):
                results.append(r)
                print('  %-44s %-12s rounds %d wall %.1fs solver %.1fs steps %d %s' % (
                    r['name'], r['verdict'], r['rounds'], r['wall'], r['solver_s'], r.get('stats', {}).get('steps', 0), r['why'][:300]), flush=True)
    except BuildError as e:
        print('BUILD-ERROR', e)
        return 2
    finally:
        b.close()
    if update:
        byfile = {}
        for h in hs:
            byfile.setdefault(hint_path(h), []).append(h)
        os.makedirs(os.path.join(VERIF, 'harness', 'unwind'), exist_ok=True)
        res = {r['name']: r for r in results}
        for p, l in byfile.items():
            hints = load_hints(l[0])
            for h in l:
                r = res[h.name]
                if r['verdict'] == 'ok':
                    hints[h.name] = r['unwindset']
                    hints.setdefault('wall', {})[h.name] = round(r['wall'] / max(1, r['rounds']), 1)
            json.dump(hints, open(p, 'w'), indent=1, sort_keys=True)
    known = known_findings(prop)
    viol = [r for r in results if r['verdict'] == 'violation']
    new = []
    for r in viol:
        k = [w for (w, w2) in known if w == r['name']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, [w2 for (w, w2) in known if w == r['name']][0]))
        else:
            new.append(r)
    inc = [r for r in results if r['verdict'] == 'inconclusive']
    und = [r for r in results if r['verdict'] == 'undecided']
    # a few configurations without an answer are reported as not explored; with
    # more of them the check itself has no answer
    if len(und) + len(inc) <= max(1, len(results) // 3):
        und, inc = und + inc, []
    else:
        inc += und
    if not only:
        write_evidence(prop, tier, meta, hs, results, new, time.time() - t0, build_s)
    for r in new:
        print('VIOLATION property=%s replay=%s' % (prop, r['replay']))
        print('   %s %s' % (r['name'], r['why']))
    print('%s: %d harness configurations, %d ok, %d violations, %d inconclusive, %.0fs' % (
        prop, len(results), sum(r['verdict'] == 'ok' for r in results), len(viol), len(inc), time.time() - t0))
    if new:
        return 1
    for r in und:
        print('UNDECIDED %s: %s (not part of what was explored)' % (r['name'], r['why']))
    if inc:
        for r in inc:
            print('INCONCLUSIVE %s: %s' % (r['name'], r['why']))
        return 2
    return 0


def write_evidence(prop, tier, meta, hs, results, viol, wall, build_s):
    steps = sum(r.get('stats', {}).get('steps', 0) for r in results)
    vccs = sum(r.get('stats', {}).get('vccs', 0) for r in results)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': steps, 'transitions': vccs,
            'traces_validated_against_impl': sum(r['replayed'] for r in results),
            'samples': [w for r in results for w in r.get('samples', [])][:40],
            'query_sets': len(results),
            'explanation': 'Bounded symbolic execution of the current /repo source with CBMC. states = symbolic execution steps, '
                           'transitions = verification conditions generated, query_sets = harness configurations, samples = inputs of witness traces found by the solver, '
                           'traces_validated_against_impl = witness traces replayed on a native ASan/UBSan build against real GLib with equal observations.',
            'encoded_files': sorted({s for h in hs for s in h.repo}),
            'entry_points': meta.get('entry', []),
            'bounds': meta.get('bounds', ''),
            'outside': meta.get('outside', ''),
            'queries': [{'name': r['name'], 'verdict': r['verdict'], 'assertions': r.get('assertions', 0), 'checks': r.get('checks', 0),
                         'vccs': r.get('stats', {}).get('vccs', 0), 'sat_variables': r.get('stats', {}).get('vars', 0),
                         'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall'], 1), 'why': r['why'][:300]} for r in results],
            'violating': [{'replay': r['replay'], 'detail': r['why']} for r in viol],
            'solver_s': round(sum(r['solver_s'] for r in results), 2), 'build_s': round(build_s, 1),
        },
        'assumptions': meta.get('assumptions', []) + ASSUMPTIONS,
        'wall_s': round(wall, 1),
        'violations': len(viol),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


ASSUMPTIONS = [
    'GLib/GObject is replaced by the executable model in /verif/model/vglib.c (capacities are asserted); witness traces are cross-checked against real GLib',
    'memory allocation does not fail (--no-malloc-may-fail)',
    'logging is switched off in the encoding (milter_logger is a stub); texts of GError messages are not built',
    'single thread',
]

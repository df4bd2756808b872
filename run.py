#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] : decide one property of /repo by runtime monitoring.

Builds the monitors it needs from /repo's working tree (own object cache, keyed by
the content of every source involved), runs them, merges what they observed
into evidence/PROP.json and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything observed, 1 violated, 2 error of the check itself.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
H = os.path.join(V, 'harness')
JOBS = min(8, os.cpu_count() or 8)
T = [('f', 'float'), ('d', 'double'), ('l', 'long double')]
ASAN = ['-g1', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']
TSAN = ['-g1', '-fsanitize=thread']


class CheckError(Exception):
    pass


class BuildError(CheckError):
    def __init__(self, msg, log, link=False):
        CheckError.__init__(self, msg)
        self.log, self.link = log, link


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_digest():
    h = hashlib.sha256()
    base = os.path.join(REPO, 'p1788')
    for d, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for n in sorted(files):
            p = os.path.join(d, n)
            h.update(os.path.relpath(p, base).encode() + b'\0' + hashlib.sha256(read(p)).digest())
    return h.hexdigest()


def harness_digest():
    h = hashlib.sha256()
    for n in sorted(os.listdir(H)):
        if n.endswith('.hpp'):
            h.update(n.encode() + b'\0' + hashlib.sha256(read(os.path.join(H, n))).digest())
    return h.hexdigest()


def version_hpp():
    inc = os.path.join(B, 'inc', 'p1788')
    os.makedirs(inc, exist_ok=True)
    txt = read(os.path.join(REPO, 'p1788', 'version.hpp.in')).decode()
    cm = read(os.path.join(REPO, 'CMakeLists.txt')).decode()
    for k in ('MAJOR', 'MINOR', 'PATCH'):
        m = re.search(r'set\s*\(\s*P1788_VERSION_%s\s+(\w+)' % k, cm)
        txt = txt.replace('@P1788_VERSION_%s@' % k, m.group(1) if m else '0')
    p = os.path.join(inc, 'version.hpp')
    if not os.path.exists(p) or read(p).decode() != txt:
        with open(p, 'w') as f:
            f.write(txt)
    return os.path.join(B, 'inc')


# u2 and u3 also as a shared library
UNITS = [('u0', '', []), ('u1', 'u1', ['-O0']), ('u2', 'u2', ['-O2', '-std=c++14', '-fPIC']), ('u3', '', ['-O3', '-std=gnu++11', '-fPIC']), ('u4', '', ['-Os', '-std=c++20'])]


# ---- objects: name -> (source, uses the library, defines) ----------------------------
def objects():
    o = {}
    for k, t in T:
        for p in range(4):
            o['same_%s%d' % (k, p)] = ('lib_same.cpp', True, ['-DVT=' + t, '-DVFN=same_%s%d' % (k, p), '-DVPART=%d' % p])
            o['mixed_%s%d' % (k, p)] = ('lib_mixed.cpp', True, ['-DVR=' + t, '-DVFN=mixed_%s%d' % (k, p), '-DVPART=%d' % p])
        o['ctor_' + k] = ('lib_ctor.cpp', True, ['-DVR=' + t, '-DVFN=construct_' + k])
    o['mixed_f4'] = ('lib_mixed.cpp', True, ['-DVR=float', '-DVFN=mixed_f4', '-DVPART=4'])
    o['lib_main'] = ('lib_main.cpp', True, ['-DHAVE_MIXED'])
    o['lib_main_same'] = ('lib_main.cpp', True, [])
    for n in ('lib_flags', 'lib_red', 'lib_text', 'lib_shared', 'longtext'):
        o[n] = (n + '.cpp', True, [])
    # translation units of the program of P24 and the operations they contain
    for u, same, fl in UNITS:
        o['mtu_' + u] = ('mtu.cpp', True, ['-DVU=' + u, '-DVSAME=' + ('_' + same if same else '')] + fl)
        if same:
            for p in range(4):
                o['same_d%d_%s' % (p, same)] = ('lib_same.cpp', True, ['-DVT=double', '-DVFN=same_d%d_%s' % (p, same), '-DVPART=%d' % p] + fl)
    for u in ('u0', 'u1', 'u2'):        # units of a program of which u2 is a shared library
        o['life_' + u] = ('life.cpp', True, ['-DVU=' + u] + {'u0': ['-DVERIF_LIFE_MAIN'], 'u1': ['-O0'], 'u2': ['-O2', '-fPIC']}[u])
    for n in ('ambient', 'ref', 'gen', 'mon', 'mon_interval', 'mon_misc', 'mon_expr', 'mon_red', 'tref', 'mon_text', 'steps', 'mon_thr', 'mon_mtu', 'mon_san', 'mon_hist', 'newhook', 'ctypehook'):
        o[n] = (n + '.cpp', False, [])
    for n in ('mon_interval', 'mon_text'):      # generators without their table of monitors
        o[n + '_nt'] = (n + '.cpp', False, ['-DVERIF_NO_TABLE'])
    return o


OBJ = objects()
SAMEOPS = [n for n in OBJ if re.match(r'same_.\d$', n)] + ['lib_main_same']
LIBOPS = [n for n in OBJ if re.match(r'(same|mixed)_.\d$', n)] + ['lib_main']
CORE = ['ref', 'gen', 'mon', 'ambient']
EXES = {
    'moni': CORE + LIBOPS + ['ctor_f', 'ctor_d', 'ctor_l', 'lib_flags', 'mon_misc', 'mon_expr', 'mon_interval'],
    'mont': CORE + SAMEOPS + ['lib_text', 'tref', 'mon_text'],
    'longtext': ['longtext'],
    'monu': CORE + SAMEOPS + ['mtu_' + u[0] for u in UNITS] + ['same_d%d_%s' % (p, u[1]) for u in UNITS if u[1] for p in range(4)] + ['mon_mtu'],
    'monr': CORE + LIBOPS + ['lib_red', 'mon_red'],
}
HIST = CORE + LIBOPS + ['ctor_f', 'ctor_d', 'ctor_l', 'lib_flags', 'lib_red', 'lib_text', 'lib_shared', 'mon_misc', 'mon_interval_nt', 'mon_text_nt', 'tref', 'steps']
EXES['monp'] = HIST + ['mon_thr']
EXES['mona'] = HIST + ['mon_san', 'ctypehook']                   # for the sanitizers
EXES['mons'] = HIST + ['mon_san', 'newhook', 'ctypehook']        # with an account of the heap
EXES['monh'] = HIST + ['mon_hist']
EXES['monus'] = EXES['monu']
EXES['life'] = ['life_u0', 'life_u1', 'life_u2']
SHARED = {'life': ['life_u2'], 'monus': ['mtu_u2', 'mtu_u3'] + ['same_d%d_u2' % p for p in range(4)]}
VARIANT = {'plain': [], 'asan': ASAN, 'tsan': TSAN, 'init': ['-ftrivial-auto-var-init=pattern']}
# other compilers, standards and optimisation levels for the units that contain the library
UBC = ['-g1', '-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=function', '-fno-sanitize-recover=all']     # clang's checks, more than those of gcc
LIBVARIANT = {'ubc': ['clang++', '-std=c++17', '-O1'] + UBC, 'clang': ['clang++', '-std=c++17', '-O2'], 'clang0': ['clang++', '-std=c++11', '-O0'], 'gcc3': ['g++', '-std=c++20', '-O3'], 'gcc0': ['g++', '-std=c++14', '-O0']}


class Build:
    def __init__(self):
        self.rd, self.hd = repo_digest(), harness_digest()
        self.inc = version_hpp()
        os.makedirs(os.path.join(B, 'obj'), exist_ok=True)
        os.makedirs(os.path.join(B, 'exe'), exist_ok=True)

    def cmd(self, name, variant):
        src, lib, defs = OBJ[name]
        f = VARIANT.get(variant, [])
        if lib:
            cc = LIBVARIANT.get(variant, ['g++', '-std=c++11', '-O1'])
            if name == 'lib_red' and cc[0] == 'clang++':        # clang rejects the `new mpfr_t` of the reductions
                cc = ['g++'] + [x for x in cc[1:] if x not in UBC]
            return cc + ['-w'] + f + ['-I' + self.inc, '-I' + REPO, '-I' + H] + defs + ['-c', os.path.join(H, src)]
        return ['g++', '-std=c++14', '-O2', '-w'] + f + ['-I' + H] + defs + ['-c', os.path.join(H, src)]

    def obj(self, name, variant):
        src, lib, _ = OBJ[name]
        c = self.cmd(name, variant)
        key = hashlib.sha256(json.dumps([c, self.hd, self.rd if lib else '']).encode() + read(os.path.join(H, src))).hexdigest()[:32]
        out = os.path.join(B, 'obj', '%s-%s.o' % (name, key))
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = subprocess.run(c + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError('cannot compile %s (%s)' % (name, variant), r.stdout)
            os.rename(tmp, out)
        return out

    def exe(self, e, variant='plain'):
        names = EXES[e]
        with ThreadPoolExecutor(JOBS) as ex:
            # the slow ones first
            order = sorted(names, key=lambda n: (not n.startswith('mixed'), n))
            res = dict(zip(order, ex.map(lambda n: self.obj(n, variant), order)))
        objs = [res[n] for n in names]
        key = hashlib.sha256('|'.join(objs + [variant]).encode()).hexdigest()[:32]
        out = os.path.join(B, 'exe', '%s-%s' % (e, key))
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            so = [o for n, o in zip(names, objs) if n in SHARED.get(e, [])]
            if so:
                r = subprocess.run(['g++', '-shared'] + VARIANT.get(variant, []) + ['-o', out + '.so'] + so + ['-lmpfr', '-lgmpxx', '-lgmp', '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError('cannot link a shared library for %s' % e, r.stdout, True)
                objs = [o for o in objs if o not in so] + [out + '.so']
            ld = ['clang++', '-fsanitize=undefined', '-fsanitize-link-c++-runtime'] if variant == 'ubc' else ['g++'] + VARIANT.get(variant, [])
            r = subprocess.run(ld + ['-o', tmp] + objs + ['-lmpfr', '-lgmpxx', '-lgmp', '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError('cannot link %s (%s)' % (e, variant), r.stdout, True)
            os.rename(tmp, out)
        return out

    def prune(self, limit=1 << 30):
        fs = []
        for d in ('obj', 'exe'):
            for n in os.listdir(os.path.join(B, d)):
                p = os.path.join(B, d, n)
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
        fs.sort(reverse=True)
        tot = 0
        for _, s, p in fs:
            tot += s
            if tot > limit:
                os.unlink(p)


# ---- what each property runs: (exe, variant, monitor, quick cases/shard, thorough cases/shard)
RUNS = {
    'P01': [('moni', 'plain', 'P01', 400000, 3000000)],
    'P02': [('moni', 'plain', 'P02', 160000, 1500000)],
    'P03': [('moni', 'plain', 'P03', 500000, 2000000)],
    'P04': [('moni', 'plain', 'P04', 400000, 2000000)],
    'P05': [('moni', 'plain', 'P05', 500000, 2000000)],
    'P06': [('moni', 'plain', 'P06', 300000, 3000000)],
    'P07': [('moni', 'plain', 'P07', 800000, 10000000)],
    'P08': [('moni', 'plain', 'P08', 800000, 10000000)],
    'P09': [('moni', 'plain', 'P09', 800000, 10000000)],
    'P10': [('moni', 'plain', 'P10', 800000, 10000000)],
    'P11': [('moni', 'plain', 'P11', 240000, 2000000)],
    'P12': [('moni', 'plain', 'P12', 480000, 2000000)],
    'P13': [('moni', 'plain', 'P13', 500000, 4000000)],
    'P14': [('moni', 'plain', 'P14', 1000000, 10000000)],
    'P15': [('moni', 'plain', 'P15', 200000, 1000000)],
    'P16': [('monp', 'plain', 'P16', 5000, 60000), ('monp', 'tsan', 'P16', 900, 12000), ('monp', 'plain', 'P16c', 3000, 60000), ('monp', 'tsan', 'P16c', 800, 20000)],
    'P17': [('mont', 'plain', 'P17', 160000, 2000000)],
    'P18': [('mont', 'plain', 'P18', 16000, 400000)],
    'P19': [('mont', 'plain', 'P19', 30000, 500000)],
    'P20': [('monr', 'plain', 'P20', 100000, 2000000)],
    'P21': [('mona', 'asan', 'P21', 40000, 1500000), ('mona', 'ubc', 'P21', 40000, 1000000), ('mons', 'plain', 'P21', 60000, 3000000)],
    'P22': [('monh', 'plain', 'P22', 20000, 600000), ('moni', 'plain', 'P22', 180000, 1000000)],
    'P23': [('moni', 'plain', 'P23', 450000, 1000000)],
    'P24': [('monu', 'plain', 'P24', 60000, 1500000), ('monus', 'plain', 'P24', 20000, 1000000)],
    'P26': [('moni', 'plain', 'P26', 40000, 1000000)],
    'P27': [('mons', 'plain', 'P27', 20000, 600000)],
    'P25': [('monr', 'plain', 'P25', 900000, 20000000)],
}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3500',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'LSAN_OPTIONS': 'exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:hard_rss_limit_mb=3500:suppressions=' + os.path.join(H, 'tsan.supp'),
}


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.rules, self.samples, self.counts, self.viol, self.extra = [], [], {}, [], {}

    def add(self, d, label):
        self.evaluations += d['cases']
        self.distinct += d['distinct']
        self.extra['slowest_16_cases_s'] = round(max(self.extra.get('slowest_16_cases_s', 0), d.get('slowest', 0)), 3)
        if d['rule'] not in self.rules:
            self.rules.append(d['rule'])
        self.samples += d['samples'][:6]
        pre = label + ': ' if label else ''
        for k, v in d['counts'].items():
            self.counts[pre + k] = self.counts.get(pre + k, 0) + v
        for k in ('calls', 'checks'):
            kk = {'calls': 'library_calls_observed', 'checks': 'oracle_decisions'}[k]
            self.extra[kk] = self.extra.get(kk, 0) + d[k]


T0 = time.time()
QUICK_S = 780         # a quick check ends within 900 s even where everything is slow


def left(share):
    return max(20, min(240, (QUICK_S - (time.time() - T0)) * share))


def run_monitor(exe, prop, n, seed, tier, label, timeout, wrap=[], env=None):
    out = os.path.join(B, 'run-%s-%s-%d.json' % (prop, label or 'x', os.getpid()))
    env = dict(os.environ, **dict(SAN_ENV, **(env or {})))
    c = wrap + [exe, '--prop', prop, '--seed', str(seed), '--n', str(n), '--jobs', str(JOBS), '--hang', '60', '--out', out]
    if tier == 'thorough':
        c.append('--thorough')
    else:
        c += ['--max-seconds', '%d' % left(0.4)]
        timeout = max(60, QUICK_S + 60 - (time.time() - T0))
    try:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError('the monitor did not finish within %d s' % timeout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError('the monitor failed (%d): %s' % (r.returncode, r.stdout[-3000:]))
    d = json.loads(read(out).decode())
    os.unlink(out)
    return d


def crash_kind(c):
    e = c['stderr']
    m = re.search(r'(ERROR: \w+Sanitizer: [\w-]+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [\w -]+|terminate called[^\n]*|==\d+== [A-Z][^\n]*|MPFR assertion failed[^\n]*|GNU MP: [^\n]*)', e)
    return '%s%s' % (c['how'], ': ' + m.group(1)[:200] if m else '')


def replay_file(prop, line, note, run):
    d = os.path.join(V, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(line.encode()).hexdigest()[:12]
    p = os.path.join(d, '%s-%s.case' % (prop, h))
    with open(p, 'w') as f:
        f.write('# %s\n# re-run: python3 /verif/run.py %s --replay %s\n# run: %s\n%s\n' % (note.replace('\n', ' ')[:2000], prop, p, ' '.join(run), line))
    return p


def known_findings(prop):
    """lines 'finding: property=P key=<exact case line or call site>  # what fails'"""
    res = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in read(p).decode().splitlines():
            m = re.match(r'finding: property=(\S+) key=<<(.*)>> (.*)$', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def monitors(prop, tier, seed, res, b):
    for exe, variant, mp, nq, nt in RUNS.get(prop, []):
        if res.viol:
            break
        if variant == 'ubc' and not shutil.which('clang++'):
            continue
        try:
            path = b.exe(exe, variant)
        except BuildError as e:
            if variant == 'ubc':        # the library only promises to work with gcc
                res.counts['not run: clang does not compile the library'] = 1
                continue
            if prop == 'P24' and e.link:
                link_failure(prop, e, res, (exe, variant, mp))
                continue
            raise
        n = nq if tier == 'quick' else nt
        label = mp + ('-' + variant if variant != 'plain' else '') if (variant != 'plain' or mp != prop) else ''
        extra = {}
        for attempt in (0, 1, 2):
            try:
                d = run_monitor(path, mp, n, seed, tier, label, 800 if tier == 'quick' else 6 * 3600, env=extra)
            except CheckError as e:
                if prop != 'P24' or 'failed (-' not in str(e):
                    raise
                # the program ends before its main function
                res.rules.append('static initialisation of translation units that include the library')
                res.viol.append({'what': 'crash during static initialisation', 'case': 'static initialisation', 'detail': str(e)[:600], 'run': (exe, variant, mp)})
                return
            if not extra and any('LeakSanitizer has encountered a fatal error' in c['stderr'] for c in d['crashes']):
                # the leak checker cannot run here (no ptrace); the accounts of the heap remain
                extra = {'ASAN_OPTIONS': SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')}
                res.extra['leak_checker'] = 'not available in this environment'
                continue
            hung = [c for c in d['crashes'] if c['how'] == 'hang']
            confirmed = []

            def confirm(c):
                rf = replay_file(prop, c['case'], 'hang: ' + c['desc'], (exe, variant, mp))
                try:
                    r = subprocess.run([path, '--prop', mp, '--replay', rf], timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, **SAN_ENV))
                    return r.returncode != 0        # it ends, but not well
                except subprocess.TimeoutExpired:
                    return True
            with ThreadPoolExecutor(JOBS) as ex:
                confirmed = [c for c, bad in zip(hung, ex.map(confirm, hung)) if bad]
            if hung and not confirmed and not d['violations'] and all(c['how'] == 'hang' for c in d['crashes']):
                if attempt < 1:
                    continue
                raise CheckError('inconclusive: a call did not return within 60 s, but it does when repeated: ' + hung[0]['desc'])
            break
        res.add(d, label)
        if d['cases'] == 0 and not d['crashes']:
            raise CheckError('the monitor observed nothing')
        for v in d['violations']:
            res.viol.append({'what': v['what'], 'case': v['case'], 'detail': v['detail'], 'run': (exe, variant, mp)})
        for c in d['crashes']:
            if c['how'] == 'hang' and c not in confirmed:
                continue
            k = crash_kind(c)
            res.viol.append({'what': 'crash', 'case': c['case'], 'detail': k + ' in ' + c['desc'] + ' || ' + c['stderr'][:1500], 'run': (exe, variant, mp)})


SPECIAL = {}


def link_failure(prop, e, res, run):
    """P24: every unit compiled, but together they do not make a program"""
    d = os.path.join(V, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '-link.txt')
    with open(p, 'w') as f:
        f.write('# re-run: python3 /verif/run.py %s\n%s\n' % (prop, e.log))
    m = re.findall(r'(multiple definition of [^;\n]*|undefined reference to [^\n]*)', e.log)
    res.rules.append('linking translation units that include the library')
    res.viol.append({'what': 'link', 'case': 'link', 'detail': '; '.join(m[:3]) or e.log[:500], 'run': run, 'replay': p})


def logs(prefix):
    res = {}
    d = os.path.dirname(prefix)
    for n in sorted(os.listdir(d)):
        if n.startswith(os.path.basename(prefix) + '.'):
            res[n.rsplit('.', 1)[1]] = os.path.join(d, n)
    return res


LONG = ('digits', 'blanks', 'fraction digits', 'uncertain digits', 'hexadecimal digits', 'brackets')


def compare(res, tier, seed, b, builds, n, pre, what):
    """the same histories in several builds: everything seen must be the same"""
    quick = tier == 'quick'
    out, lines = [], 0
    for i, (variant, env) in enumerate(builds):
        path = b.exe('mons', variant)
        log = os.path.join(B, 'log%d-%d' % (i, os.getpid()))
        d = run_monitor(path, 'P21', n, seed, tier, 'P21-log', 7200, env=dict(env, VERIF_LOG=log))
        res.add(d, pre + variant)
        if pre == 'P21-':
            for v in d['violations']:
                res.viol.append({'what': v['what'], 'case': v['case'], 'detail': v['detail'], 'run': ('mons', variant, 'P21')})
        for c in d['crashes']:
            # a crash that only some builds show is a difference, too
            res.viol.append({'what': 'crash', 'case': c['case'], 'detail': crash_kind(c) + ' || ' + c['stderr'][:1500], 'run': ('mons', variant, 'P21')})
        out.append(logs(log))
    for i in range(1, len(out)):
        for k in sorted(out[0]):
            with open(out[0][k], errors='replace') as x, open(out[i].get(k, os.devnull), errors='replace') as y:
                for l0, l1 in zip(x, y):
                    lines += 1
                    if l0 != l1:
                        h, case, w = l0.rstrip('\n').split('\t')
                        res.viol.append({'what': what, 'case': case, 'detail': w + ' (%s, %s)' % (builds[0][0], builds[i][0]), 'run': ('mons', builds[i][0], 'P21')})
                        break
    for o in out:
        for f in o.values():
            os.unlink(f)
    return lines


def compilers(prop, tier, seed, res, b):
    """P24: the outcome of a history must not depend on how the files were compiled"""
    quick = tier == 'quick'
    if res.viol:
        return
    builds = [('plain', {})]
    for v in ('clang', 'gcc3') if quick else sorted(LIBVARIANT):
        try:
            b.exe('mons', v)
            builds.append((v, {}))
        except (BuildError, OSError):
            if v.startswith('gcc'):
                raise
            res.extra['not_compared'] = 'the library does not compile with ' + ' '.join(LIBVARIANT[v])
    n = compare(res, tier, seed + 3000, b, builds, 8000 if quick else 300000, 'P24-', 'outcome depends on the compiler or its options')
    res.counts['actions compared between compilers and options'] = n


def lives(prop, tier, seed, res, b):
    """P24: the same outcome in every phase of the life of a program"""
    quick = tier == 'quick'
    for variant, n in (('plain', 1500 if quick else 60000), ('asan', 400 if quick else 20000)):
        path = b.exe('life', variant)

        def small(asan=variant == 'asan'):
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (30, 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not asan:
                resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))

        def one(life):
            env = dict(os.environ, **dict(SAN_ENV, VERIF_LIFE=life))
            env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            for _ in range(2):
                try:
                    return subprocess.run([path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=60, env=env, preexec_fn=small)
                except subprocess.TimeoutExpired:
                    r = None
            return r
        r = one('all')
        if r is None or r.returncode:
            res.viol.append({'what': 'life', 'case': 'VERIF_LIFE=all', 'detail': 'fails: ' + (r.stderr[:600] if r else 'does not end'), 'run': ('life', variant, 'P24')})
            return
        want = dict(l.split('\t')[2:4] for l in r.stdout.splitlines())
        t = time.time()
        with ThreadPoolExecutor(JOBS) as ex:
            for i, r in enumerate(ex.map(lambda i: one(str(seed * 1000003 + i)) if not quick or time.time() - t < left(0.3) else False, range(n))):
                if r is False:
                    continue
                case = 'VERIF_LIFE=%d' % (seed * 1000003 + i)
                res.evaluations += 1
                phases = set()
                for l in r.stdout.splitlines() if r else []:
                    u, ph, k, seen = (l.split('\t') + [''] * 4)[:4]
                    key = 'actions in %s' % ph
                    res.counts[key] = res.counts.get(key, 0) + 1
                    phases.add((u, ph, k))
                    if seen != want.get(k):
                        res.viol.append({'what': 'outcome depends on the phase of the program', 'case': case, 'detail': '%s, %s: action %s gives %s but in main %s' % (u, ph, k, seen, want.get(k)), 'run': ('life', variant, 'P24')})
                        break
                if len(phases) > 3:
                    res.distinct += 1
                if r is None or r.returncode:
                    res.viol.append({'what': 'crash', 'case': case, 'detail': 'the program does not end' if r is None else 'exit code %d after %s: %s' % (r.returncode, r.stdout[-200:], r.stderr[:1200]), 'run': ('life', variant, 'P24')})
                if len(res.viol) > 8:
                    return


def configurations(prop, tier, seed, res, b):
    if not res.viol:
        lives(prop, tier, seed, res, b)
    compilers(prop, tier, seed, res, b)


SPECIAL['P24'] = configurations


def memory(prop, tier, seed, res, b):
    quick = tier == 'quick'
    if res.viol:
        return
    # uninitialised memory: what a history sees must not depend on what the memory contains
    n = compare(res, tier, seed + 1000, b, [('plain', {'MALLOC_PERTURB_': '0'}), ('init', {'MALLOC_PERTURB_': '165'})], 12000 if quick else 300000, 'P21-', 'outcome depends on the content of uninitialised memory')
    res.counts['actions compared between memory initialised in different ways'] = n
    # valgrind: use of uninitialised values, definite leaks
    if not res.viol and shutil.which('valgrind'):
        d = run_monitor(b.exe('mona'), 'P21', 400 if quick else 20000, seed + 2000, tier, 'P21-valgrind', 800 if quick else 4 * 3600,
                        wrap=['valgrind', '-q', '--error-exitcode=96', '--leak-check=full', '--errors-for-leak-kinds=definite'], env={'VERIF_TOLERANT': '1'})
        res.add(d, 'P21-valgrind')
        for v in d['violations']:
            res.viol.append({'what': v['what'], 'case': v['case'], 'detail': v['detail'], 'run': ('mona', 'plain', 'P21')})
        for c in d['crashes']:
            if c['how'] != 'hang':
                res.viol.append({'what': 'crash', 'case': c['case'], 'detail': 'valgrind: ' + crash_kind(c) + ' || ' + c['stderr'][:1500], 'run': ('mona', 'plain', 'P21')})
    if res.viol:
        return
    # long literals, each in a process of its own with the usual stack
    path = b.exe('longtext')

    def small_stack():
        import resource
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    jobs = [(k, n, st) for k in range(6) for n in (100, 3000, 200000) for st in (0, 1)]

    stuck = []

    def one(j):
        k, n, st = j
        if len(stuck) > 3:
            return None
        for _ in range(2):
            try:
                r = subprocess.run([path, str(k), str(n)] + ['s'] * st, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, preexec_fn=small_stack)
                if r.returncode in (-9, -24):
                    stuck.append(j)
                return r
            except subprocess.TimeoutExpired:
                continue
        stuck.append(j)
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            case = 'literal of %d %s, %s' % (j[1], LONG[j[0]], 'stream' if j[2] else 'constructor')
            if r is None:
                res.viol.append({'what': 'hang', 'case': case, 'detail': 'reading the literal does not end', 'run': ('longtext', 'plain', 'P21')})
            elif r.returncode < 0:
                res.viol.append({'what': 'crash', 'case': case, 'detail': 'reading the literal ends with signal %d' % -r.returncode, 'run': ('longtext', 'plain', 'P21')})
            res.evaluations += 1
            res.counts['long literals, each in its own process'] = res.counts.get('long literals, each in its own process', 0) + 1


SPECIAL['P21'] = memory


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        for tool in ('g++',):
            if not shutil.which(tool):
                raise CheckError('missing ' + tool)
        version_hpp()
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
            i += 2
        elif a[i] == '--replay':
            replay = a[i + 1]
            i += 2
        else:
            raise CheckError('unknown option ' + a[i])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    b = Build()
    if replay:
        m = re.search(r'^# run: (\S+) (\S+) (\S+)', read(replay).decode(), re.M)
        if not m:
            print(read(replay).decode(errors='replace')[:3000])
            return 1
        exe, variant, mp = m.groups()
        if exe == 'life':
            life = re.search(r'^VERIF_LIFE=(\w+)$', read(replay).decode(), re.M).group(1)
            subprocess.run([b.exe(exe, variant)], env=dict(os.environ, **dict(SAN_ENV, VERIF_LIFE='all')))
            return subprocess.run([b.exe(exe, variant)], env=dict(os.environ, **dict(SAN_ENV, VERIF_LIFE=life))).returncode
        if exe == 'longtext':
            n, kind, form = re.search(r'^literal of (\d+) (.*), (\w+)$', read(replay).decode(), re.M).groups()
            return subprocess.run([b.exe(exe), str(LONG.index(kind)), n] + ['s'] * (form == 'stream')).returncode
        return subprocess.run([b.exe(exe, variant), '--prop', mp, '--replay', replay], env=dict(os.environ, **SAN_ENV)).returncode
    res = Result()
    if prop not in RUNS and prop not in SPECIAL:
        raise CheckError('no check for ' + prop)
    monitors(prop, tier, seed, res, b)
    if prop in SPECIAL:
        SPECIAL[prop](prop, tier, seed, res, b)
    known, bad = known_findings(prop), []
    hit = set()
    for v in res.viol:
        k = [n for n, (key, _) in enumerate(known) if key in (v['case'], v['what'])]
        if k:
            hit.update(k)
        else:
            bad.append(v)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': dict({
            'evaluations': res.evaluations, 'distinct_nontrivial': res.distinct,
            'rule': ' | '.join(res.rules), 'samples': res.samples[:40], 'observed': res.counts}, **res.extra),
        'assumptions': ['the reference semantics in harness/ref.cpp (MPFR 4.2.1 at high precision, own rounding)', 'g++ 13 and its sanitizer runtimes'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    b.prune()
    for n, (key, what) in enumerate(known):
        if n in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    seen = {}
    for v in bad:
        k = (v['what'], v['case'].split(' ')[0])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2 or len(seen) > 12:
            continue
        p = v.get('replay') or replay_file(prop, v['case'], v['what'] + ': ' + v['detail'], v['run'])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('    %s: %s' % (v['what'], v['detail'][:600]))
    print('%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (prop, tier, res.evaluations, res.distinct, len(bad), time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('ERROR: %s\n%s' % (e, e.log[-4000:]))
        sys.exit(2)
    except CheckError as e:
        print('ERROR: %s' % e)
        sys.exit(2)

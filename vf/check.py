#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [--tier quick|thorough] [--only CONFIG] [--keep]
   or replays a reported violation:  check.py --replay FILE

Copies /repo's current sources to a scratch directory, compiles them with the property's harnesses to LLVM
bitcode, executes that symbolically with vsym, replays what the solver reports against a sanitizer build of the
same sources, and writes /verif/evidence/PROPERTY.json."""
import sys, os, signal, json, glob, subprocess, tempfile, shutil, time, re, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'vf'))
import props
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang' if os.path.exists(LLVM + 'clang') else 'clang'
NCPU = min(os.cpu_count() or 4, 8)
VSYM_SRC = [os.path.join(VERIF, 'vsym', f) for f in ('vsym.cpp', 'expr.cpp', 'exec.h', 'expr.h')]
VSYM = os.path.join(VERIF, 'build', 'vsym')


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise CheckError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def build_vsym():
    if os.path.exists(VSYM) and all(os.path.getmtime(VSYM) >= os.path.getmtime(s) for s in VSYM_SRC):
        return
    os.makedirs(os.path.dirname(VSYM), exist_ok=True)
    tmp = VSYM + '.%d' % os.getpid()
    objs = []
    def one(s):
        o = tmp + '.' + os.path.basename(s) + '.o'
        sh(['g++', '-O2', '-std=c++17', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-w', '-c', s, '-o', o])
        return o
    with cf.ThreadPoolExecutor(2) as ex:
        objs = list(ex.map(one, VSYM_SRC[:2]))
    sh(['g++'] + objs + ['-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
    for o in objs:
        os.unlink(o)
    os.rename(tmp, VSYM)


class Tree:
    """A copy of /repo's library sources with the generated files made anew."""
    def __init__(self, work):
        self.dir = os.path.join(work, 'src')
        for d in ('wdns', 'libmy', 'examples'):
            os.makedirs(os.path.join(self.dir, d))
            for f in os.listdir(os.path.join(REPO, d)):
                if f.endswith(('.c', '.h', '.h.in')) or f.startswith('gen_'):
                    shutil.copy(os.path.join(REPO, d, f), os.path.join(self.dir, d, f))
        ac = open(os.path.join(REPO, 'configure.ac')).read()
        mm = [re.search(r'define\(\[?wdns_%s_version\]?\s*,\s*\[?(\d+)' % k, ac) for k in ('major', 'minor', 'patchlevel')]
        ver = '.'.join(m.group(1) if m else '0' for m in mm)
        parts = ver.split('.')
        num = {'VERSION': ver, 'PACKAGE_VERSION': ver}
        src = open(os.path.join(self.dir, 'wdns', 'wdns.h.in')).read()
        def sub(m):
            n = m.group(1)
            if n in num:
                return num[n]
            if 'MAJOR' in n:
                return parts[0]
            if 'MINOR' in n:
                return parts[1]
            if 'PATCH' in n or 'MAINT' in n or 'MICRO' in n or 'REVISION' in n:
                return parts[2]
            if 'NUM' in n:
                return str(int(parts[0]) * 1000000 + int(parts[1]) * 1000 + int(parts[2]))
            return ver
        self.version = ver
        open(os.path.join(self.dir, 'wdns', 'wdns.h'), 'w').write(re.sub(r'@(\w+)@', sub, src))
        for g in ('rcode', 'rrclass', 'rrtype'):
            out = os.path.join(self.dir, 'wdns', g + '_to_str.c')
            if os.path.exists(out):
                os.unlink(out)
            sh([sys.executable, os.path.join(self.dir, 'wdns', 'gen_%s_to_str' % g),
                os.path.join(self.dir, 'wdns', 'wdns.h'), out])
        am = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
        self.lib = []
        for m in re.finditer(r'^\s*(?:nodist_)?wdns_libwdns_la_SOURCES\s*\+?=(.*)$', am, re.M):
            for f in m.group(1).split():
                if f.endswith('.c') and f not in self.lib and os.path.exists(os.path.join(self.dir, f)):
                    self.lib.append(f)
        if len(self.lib) < 20:
            raise CheckError('library source list not found in Makefile.am')

    def flags(self, s):
        d = self.dir
        inc = ['-include', os.path.join(VERIF, 'models', 'config.h'), '-I' + d + '/wdns', '-I' + d + '/libmy', '-I' + d, '-I' + VERIF + '/harness', '-std=gnu11', '-w']
        if s.startswith('models/') or s == 'harness/native.c':
            return inc[2:]
        return inc + ['-include', d + '/wdns/wdns-private.h']


BC = ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-fno-vectorize', '-fno-stack-protector', '-U_FORTIFY_SOURCE',
      '-D__NO_CTYPE', '-DVF_ENGINE=1', '-c', '-emit-llvm']
SAN = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'],
       'ubsan': ['-fsanitize=address,shift,signed-integer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
       'msan': ['-fsanitize=memory', '-fno-omit-frame-pointer'],
       'tsan': []}
# two-thread configurations: the compiler puts a call before each memory access, models/threads.c answers it
THR = ['-O0', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-D__NO_CTYPE', '-Dmemcpy=vf_t_memcpy', '-Dmemmove=vf_t_memmove', '-Dmemset=vf_t_memset', '-Dstrtok=vf_t_strtok'] + \
      ['-Dpthread_%s=vf_t_%s' % (x, x) for x in ('mutex_init', 'mutex_destroy', 'mutex_lock', 'mutex_trylock', 'mutex_unlock', 'once')]
WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'fopen', 'fclose', 'getline', '__getdelim')]


def src_path(tree, s):
    p = os.path.join(tree.dir, s)
    return p if os.path.exists(p) else os.path.join(VERIF, s)


class Builder:
    def __init__(self, work, tree):
        self.work, self.tree, self.ex, self.obj = work, tree, cf.ThreadPoolExecutor(NCPU), {}
        self.n = 0

    def comp(self, kind, s, defs):
        key = (kind, s, tuple(defs))
        if key not in self.obj:
            self.n += 1
            out = os.path.join(self.work, '%d.%s' % (self.n, 'bc' if kind in ('bc', 'bcthr') else 'o'))
            fl = BC if kind in ('bc', 'bcthr') else ['-g', '-O1', '-fno-builtin', '-U_FORTIFY_SOURCE', '-c'] + SAN[kind.replace('tsanthr', 'tsan')]
            if kind in ('bcthr', 'tsanthr'):
                fl = fl + THR
            self.obj[key] = self.ex.submit(lambda: (sh([CLANG] + fl + defs + self.tree.flags(s) + [src_path(self.tree, s), '-o', out]), out)[1])
        return self.obj[key]

    def sources(self, cfg):
        lib = list(self.tree.lib) if cfg.get('lib', True) else []
        drop = set(cfg.get('drop', ()))
        return [s for s in lib if s not in drop] + list(cfg.get('src', ()))

    def defs(self, cfg, tier):
        d = dict(cfg.get('defs', {}))
        d.update(cfg.get('tdefs', {}) if tier == 'thorough' else {})
        return ['-D%s=%s' % kv for kv in sorted(d.items())]

    def bitcode(self, cfg, tier):
        gd = ['-D%s=%s' % kv for kv in sorted(cfg.get('gdefs', {}).items())]
        thr = 'thr' if cfg.get('thr') else ''
        fs = [self.comp('bc' + thr, s, gd) for s in self.sources(cfg)] + [self.comp('bc', 'models/%s.c' % m, []) for m in ['libc'] + ['threads'] * bool(thr)] + \
             [self.comp('bc', 'harness/' + cfg['h'], gd + self.defs(cfg, tier))]
        out = os.path.join(self.work, cfg['name'] + '.all.bc')
        sh([LLVM + 'llvm-link'] + [f.result() for f in fs] + ['-o', out])
        fin = os.path.join(self.work, cfg['name'] + '.bc')
        sh([LLVM + 'opt', '-passes=internalize,globaldce,function(sroa,simplifycfg)', '--internalize-public-api-list=vf_main,vf_asm_crc32b,vf_asm_crc32w,vf_asm_crc32l,vf_asm_crc32q,vf_asm_cpuid', out, '-o', fin])
        return fin

    def native(self, cfg, tier, san):
        gd = ['-D%s=%s' % kv for kv in sorted(cfg.get('gdefs', {}).items())]
        out = os.path.join(self.work, cfg['name'] + '.' + san)
        if os.path.exists(out):
            return out
        thr = 'thr' if cfg.get('thr') else ''
        fs = [self.comp(san + thr, s, gd) for s in self.sources(cfg)] + [self.comp(san, 'harness/native.c', [])] + [self.comp(san, 'models/threads.c', [])] * bool(thr) + \
             [self.comp(san, 'harness/' + cfg['h'], gd + self.defs(cfg, tier))]
        sh([CLANG] + SAN[san] + [f.result() for f in fs] + WRAP + ['-o', out])
        return out


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=98:redzone=512:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0',
           MSAN_OPTIONS='exitcode=97:poison_in_malloc=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=96')


def run_native(exe, hexfile, timeout=20):
    try:
        p = subprocess.run([exe, hexfile], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return 'hang', [], 'no answer within %d s' % timeout
    obs = [l.split()[1] for l in p.stdout.splitlines() if l.startswith('OBS ')]
    rc = p.returncode
    tail = p.stdout.strip().splitlines()[-1:] or ['']
    what = {0: 'ok', 77: 'assume', 99: 'assert', 98: 'asan', 97: 'msan', 96: 'asan', 2: 'noinput'}.get(rc, 'crash %d' % rc)
    msg = tail[0] if rc in (0, 99) else ''
    m = re.search(r'ERROR: \w+Sanitizer: .*|WARNING: MemorySanitizer: .*|runtime error: .*|.*Assertion.*failed.*', p.stderr)
    if m:
        msg = m.group(0)[:300]
    fr = re.findall(r'#\d+ 0x\w+ in (\w+) \S*?/src/(\S+)', p.stderr)[:4]
    if fr:
        msg += ' in ' + ' < '.join('%s %s' % f for f in fr)
    return what, obs, msg


def spans(hexs):
    return hexs


def merge(outdir):
    R = {'errors': [], 'samples': [], 'witness': {}, 'unsup': {}, 'limits': {}, 'assert_sites': {}, 'functions': set(), 'procs': 0}
    for f in sorted(glob.glob(outdir + '/res.*.json')):
        r = json.load(open(f))
        R['procs'] += 1
        for k, v in r.items():
            if k in ('errors', 'samples'):
                R[k] += v
            elif k == 'functions':
                R[k] |= {(a, b) for a, b in v}
            elif isinstance(v, dict):
                for a, b in v.items():
                    R[k][a] = R[k].get(a, 0) + b
            elif k == 'maxdepth':
                R[k] = max(R.get(k, 0), v)
            elif isinstance(v, (int, float)):
                R[k] = R.get(k, 0) + v
    return R


def load_known():
    known = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m:
                known.append(m.groups())
    return known


def err_key(e):
    fn = e['loc'].split(' ')[0]
    return '%s|%s|%s' % (e['kind'], fn, e['msg'] if e['kind'] == 'assert' else '')


def run_cfg(B, prop, cfg, tier, log, seed):
    """symbolic run of one configuration, then replays; returns (record, violations)"""
    name = cfg['name']
    budget = cfg.get('tt', cfg.get('t', 60) * 6) if tier == 'thorough' else cfg.get('t', 60)
    bc = B.bitcode(cfg, tier)
    san = 'tsan' if cfg.get('thr') else 'ubsan' if cfg.get('ub') else 'asan'
    for s in B.sources(cfg):     # compile meanwhile
        B.comp(san + ('thr' if cfg.get('thr') else ''), s, ['-D%s=%s' % kv for kv in sorted(cfg.get('gdefs', {}).items())])
    od = os.path.join(B.work, 'o.' + name)
    os.makedirs(od)
    opts = ['--steps', str(cfg.get('steps', 4000000)), '--vallimit', str(cfg.get('vallimit', 300)), '--xcheck', str(cfg.get('xcheck', 997))]
    if cfg.get('ub'):
        opts += ['--shift', '--nsw']
    t0 = time.time()
    p = subprocess.Popen([VSYM, '-o', od, '-j', str(NCPU), '-t', str(budget), '--repo', B.tree.dir, '--seed', str(seed), '--grace', '8'] + opts + [bc],
                         stdout=open(os.path.join(od, 'log'), 'w'), stderr=subprocess.STDOUT, start_new_session=True)
    hard = False
    try:
        p.wait(timeout=budget + 40)
    except subprocess.TimeoutExpired:
        hard = True
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    p.stdout = open(os.path.join(od, 'log'), errors='replace').read()
    R = merge(od)
    wall = time.time() - t0
    if 'paths' not in R:
        if not hard:
            raise CheckError('vsym produced nothing for %s: %s' % (name, p.stdout[-2000:]))
        log('%s: no result within %d s' % (name, budget + 40))
        return {'config': name, 'bounds': cfg.get('bound', ''), 'complete': False, 'wall_s': round(wall, 1), 'paths': 0, 'forks': 0, 'assertions_checked': 0, 'incomplete_because': {'no result in time': 1}}, [], []
    if p.stdout.strip():
        log('vsym: ' + p.stdout.strip()[-1500:])
    complete = not R['limits'] and not R['unsup'] and not R['left'] and not R['limited'] and p.returncode == 0 and not R['z3_unk']
    if R['xbad']:
        raise CheckError('%s: the two decision procedures disagree on %d queries' % (name, R['xbad']))
    missing = [w for w in cfg.get('wit', []) if not R['witness'].get(w)]
    rec = {'config': name, 'bounds': cfg.get('bound', ''), 'complete': complete, 'wall_s': round(wall, 1), 'paths': R['paths'], 'forks': R['forks'],
           'assertions_checked': R['asserts'], 'assertions_symbolic': R['asserts_sym'], 'memory_accesses_checked': R['memchecks'],
           'instructions': R['steps'], 'decided_by_domain': R['q_dom'], 'decided_by_model': R['q_model'], 'z3_queries': R['q_z3'], 'z3_cached': R['q_cache'],
           'z3_sat': R['z3_sat'], 'z3_unsat': R['z3_unsat'], 'z3_unknown': R['z3_unk'], 'z3_seconds': round(R['z3_time'], 1),
           'crosschecked_with_z3': R['xcheck'], 'crosscheck_mismatches': R['xbad'], 'excluded_by_assumption': R.get('assumed_out', 0),
           'witnesses': R['witness'], 'max_fork_depth': R.get('maxdepth', 0)}
    if not complete:
        rec['incomplete_because'] = dict(R['limits'], **R['unsup'])
        if R['left']:
            rec['incomplete_because']['states left'] = R['left']
        if p.returncode:
            rec['incomplete_because']['vsym exit'] = p.returncode
    rec['functions'] = sorted({'%s (%s)' % (a, os.path.relpath(b, B.tree.dir)) for a, b in R['functions'] if b.startswith(B.tree.dir)})
    viol, unrep = [], []
    exe = B.native(cfg, tier, san)
    # the solver's counterexamples against the real build
    groups = {}
    for e in R['errors']:
        groups.setdefault((e['kind'], e['loc'], e['msg'] if e['kind'] == 'assert' else ''), []).append(e)
    order = sorted(groups.items(), key=lambda kv: (kv[0][0] == 'uninit', kv[0][0] == 'hang'))
    for i, (k, es) in enumerate(order[:24]):
        done = None
        for e in es[:3]:
            hf = os.path.join(B.work, 'e.hex')
            open(hf, 'w').write(e['in'] + '\n')
            what, obs, msg = run_native(exe, hf)
            if what in ('ok', 'assume') and e['kind'] in ('uninit', 'assert') and not cfg.get('thr'):
                what, obs, msg = run_native(B.native(cfg, tier, 'msan'), hf)
            if what not in ('ok', 'assume', 'noinput'):
                done = (e, what, msg)
                break
        if done:
            viol.append(done)
        else:
            unrep.append('%s %s %s input %s' % (es[0]['kind'], es[0]['loc'], es[0]['msg'], es[0]['in']))
        if len(viol) >= 6:
            break
    if unrep:
        rec['not_reproduced'] = unrep
        log('NOT REPRODUCED by the real build (%s): %s' % (name, '; '.join(unrep[:3])))
    # a sample of explored paths: the real build must do what the symbolic run predicted
    rnd = R['samples']
    step = max(1, len(rnd) // cfg.get('nsample', 24))
    rnd = rnd[(seed % step)::step][:cfg.get('nsample', 24)]
    agreed, mism, shown = 0, [], []
    def one(i):
        hf = os.path.join(B.work, 's.%s.%d.hex' % (name, i))
        open(hf, 'w').write(rnd[i]['in'] + '\n')
        return run_native(exe, hf)
    for i, (what, obs, msg) in enumerate(B.ex.map(one, range(len(rnd)))):
        if what == 'ok' and obs == rnd[i]['obs']:
            agreed += 1
            if len(shown) < 2:
                shown.append({'config': name, 'input': rnd[i]['in'], 'observed': obs[:16]})
        elif what in ('assert', 'asan', 'msan', 'ubsan') or what.startswith('crash'):
            viol.append(({'kind': 'replay-' + what, 'loc': '', 'msg': msg, 'in': rnd[i]['in'], 'stack': []}, what, msg))
        else:
            mism.append({'input': rnd[i]['in'], 'native': what, 'native_obs': obs[:16], 'engine_obs': rnd[i]['obs'][:16]})
    rec['paths_replayed_natively'], rec['replays_agreeing'] = len(rnd), agreed
    if mism:
        rec['replays_disagreeing'] = mism[:3]
        log('ENGINE/NATIVE DISAGREEMENT in %s: %s' % (name, json.dumps(mism[:2])))
    if missing:
        rec['situations_not_reached'] = missing
    if not viol and (missing or not R['paths']) and not complete and R['limits']:
        log('%s: out of time before everything was reached: %s' % (name, missing))
        return rec, viol, shown
    if not viol and missing:
        raise CheckError('%s: situations the harness must reach were not reached: %s %s' % (name, missing, rec.get('incomplete_because', '')))
    if not viol and not R['paths']:
        raise CheckError('%s: no path was explored to its end %s' % (name, rec.get('incomplete_because', '')))
    return rec, viol, shown


def cbmc_start(B, cfg, tier):
    """starts CBMC on one configuration; the configurations of a property run side by side"""
    d = B.defs(cfg, tier) + ['-D%s=%s' % kv for kv in sorted(cfg.get('gdefs', {}).items())]
    fl = ['-DVF_CBMC', '-I' + VERIF + '/models', '-I' + B.tree.dir + '/wdns', '-I' + B.tree.dir + '/libmy', '-I' + B.tree.dir, '-I' + VERIF + '/harness']
    srcs = [src_path(B.tree, s) for s in B.sources(dict(cfg, lib=cfg.get('lib', False)))]
    opts = cfg.get('opts', []) + (cfg.get('topts', []) if tier == 'thorough' else cfg.get('qopts', []))
    cmd = ['cbmc', os.path.join(VERIF, 'harness', cfg['h'])] + srcs + d + fl + ['--drop-unused-functions', '--no-malloc-may-fail', '--unwinding-assertions', '--trace', '--json-ui'] + opts
    f = open(os.path.join(B.work, 'cbmc.%s.json' % cfg['name']), 'w+')
    return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT), f, time.time()


def cbmc_stop(running):
    for p, f, _ in running.values():
        if p.poll() is None:
            p.kill()
            p.wait()
        f.close()


def cbmc_cfg(B, prop, cfg, tier, log, running):
    """bounded model checking with CBMC of one configuration"""
    name = cfg['name']
    budget = cfg.get('tt', cfg.get('t', 60) * 6) if tier == 'thorough' else cfg.get('t', 60)
    p, f, t0 = running[name]
    try:
        p.wait(timeout=max(1, t0 + budget - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {'config': name, 'bounds': cfg.get('bound', ''), 'complete': False, 'incomplete_because': 'no answer in %d s' % budget, 'wall_s': budget, 'obligations': 0, 'discharged': 0, 'witnesses': {}}, [], []
    f.seek(0)
    out = f.read()
    try:
        J = json.loads(out)
    except Exception:
        raise CheckError('%s: cbmc output not understood: %s' % (name, out[-2000:]))
    res, secs, status, progs, vcc = [], 0.0, '', '', 0
    for j in J:
        if 'result' in j:
            res = j['result']
        if 'cProverStatus' in j:
            status = j['cProverStatus']
        m = re.search(r'Runtime (?:decision procedure|Solver): ([\d.]+)s', j.get('messageText', '') or '')
        if m:
            secs += float(m.group(1))
        m = re.search(r'Generated (\d+) VCC', j.get('messageText', '') or '')
        if m:
            vcc = int(m.group(1))
        if j.get('messageType') == 'ERROR':
            raise CheckError('%s: cbmc: %s' % (name, j.get('messageText')))
    if not res:
        raise CheckError('%s: cbmc gave no result: %s' % (name, out[-1500:]))
    wit = [r for r in res if 'WITNESS' in r.get('description', '')]
    real = [r for r in res if 'WITNESS' not in r.get('description', '')]
    bad = [r for r in real if r['status'] == 'FAILURE']
    unw = [r for r in bad if 'unwinding assertion' in r.get('description', '') or 'recursion' in r.get('description', '')]
    bad = [r for r in bad if r not in unw]
    missing = [w['description'] for w in wit if w['status'] != 'FAILURE']
    rec = {'config': name, 'bounds': cfg.get('bound', ''), 'complete': not unw, 'wall_s': round(time.time() - t0, 1), 'obligations': len(real),
           'discharged': len([r for r in real if r['status'] == 'SUCCESS']), 'vccs': vcc, 'solver_seconds': round(secs, 2), 'engine': 'cbmc',
           'witnesses': {w['description']: int(w['status'] == 'FAILURE') for w in wit}, 'command': ' '.join(p.args).replace(B.tree.dir, '/repo')}
    if unw:
        rec['incomplete_because'] = [r['description'] for r in unw]
    viol, shown = [], []
    for r in bad[:20]:
        # the inputs of the trace, in the order the harness drew them
        vals = []
        for s in r.get('trace', []):
            if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_in_byte' and s.get('sourceLocation', {}).get('function') == 'vf_u8' and s.get('assignmentType') != 'actual-parameter':
                try:
                    vals.append(int(s['value'].get('data', '0')) & 255 if 'data' in s['value'] else int(s['value']['binary'], 2))
                except Exception:
                    pass
        hexs = ''.join('%02x' % v for v in vals)
        e = {'kind': 'cbmc', 'loc': '%s (%s:%s)' % (r.get('sourceLocation', {}).get('function', '?'), r.get('sourceLocation', {}).get('file', '?'), r.get('sourceLocation', {}).get('line', '?')),
             'msg': r['description'], 'in': hexs, 'stack': []}
        what, msg = 'model', r['description']
        ok = True
        if cfg.get('replay'):
            exe = B.native(dict(cfg, h=cfg['replay'], lib=cfg.get('lib', False)), tier, 'ubsan' if cfg.get('ub') else 'asan')
            hf = os.path.join(B.work, 'e.hex')
            open(hf, 'w').write(hexs + '\n')
            for _ in range(cfg.get('tries', 1)):
                what, obs, msg = run_native(exe, hf)
                if what not in ('ok', 'assume', 'noinput'):
                    break
            ok = what not in ('ok', 'assume', 'noinput')
        if ok or cfg.get('noreplay'):
            e['trace'] = [(s.get('thread'), s.get('lhs'), (s.get('value') or {}).get('data')) for s in r.get('trace', []) if s.get('stepType') == 'assignment' and not s.get('hidden')][:400]
            viol.append((e, what, msg))
            break
        else:
            rec.setdefault('not_reproduced', []).append('%s input %s' % (r['description'], hexs))
            log('NOT REPRODUCED by the real build (%s): %s' % (name, rec['not_reproduced'][-1]))
    if missing and not viol:
        raise CheckError('%s: witnesses not reached: %s' % (name, missing))
    return rec, viol, shown


def main():
    errors = []
    a = sys.argv[1:]
    keep = '--keep' in a
    only = a[a.index('--only') + 1].split(',') if '--only' in a else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    replay = a[a.index('--replay') + 1] if '--replay' in a else None
    if replay:
        m = re.search(r'# property (\S+) config (\S+) tier (\S+)', open(replay).read())
        prop, cname, tier = m.groups()
    else:
        prop = a[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vf.%s.' % prop)
    rc = 0
    running = {}
    def log(s):
        print(s, flush=True)
    try:
        build_vsym()
        B = Builder(work, Tree(work))
        if replay:
            cfg = [c for c in P['configs'] if c['name'] == cname][0]
            h = os.path.join(work, 'in.hex')
            open(h, 'w').write([l for l in open(replay).read().splitlines() if not l.startswith('#')][0] + '\n')
            c = dict(cfg, h=cfg.get('replay', cfg['h']), lib=cfg.get('lib', cfg.get('engine') != 'cbmc'))
            for san in ['tsan'] if cfg.get('thr') else ['ubsan' if cfg.get('ub') else 'asan', 'msan']:
                r = run_native(B.native(c, tier, san), h)
                print(san, r[0], r[2])
                if r[0] not in ('ok', 'assume'):
                    rc = 1
            return rc
        known = [k for k in load_known() if k[0] == prop]
        recs, viols, samples, seen_known = [], [], [], set()
        cfgs = [c for c in P['configs'] if (not only or c['name'] in only) and not (c.get('thorough') and tier != 'thorough' and not only)]
        running.update((c['name'], cbmc_start(B, c, tier)) for c in cfgs if c.get('engine') == 'cbmc')
        for cfg in cfgs:
            try:
                rec, v, smp = (cbmc_cfg(B, prop, cfg, tier, log, running) if cfg.get('engine') == 'cbmc' else run_cfg(B, prop, cfg, tier, log, seed))
            except CheckError as ex:
                errors.append(str(ex))
                print('CHECK ERROR: %s' % ex, flush=True)
                continue
            recs.append(rec)
            samples += smp
            fresh = []
            for e, what, msg in v:
                k = [x for x in known if x[1] in (err_key(e), cfg['name'] + ':' + err_key(e))]
                if k:
                    seen_known.add(k[0])
                else:
                    fresh.append((e, what, msg))
            log('%s %-18s %s %5.1fs  paths %s  asserts %s  z3 %s%s' % (prop, rec['config'], 'complete  ' if rec['complete'] else 'INCOMPLETE', rec['wall_s'],
                rec.get('paths', '-'), rec.get('assertions_checked', rec.get('obligations')), rec.get('z3_queries', '-'),
                '' if rec['complete'] else '  ' + str(rec.get('incomplete_because'))[:200]))
            viols += [(cfg, x) for x in fresh]
            if viols and tier == 'quick' and not os.environ.get('VF_ALL'):
                break
        for k in sorted(seen_known):
            log('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
        for i, (cfg, (e, what, msg)) in enumerate(viols):
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%s-%d.hex' % (prop, cfg['name'], i))
            with open(rp, 'w') as f:
                f.write('%s\n# property %s config %s tier %s\n# %s at %s: %s\n# real build: %s %s\n' % (e['in'], prop, cfg['name'], tier, e['kind'], e['loc'], e['msg'], what, msg))
                for s in e.get('stack', [])[:12]:
                    f.write('#   %s\n' % s)
                for s in e.get('trace', []):
                    f.write('#   %s\n' % (s,))
            log('  %s at %s: %s\n    real build: %s %s\n    input %s' % (e['kind'], e['loc'].replace(B.tree.dir, ''), e['msg'], what, msg.replace(B.tree.dir, ''), e['in'][:200]))
            log('VIOLATION property=%s replay=%s' % (prop, rp))
            rc = 1
        if errors and not rc:
            rc = 2
        cov = evidence(prop, P, tier, seed, recs, samples, viols, seen_known, time.time() - t0)
    except CheckError as ex:
        print('CHECK ERROR: %s' % ex, flush=True)
        rc = 2
    finally:
        cbmc_stop(running)
        if keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def evidence(prop, P, tier, seed, recs, samples, viols, seen_known, wall):
    sym = [r for r in recs if 'paths' in r]
    cb = [r for r in recs if r.get('engine') == 'cbmc' or 'obligations' in r]
    fn = sorted({f for r in sym for f in r.pop('functions', [])})
    S = lambda k, rs=sym: sum(r.get(k, 0) for r in rs)
    cov = {'configurations': recs, 'functions_encoded': fn, 'exhaustive': all(r['complete'] for r in recs),
           'bounds_discharged': [r['config'] + ': ' + str(r['bounds']) for r in recs if r['complete']],
           'bounds_not_discharged': [r['config'] + ': ' + str(r['bounds']) for r in recs if not r['complete']],
           'samples': samples[:12] or [{'note': 'no path sampled'}]}
    if sym:
        cov.update({'states': S('paths') + S('forks'), 'transitions': S('instructions'), 'traces_validated_against_impl': S('replays_agreeing'),
                    'solver_decisions': {'finite_domain': S('decided_by_domain'), 'path_model': S('decided_by_model'), 'z3': S('z3_queries'), 'z3_cache': S('z3_cached'), 'z3_seconds': round(S('z3_seconds'), 1),
                                         'crosschecked': S('crosschecked_with_z3')}, 'assertions_checked': S('assertions_checked'), 'memory_accesses_checked': S('memory_accesses_checked')})
    level = P.get('level', 'model_checking')
    if cb:
        cov.update({'cbmc_obligations': S('obligations', cb), 'cbmc_discharged': S('discharged', cb), 'cbmc_solver_seconds': round(S('solver_seconds', cb), 2)})
        cov['explanation'] = 'CBMC bounded model checking of the real C sources with unwinding assertions; every obligation is decided by its SAT back end for all inputs (and interleavings) within the bounds listed per configuration.'
        if not sym:
            level = 'other'
            cov['samples'] = [{'config': r['config'], 'command': r.get('command', '')[:400]} for r in cb]
    cov['states_are'] = 'symbolic path states: paths explored to their end plus forks; transitions: instructions executed symbolically'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': props.ASSUME + P.get('assume', []), 'wall_s': round(wall, 1), 'violations': len(viols)}
    if seen_known:
        cov['known_findings_seen'] = [k[2] for k in seen_known]
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(d, prop + '.json'))
    return cov


if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        build_vsym()
        print('vsym built')
        sys.exit(0)
    sys.exit(main())

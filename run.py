#!/usr/bin/env python3
"""Runs one property check:  run.py check <ID> [--tier quick|thorough] [--seed N]
                             run.py replay <ID> <variant> <section> <index> <seed>
                             run.py list
Compiles the property's driver against the CURRENT /repo/strtk.hpp, runs its
monitored sections in parallel shards, judges crashes, sanitizer reports, hangs
and oracle mismatches, and rewrites evidence/<ID>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import argparse, concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 8))
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:max_allocation_size_mb=1024:'
                    'detect_stack_use_after_return=0:strict_string_checks=0:handle_abort=1:symbolize=1:malloc_context_size=8',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
}
COMMON = ['-w', '-I', REPO, '-I', os.path.join(HERE, 'harness'), '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-pthread']
VARIANTS = {
    # -fno-sanitize=alignment: the library performs unaligned word accesses by design (x86)
    # -O0: no undefined access is optimised away before the sanitizer sees it (and it compiles quickly)
    'asan': ['clang++', '-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
    'asan1': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
              '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-DVH_VARIANT_asan'],
    'plain': ['g++', '-O2'],
    'tsan': ['clang++', '-O0', '-g1', '-fsanitize=thread'],
    'valgrind': ['g++', '-O1', '-g'],
}


def log(*a):
    print(*a, flush=True)


def compile_driver(chk, variant, tmp):
    out = os.path.join(tmp, 'drv_' + variant)
    if '@' in variant:  # the driver of another property, in this build variant
        variant, sub = variant.split('@')
        skip = chk.get('skip', {}).get(sub)
        chk = dict(CHECKS[sub], cflags=CHECKS[sub].get('cflags', []) + ['-DVH_THREADS=4'] + (['-DVH_SKIP=" %s "' % skip] if skip else [])) if sub in CHECKS and CHECKS[sub] is not chk else chk
    v = variant.split('+')
    cmd = list(VARIANTS[v[0]]) + ['-std=' + chk.get('std', 'c++14')] + COMMON
    cmd += ['-DVH_VARIANT_' + v[0]]
    for extra in v[1:]:
        cmd += ['-D' + extra]
    cmd += chk.get('cflags', [])
    src = os.path.join(HERE, 'drivers', chk['driver'])
    parts = chk.get('parts', 1)
    if parts == 1:
        p = subprocess.run(cmd + [src, '-o', out] + chk.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
    else:  # one driver, its sections spread over several objects compiled in parallel
        def obj(i):
            return subprocess.run(cmd + ['-DVH_PART=%d' % i, '-c', src, '-o', '%s.%d.o' % (out, i)], stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, errors='replace')
        with cf.ThreadPoolExecutor(parts) as ex:
            rs = list(ex.map(obj, range(parts)))
        p = next((r for r in rs if r.returncode), None)
        if p is None:
            p = subprocess.run(cmd + ['%s.%d.o' % (out, i) for i in range(parts)] + ['-o', out] + chk.get('libs', []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        errs = [x for x in p.stdout.splitlines() if 'error' in x]
        log('COMPILE-ERROR %s\n%s' % (variant, '\n'.join(errs[:25]) or p.stdout[-4000:]))
        return None
    return out


def run_proc(argv, tmp, timeout, cwd, env_extra=None):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env['LC_ALL'] = 'C'
    env['VH_TMP'] = cwd
    env['VH_REPO'] = REPO
    if env_extra:
        env.update(env_extra)
    errf = tempfile.TemporaryFile(dir=tmp)
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdout=errf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    timed_out = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    errf.seek(0, 2)
    size = errf.tell()
    errf.seek(max(0, size - 200000) if size > 400000 else 0)
    txt = errf.read().decode('utf-8', 'replace')
    errf.close()
    return p.returncode, txt, timed_out


def read_cur(path):
    try:
        b = open(path, 'rb').read()
        idx, _prog = struct.unpack('<QQ', b[:16])
        sec = b[16:136].split(b'\0')[0].decode()
        note = b[136:136 + 1024].split(b'\0')[0].decode('utf-8', 'replace')
        return sec, idx, note
    except Exception:
        return None


class Shard:
    pass


def shard_cmd(exe, variant, seed, shard, shards, scale, base, out, cur, hang, section=None, index=None):
    a = [exe, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards), '--scale', repr(scale),
         '--base', str(base), '--hang', str(hang)]
    if out:
        a += ['--out', out]
    if cur:
        a += ['--cur', cur]
    if section is not None:
        a += ['--section', section]
    if index is not None:
        a += ['--index', str(index)]
    if variant.startswith('valgrind'):
        a = ['valgrind', '-q', '--error-exitcode=66', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no',
             '--max-stackframe=8000000', '--num-callers=16'] + a
    return a


def excerpt(txt):
    keep = []
    for pat in (r'(?:ERROR|WARNING): \w+Sanitizer.*', r'runtime error:.*', r'.*SUMMARY:.*', r'VH-[A-Z]+.*', r'terminate called.*', r'==\d+== .*'):
        keep += re.findall(pat, txt)
    i = max(txt.find('Sanitizer'), 0)
    return '\n'.join(keep[:20]) + '\n---- output ----\n' + txt[max(0, i - 2000):i + 8000][:10000]


def load_known(pid):
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def run_variant(pid, chk, variant, exe, seed, scale, base, shards, tmp, timeout, hang):
    """returns (list of shard results, violations, errors)"""
    viol, errs, results = [], [], []

    def one(k):
        d = os.path.join(tmp, '%s_%d' % (variant, k))
        os.makedirs(d, exist_ok=True)
        out = os.path.join(tmp, '%s_%d.json' % (variant, k))
        cur = os.path.join(tmp, '%s_%d.cur' % (variant, k))
        argv = shard_cmd(exe, variant, seed, k, shards, scale, base, out, cur, hang)
        for attempt in range(2):
            if os.path.exists(out):
                os.unlink(out)
            rc, txt, to = run_proc(argv, tmp, timeout, d)
            if rc in (0, 1) and os.path.exists(out):
                return ('ok', k, json.load(open(out)), out + '.sig', txt)
            where = read_cur(cur)
            if where is None:
                continue
            sec, idx, note = where
            # crash / hang / kill: confirm on the single case
            a2 = shard_cmd(exe, variant, seed, 0, 1, 1.0, 0, None, None, max(60, hang * 3), sec, idx)
            rc2, txt2, to2 = run_proc(a2, tmp, 400, d)
            hung = rc2 == 97 or to2
            if rc2 == 1 or hung or (rc2 not in (0, 2, -9)):
                kind = 'hang' if hung else ('oracle' if rc2 == 1 else 'crash')
                return ('viol', k, dict(kind=kind, section=sec, index=idx, key=sec, note=note,
                                        msg='%s (exit %s)' % (kind, rc2), out=excerpt(txt2)), None, txt2)
            # Not reproduced alone: sanitizer reports in a sequence of cases are still real
            if rc == 66 or (rc is not None and rc < 0 and rc not in (-9, -15)) or rc == 134:
                if attempt == 1:
                    return ('viol', k, dict(kind='crash', section=sec, index=idx, key=sec, note=note,
                                            msg='crash in a run of cases (exit %s), not reproduced by the single case' % rc,
                                            out=excerpt(txt)), None, txt)
            # timeouts, kills: retry once
        return ('err', k, 'shard gave no result: exit %s timeout %s\n%s' % (rc, to, txt[-2000:]), None, txt)

    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        for r in ex.map(one, range(shards)):
            if r[0] == 'ok':
                results.append(r)
                for f in r[2]['failures']:
                    viol.append(dict(kind='oracle', section=f['section'], index=f['index'], key=f['key'], msg=f['msg'],
                                     note='', out=''))
            elif r[0] == 'viol':
                viol.append(r[2])
            else:
                errs.append(r[2])
    for v in viol:
        v['variant'] = variant
        v['seed'] = seed
    return results, viol, errs


def check(pid, tier, seed):
    t0 = time.time()
    chk = CHECKS[pid]
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix='vh_%s_' % pid)
    try:
        return check_in(pid, chk, tier, seed, known, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(pid, chk, tier, seed, known, tmp, t0):
    plan = chk[tier] if tier in chk else chk['quick']
    # plan: list of (variant, scale, extra seeds)
    variants = [p[0] for p in plan]
    exes = {}
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        futs = {v: ex.submit(compile_driver, chk, v, tmp) for v in dict.fromkeys(variants)}
        pre = None
        if 'pre' in chk:  # build the programs of the repository the driver executes
            pre = ex.submit(build_programs, chk['pre'], tmp)
        exes = {v: f.result() for v, f in futs.items()}
        if pre is not None and not pre.result():
            log('ERROR property=%s: building programs failed' % pid)
            return 2
    if any(e is None for e in exes.values()):
        log('ERROR property=%s: driver does not compile against %s' % (pid, REPO))
        return 2
    all_viol, errs = [], []
    evals, sections, events, samples, sigs, per_variant = 0, {}, {}, [], set(), {}
    hang = chk.get('hang', 20)
    for n, p in enumerate(plan):
        variant, scale = p[0], p[1]
        rounds = p[2] if len(p) > 2 else 1
        shards = chk.get('shards', JOBS)
        if variant.startswith('valgrind'):
            shards = JOBS
        for rnd in range(rounds):
            base = (n * 64 + rnd) * 10000000  # every plan entry explores different cases
            tmo = chk.get('timeout', 420 if tier == 'quick' else 3000)
            res, viol, er = run_variant(pid, chk, variant, exes[variant], seed, scale, base, shards, tmp, tmo, hang * (8 if variant.startswith('valgrind') else 1))
            for v in viol:
                all_viol.append(v)
            errs += er
            ve = 0
            for r in res:
                d = r[2]
                evals += d['evaluations']
                ve += d['evaluations']
                for k, c in d['sections'].items():
                    sections[k] = sections.get(k, 0) + c
                for k, c in d['events'].items():
                    events[k] = events.get(k, 0) + c
                if r[1] == 0:
                    samples += [s for s in d['samples'] if len(samples) < 40]
                with open(r[3], 'rb') as f:
                    b = f.read()
                sigs.update(struct.unpack('<%dQ' % (len(b) // 8), b))
            per_variant[variant] = per_variant.get(variant, 0) + ve
            if any(v['key'] not in known for v in viol) or errs:
                break
        if any(v['key'] not in known for v in all_viol) or errs:
            break
    new = [v for v in all_viol if v['key'] not in known]
    seen_known = sorted({v['key'] for v in all_viol if v['key'] in known})
    for k in sorted(known):
        log('KNOWN-FINDING: property=%s %s%s' % (pid, known[k], '' if k in seen_known else ' (not reached in this run)'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(sigs), 'rule': chk['rule'],
            'samples': samples or ['none'],
            'monitored_events': events, 'cases_per_section': sections, 'cases_per_build_variant': per_variant,
            'build_variants': {v: ' '.join(VARIANTS[v.split('@')[0].split('+')[0]]) + ' ' + ' '.join(v.split('+')[1:]) for v in per_variant},
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        v = new[0]
        rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            for v in new[:8]:
                f.write('property=%s variant=%s section=%s index=%s seed=%s kind=%s key=%s\n%s\n' % (
                    pid, v['variant'], v['section'], v['index'], v['seed'], v['kind'], v['key'], v['msg']))
                if v.get('note'):
                    f.write('note: %s\n' % v['note'])
                f.write('reproduce: python3 %s/run.py replay %s %s %s %s %s\n' % (
                    HERE, pid, v['variant'], v['section'], v['index'], v['seed']))
                f.write((v.get('out') or '') + '\n\n')
        for v in new[:4]:
            log('  %s/%s#%s [%s]: %s' % (v['variant'], v['section'], v['index'], v['kind'], v['msg'][:600]))
            if v.get('out'):
                log('    ' + v['out'][:900].replace('\n', '\n    '))
        log('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errs:
        for e in errs[:3]:
            log('ERROR property=%s: %s' % (pid, e[-1500:]))
        return 2
    missing = [e for e in chk.get('require_events', []) if not events.get(e)]
    if missing:
        log('ERROR property=%s: monitors never observed %s' % (pid, missing))
        return 2
    log('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (pid, tier, seed, evals, len(sigs), time.time() - t0))
    return 0


def build_programs(progs, tmp):
    """compile repository command line programs (instrumented) into tmp/bin"""
    b = os.path.join(tmp, 'bin')
    os.makedirs(b, exist_ok=True)

    def one(p):
        cmd = list(VARIANTS['asan']) + ['-std=c++11'] + COMMON + [os.path.join(REPO, p + '.cpp'), '-o', os.path.join(b, p)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            log(r.stdout[-3000:])
        return r.returncode == 0
    os.environ['VH_BIN'] = b
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        return all(ex.map(one, progs))


def replay(pid, variant, section, index, seed):
    chk = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix='vh_replay_')
    try:
        if 'pre' in chk and not build_programs(chk['pre'], tmp):
            return 2
        exe = compile_driver(chk, variant, tmp)
        if not exe:
            return 2
        rc, txt, to = run_proc(shard_cmd(exe, variant, seed, 0, 1, 1.0, 0, None, None, 60, section, index), tmp, 600, tmp)
        log(txt)
        log('exit', rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'list'])
    ap.add_argument('args', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    if a.cmd == 'list':
        print(' '.join(CHECKS))
        return 0
    if a.cmd == 'replay':
        return replay(a.args[0], a.args[1], a.args[2], int(a.args[3]), int(a.args[4]))
    return check(a.args[0], a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""usage: tools/mutants.py MUTANTS.jsonl RESULTS.jsonl [WORKERS]
Each mutant {"id", "edits": [[file, old, new]...], "checks": [..]} is put in a scratch copy of /repo that is shown as /repo in a mount
namespace of its own; it is tested, and if the stable tests pass the checks are run one after another (in a copy of /verif) until one
reports it. RESULTS gets {"id", "result": invalid | killed by tests | caught | survived, "by", "seconds"}; ids in it are not run again."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVERY = os.environ.get('EVERY', '40 1').split()
PY = '/opt/venv-pypy/bin/python'


def sh(cmd, timeout, **env):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, start_new_session=True,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 'timeout', ''
    return p.returncode, out


def work(work_dir, mutants, results):
    w = tempfile.mkdtemp(prefix='w', dir=work_dir)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    os.mkdir(w + '/v')
    subprocess.check_call(['cp', '-a', work_dir + '/v/mc', work_dir + '/v/check.sh', work_dir + '/v/known_findings.txt', w + '/v'])
    for d in ('evidence', 'replays'):
        os.mkdir(w + '/v/' + d)
    subprocess.check_call(['mount', '--bind', w + '/r', '/repo'])
    for m in mutants:
        try:
            os.close(os.open(os.path.join(work_dir, 'claim-' + m['id'].replace('/', '_')), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '-f', '.'])
        start, result, by = time.time(), None, ''
        for f, old, new in m['edits']:
            text = open('/repo/' + f).read()
            if old is None:     # the whole file
                text, old = 'x', 'x'
            if text.count(old) != 1:
                result, by = 'invalid', '%d times: %s' % (text.count(old), old)
            open('/repo/' + f, 'w').write(text.replace(old, new))
        if not result and m.get('test', True):
            # all tests of this repository are stable
            rc, out = sh([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-W', 'ignore', '/repo/tests'], 60, PYTHONPATH='/repo/src')
            if rc:
                result = 'killed by tests'
        ran = []
        # a part of the cases first, because that's enough for most
        for c, every in [(c, e) for e in EVERY for c in m['checks']] if not result else ():
            t = time.time()
            rc, out = sh([w + '/v/check.sh', c, os.environ.get('TIER', 'quick')], 900, MC_PROCS='1' if not os.environ.get('PROCS') else os.environ['PROCS'],
                         MC_EVERY=every)
            ran.append('%s %ds' % (c, time.time() - t))
            if rc == 1 and 'VIOLATION' in out:
                result, by = 'caught', c
                line = out.strip().splitlines()
                m['says'] = ' / '.join(x for x in line if not x.startswith(c))[-400:]
                break
            if rc != 0:
                result, by = 'broken check', c + ': %s ' % rc + out[-300:]
                break
        with open(results, 'a') as f:
            f.write(json.dumps(dict(((k, v) for k, v in m.items() if k != 'edits'), result=result or 'survived', by=by, ran=ran, seconds=round(time.time() - start))) + '\n')
    subprocess.call(['umount', '/repo'])


if sys.argv[1] == '--worker':
    work(sys.argv[2], json.load(open(sys.argv[2] + '/mutants')), sys.argv[3])
else:
    mutants, results = [json.loads(l) for l in open(sys.argv[1])], os.path.abspath(sys.argv[2])
    done = set(json.loads(l)['id'] for l in open(results)) if os.path.exists(results) else set()
    work_dir = tempfile.mkdtemp(prefix='mutants')
    os.mkdir(work_dir + '/v')
    subprocess.check_call(['cp', '-a', V + '/mc', V + '/check.sh', V + '/known_findings.txt', work_dir + '/v'])
    json.dump([m for m in mutants if m['id'] not in done], open(work_dir + '/mutants', 'w'))
    ps = [subprocess.Popen(['unshare', '-m', 'python3', os.path.abspath(__file__), '--worker', work_dir, results]) for _ in range(int((sys.argv + ['8'])[3]))]
    for p in ps:
        p.wait()
    shutil.rmtree(work_dir)

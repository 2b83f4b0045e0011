#!/opt/venv/bin/python
"""developer tool (not used by any check): confirms planted bugs in scratch
copies.  tools/seedtest.py [--notest] ID ...  : for each seeded/ID applies the
patch to a copy of /repo, runs the stable tests, the demonstration with and
without the patch and the check of its property"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5f945fc'
NODES = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(work):
    """stable tests in the copy -> list of failures"""
    repo, w = work + '/repo', work + '/run'
    os.makedirs(work + '/plugin')
    src = open('/opt/vp/plugin/vp_workdir.py').read()
    open(work + '/plugin/vp_workdir.py', 'w').write(
        src.replace('/opt/vp/work/run', w))
    t = open('/opt/vp/test.sh').read()
    t = t.replace('/opt/vp/work/run', w).replace('/repo', repo)
    t = t.replace('/opt/vp/plugin', work + '/plugin')
    open(work + '/test.sh', 'w').write(t)
    sh('bash %s/test.sh %s/out.json' % (work, work))
    got = json.load(open(work + '/out.json'))
    ok = {x.replace(work.strip('/').replace('/', '.') + '.', '')
          for x in got['passed']}
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ok |= {re.sub(r'^.*?(?=test\.|dcf\.)', '', x) for x in ok}
    return sorted(stable - ok)


def blame(pid, repo):
    """removed lines have to be original ones"""
    bad = []
    path = None
    pre = None
    for line in open('%s/seeded/%s/patch.diff' % (ROOT, pid)):
        if line.startswith('--- a/'):
            path = line[6:].strip()
        elif line.startswith('@@'):
            pre = int(re.match(r'@@ -(\d+)', line).group(1))
        elif pre is not None and line.startswith('-'):
            b = sh('git -C /repo blame -s -L%d,%d HEAD -- %s' % (
                pre, pre, path)).stdout
            if not b.startswith('^' + BASE[:7]) and \
                    sh('git -C /repo merge-base --is-ancestor %s %s' % (
                        b.split()[0].strip('^'), BASE)).returncode:
                bad.append(line.strip())
            pre += 1
        elif pre is not None and line.startswith(' '):
            pre += 1
    return bad


def main(ids, notest):
    for pid in ids:
        d = '%s/seeded/%s' % (ROOT, pid)
        meta = json.load(open(d + '/meta.json'))
        work = '/tmp/seed/' + pid
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        sh('cp -a /repo %s/repo' % work)
        repo = work + '/repo'
        demo = work + '/demo'
        shutil.copytree(d, demo)
        for x in glob.glob(demo + '/*.diff') + glob.glob(demo + '/*.json'):
            os.remove(x)
        clean = sh('bash %s/demo.sh' % demo, cwd=repo)
        a = sh('git -C %s apply %s/patch.diff' % (repo, d))
        res = [] if not a.returncode else ['does not apply ' + a.stdout]
        dirty = sh('bash %s/demo.sh' % demo, cwd=repo)
        if clean.returncode:
            res.append('demo fails on the unchanged tree: ' + clean.stdout)
        if not dirty.returncode:
            res.append('demo passes with the patch')
        res += ['not original: ' + x for x in blame(pid, repo)]
        if not notest:
            res += ['fails: ' + x for x in tests(work)]
        c = sh('DCF_REPO=%s VERIF_TIER=quick bash %s/run.sh %s' % (
            repo, ROOT, meta['property']))
        hit = c.returncode == 1 and 'VIOLATION property=%s' % \
            meta['property'] in c.stdout
        print(pid, meta['property'], 'CAUGHT' if hit else 'MISSED (%d)' %
              c.returncode, '| valid' if not res else '| INVALID %s' % res,
              flush=True)
        shutil.rmtree(work)


if __name__ == '__main__':
    args = sys.argv[1:]
    nt = '--notest' in args
    ids_ = [x for x in args if not x.startswith('-')] or \
        sorted(os.listdir(ROOT + '/seeded'))
    main(ids_, nt)

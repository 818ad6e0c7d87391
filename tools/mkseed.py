#!/usr/bin/env python3
# Planted bugs: writes seeded/<id>/ from tools/seeds/*.py and confirms each one
# (the demonstration passes on the unchanged tree and fails with the patch).
# usage: mkseed.py [--test] ID...   (--test also rebuilds /repo with the patch and runs its tests and the check)
import glob, json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, flags='', libs='', lib='optimization parallel dsp common'):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, libs=libs, lib=lib)
for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))): exec(compile(open(f).read(), f, 'exec'))
SH = '''#!/bin/sh
# exit 0 when the property holds on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -g -w %s -Iinclude -Isrc -DBUILD_WITH_BOOST_THREAD -DBUILD_WITH_FFTW3 "$d/demo.cpp" -Linstall/lib %s -lfftw3 -lboost_thread -lboost_system -lpthread %s -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <stdexcept>
#define CHECK(x) do { if (!(x)) { std::printf("demo: %s does not hold\\n", #x); return 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(args):
    test = '--test' in args; ids = [a for a in args if not a.startswith('-')] or list(SEEDS)
    assert not sh('git -C /repo status --short').stdout, 'repo not clean'
    for i in ids:
        s = SEEDS[i]; d = os.path.join(ROOT, 'seeded', i); os.makedirs(d, exist_ok=True)
        try:
            for f, a, b in s['edits']:
                p = '/repo/' + f; t = open(p, newline='').read()
                if '\r\n' in t: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
                assert t.count(a) == 1, (i, f, t.count(a), a)
                open(p, 'w', newline='').write(t.replace(a, b))
            open(d + '/patch.diff', 'w', newline='').write(sh('git -C /repo diff').stdout)
        finally: sh('git -C /repo checkout -- .')
        # (text mode turns CRLF into LF: take the bytes as git gives them)
        open(d + '/demo.cpp', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(SH % (s['flags'], ' '.join('-lk52_' + l for l in s['lib'].split()), s['libs']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        try:
            for f, a, b in s['edits']:
                p = '/repo/' + f; t = open(p, newline='').read()
                if '\r\n' in t: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
                open(p, 'w', newline='').write(t.replace(a, b))
            open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout)
            sh('git -C /repo checkout -- .')
            b0 = sh('bash /opt/vp/build.sh'); r0 = sh('sh %s/demo.sh' % d, cwd='/repo')
            ap = sh('git -C /repo apply %s/patch.diff' % d); assert ap.returncode == 0, ap.stderr
            b1 = sh('bash /opt/vp/build.sh'); r1 = sh('sh %s/demo.sh' % d, cwd='/repo')
            out = '%s clean=%d/%d patched=%d/%d' % (i, b0.returncode, r0.returncode, b1.returncode, r1.returncode)
            if r0.returncode: out += '\n' + (r0.stdout + r0.stderr)[-800:]
            if b1.returncode: out += '\n' + (b1.stdout + b1.stderr)[-800:]
            if r1.returncode == 2: out += '\n' + (r1.stdout + r1.stderr)[-800:]
            if test:
                sh('bash /opt/vp/test.sh /tmp/seedtest.json'); res = json.load(open('/tmp/seedtest.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))['stable']; lost = [b for b in base if b not in res['passed']]
                out += ' tests-lost=%d' % len(lost) + ''.join('\n   ' + l for l in lost[:3])
                c = sh('cd %s && ./check %s quick' % (ROOT, s['prop']))
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                out += ' check=%d' % c.returncode + ''.join('\n   ' + l for l in v[:2])
            else: out += ' ' + ' '.join(l for l in (r1.stdout.splitlines() or r1.stderr.splitlines())[:1])
            print(out, flush=True)
        finally: sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
if __name__ == '__main__': main(sys.argv[1:])

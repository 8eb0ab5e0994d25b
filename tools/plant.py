#!/usr/bin/env python3
"""Write and confirm planted bugs: plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (C source),
and optionally flags (for gcc), srcs (library sources of the demo), sh (a whole demo.sh instead).
Each bug is applied to /repo, built and tested there, the demo is run with and without it, and the change is undone.
Only bugs that build, pass the stable tests and have a demo that tells them apart are kept in /verif/seeded.
Library sources use CRLF: edits are written with LF and converted.
"""
import json, os, subprocess, sys, shutil, importlib.util
REPO = '/repo'; SEED = '/verif/seeded'

def run(cmd, cwd=REPO, t=300):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')

def clean():
    run(['git', 'checkout', '--', '.'])

DEMO = '''#!/bin/bash
# run with cwd /repo: builds the demonstration against the library sources of the working tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r "$T"' EXIT
{cc} -std=gnu99 -w {flags} -I. -Iaccessories -Itest -o "$T/demo" "$D/demo.c" {srcs} -lm || exit 3
timeout 120 "$T/demo" > "$T/out" 2>&1
rc=$?
head -c 4000 "$T/out"
exit $rc
'''
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

def tests_ok():
    out = '/tmp/plant_tests.json'
    r = run(['bash', '/opt/vp/test.sh', out])
    try:
        d = json.load(open(out))
    except Exception:
        return False, r.stdout[-500:]
    return (not d['failed'] and len(d['passed']) >= 49), str(d['failed'])[:300] + ' passed %d' % len(d['passed'])

def plant(b):
    d = os.path.join('/tmp/plant_tmp', b['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if 'sh' in b:
        sh = b['sh']
    else:
        sh = DEMO.format(cc=b.get('cc', 'gcc'), flags='-O1 -g ' + b.get('flags', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB -DSTRBUF_PROVIDE_PRINTF'),
                         srcs=b.get('srcs', 'strview.c strbuf.c strnum.c'))
    open(d + '/demo.sh', 'w').write(sh)
    if 'demo' in b:
        open(d + '/demo.c', 'w').write(b['demo'])
    clean()
    r = run(['bash', d + '/demo.sh'])
    if r.returncode:
        return 'demo fails on the unchanged tree: ' + r.stdout[-600:]
    for f, old, new in b['edits']:
        p = os.path.join(REPO, f)
        s = open(p, 'rb').read()
        crlf = b'\r\n' in s
        o, n = [x.replace('\n', '\r\n').encode() if crlf else x.encode() for x in (old, new)]
        if s.count(o) != 1:
            clean(); return 'old text occurs %d times in %s: %s' % (s.count(o), f, old[:60])
        open(p, 'wb').write(s.replace(o, n))
    try:
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=REPO, stdout=subprocess.PIPE).stdout
        r = run(['bash', '/opt/vp/build.sh'])
        if r.returncode:
            return 'build fails: ' + r.stdout[-800:]
        ok, why = tests_ok()
        if not ok:
            return 'tests fail: ' + why
        r = run(['bash', d + '/demo.sh'])
        if r.returncode == 0:
            return 'demo passes with the bug'
        if r.returncode == 3 and b.get('rc3') is None:
            return 'demo does not build with the bug'
    finally:
        clean()
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    dst = os.path.join(SEED, b['id'])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return None

def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        if not sys.argv[2:] and os.path.exists(os.path.join(SEED, b['id'], 'patch.diff')):
            continue
        why = plant(b)
        print(('DROPPED %s: %s' % (b['id'], why)) if why else 'kept %s (%s)' % (b['id'], b['property']), flush=True)
    run(['bash', '/opt/vp/build.sh'])

main()

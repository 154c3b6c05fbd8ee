#!/usr/bin/env python3
"""Make and confirm seeded bugs: mkseed.py <definitions.py> [id...]. Works in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
gaoya = { path = "$R/gaoya" }
T
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo run -q --offline 2>&1
'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def main():
    defs = {}
    exec(open(sys.argv[1]).read(), defs)
    want = sys.argv[2:]
    for b in defs['BUGS']:
        if want and b['id'] not in want:
            continue
        d = os.path.join(SEED, b['id'])
        os.makedirs(d, exist_ok=True)
        assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo dirty'
        for f, old, new in b['edits']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) >= 1, (b['id'], 'old text not found', old)
            n = b.get('nth', 0)
            if s.count(old) > 1:
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                s = s.replace(old, new)
            open(p, 'w').write(s)
        try:
            diff = sh('git -C /repo diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(b.get('demo', DEMO))
            if 'main' in b:
                open(d + '/main.rs', 'w').write(b['main'])
            for f, t in b.get('files', {}).items():
                open(d + '/' + f, 'w').write(t)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            os.chmod(d + '/demo.sh', 0o755)
            r = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json')
            base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
            t = json.load(open('/tmp/t.json')) if os.path.exists('/tmp/t.json') else {}
            bad = [x for x in BASE if x not in set(t.get('passed', []))]
            bad_demo = sh('bash %s/demo.sh' % d, cwd='/repo')
        finally:
            sh('git -C /repo checkout -- .')
        ok_demo = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(b['id'], 'tests broken:', bad, 'demo with bug:', bad_demo.returncode, 'without:', ok_demo.returncode,
              '' if ok_demo.returncode == 0 else ok_demo.stdout[-600:], bad_demo.stdout[-200:].replace('\n', ' | '), flush=True)
    sh('bash /opt/vp/build.sh')


bl = json.load(open('/opt/vp/BASELINE.json'))
BASE = next(v for v in bl.values() if isinstance(v, list)) if isinstance(bl, dict) else bl
main()

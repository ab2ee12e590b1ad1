#!/bin/bash
# builds the harness from /repo once (fills the go build cache) and parses the specification
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys, glob, os
sys.path.insert(0, 'lib')
import common
common.build_harness()
common.build_main()
for f in sorted(glob.glob('spec/*.tla')):
    r = common.sh(['java', '-Djava.io.tmpdir=' + common.WORK, '-cp', common.JARS, 'tla2sany.SANY', os.path.abspath(f)], cwd='spec')
    if r.returncode != 0 or b'rror' in r.stdout:
        sys.exit(f + '\n' + r.stdout.decode())
print('setup ok')
P

#!/bin/bash
# mk.sh ID : lays the shared parts of a demonstration over the whole library into seeded/ID.
v=$(cd "$(dirname "$0")/../.." && pwd)
s=$v/seeded/$1
mkdir -p "$s/lib"
cp -a "$v/standins" "$v/vendor" "$s/lib/"
cp "$v/tools/demo/support.rs" "$s/lib/"
cp "$v/harness/.cargo/config.toml" "$s/lib/"
cp "$v/tools/demo/demo.sh" "$s/demo.sh"
python3 - "$v" "$s" <<'P'
import sys
v, s = sys.argv[1:]
h = open(v + '/harness/Cargo.toml').read()
h = h.replace('name = "monitor"', 'name = "demo"').replace('common = { path = "../common" }\n', '').replace('"/repo', '"@REPO@')
h = h.replace('debug = 1', 'debug = 0')
open(s + '/lib/manifest', 'w').write(h)
l = open(v + '/harness/Cargo.lock').read()
import re
l = re.sub(r'\[\[package\]\]\nname = "common"\nversion = "0.1.0"\n(dependencies = \[[^\]]*\]\n)?\n', '', l).replace(' "common",\n', '').replace('name = "monitor"', 'name = "demo"')
open(s + '/lib/Cargo.lock', 'w').write(l)
P

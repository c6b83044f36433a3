#!/bin/bash
# suite.sh [TREE] : the repository's own complete test suite, over the stand-in libraries,
# in a scratch copy. Not a check; used when a repair is written.
tree=${1:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
d=/tmp/reveaal-suite
rm -rf /tmp/reveaal-suite/src /tmp/reveaal-suite/samples
mkdir -p $d/.cargo
cp -a $tree/src $tree/samples $tree/Ecdar-ProtoBuf $tree/README.md $d/
python3 - $tree $d $here <<'P'
import sys,re
tree,d,here=sys.argv[1:]
s=open(tree+'/Cargo.toml').read()
s=re.sub(r'\[\[bench\]\]\nname = .*\nharness = false\n','',s)
s=re.sub(r'criterion = .*\n','',s)
s=re.sub(r"\[target.*\n(pprof.*\n)?",'',s)
h=open(here+'/harness/Cargo.toml').read()
patch=h[h.index('[patch.crates-io]'):].replace('../standins',here+'/standins')
s+='\n[workspace]\n[profile.dev]\nopt-level=1\ndebug=0\nincremental=false\n'+patch
s=s.replace('[profile.dev.package.edbm]\nopt-level = 3','[profile.dev.package.edbm]\nopt-level = 3')
open(d+'/Cargo.toml','w').write(s)
c=open(here+'/harness/.cargo/config.toml').read().replace('../vendor',here+'/vendor')
open(d+'/.cargo/config.toml','w').write(c)
P
cp $here/harness/Cargo.lock $d/Cargo.lock 2>/dev/null
cd $d && CARGO_NET_OFFLINE=true cargo test --offline --lib 2>&1 | tail -${LINES_OUT:-40}

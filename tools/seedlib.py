"""Make and confirm planted bugs in a scratch copy of /repo (never in /repo itself)."""
import os,subprocess,json,shutil
S='/tmp/seedwt'; V='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken. cwd: the repository, after its build.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH="/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
pl=$(ls target/debug/deps/libparking_lot-*.rlib | head -1)
rustc --edition 2021 -Awarnings "$here/demo.rs" --extern nar20_1=target/debug/libnar20_1.rlib --extern parking_lot="$pl" -L dependency=target/debug/deps $(for d in target/debug/build/libsqlite3-sys-*/out; do [ -f $d/libsqlite3.a ] && echo -L native=$d; done) -o "$t/demo" || exit 8
cd "$t" && timeout 120 ./demo
'''
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
ENV=dict(os.environ,HOME='/root',PATH='/usr/local/bin:'+os.environ['PATH'],RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',RUSTC_WRAPPER='',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only')
for k in('CARGO_TARGET_DIR','RUSTFLAGS'): ENV.pop(k,None)
def fresh():
    if not os.path.exists(S): sh('cp -a /repo %s'%S)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD',cwd=S)
def build(): return sh('cargo build --workspace --offline && cargo test --workspace --no-run --offline',cwd=S,env=ENV)
def tests():
    r=sh('timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8',cwd=S,env=ENV); import re
    ok=set(re.findall(r'^test (\S+) \.\.\. ok',r.stdout,re.M)); return ok,r.stdout
def demo(d): return sh('bash %s/demo.sh'%d,cwd=S,env=ENV)
base={}
def seed(id,prop,edits,rs,needs,breaks):
    fresh()
    d='%s/%s'%(V,id); os.makedirs(d,exist_ok=True)
    open(d+'/demo.rs','w').write(rs); open(d+'/demo.sh','w').write(DEMO)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r=build(); assert r.returncode==0,r.stdout[-3000:]
    if 'ok' not in base: base['ok'],_=tests(); assert len(base['ok'])>=30
    r=demo(d)
    if r.returncode!=0: print(id,'DEMO FAILS ON CLEAN TREE',r.returncode,r.stdout[-1500:]); return False
    for f,o,n in edits:
        s=open(S+'/'+f).read(); c=s.count(o)
        if c!=1: print(id,'EDIT matches',c,'times:',f,repr(o)); sh('git checkout -q -f .',cwd=S); return False
        open(S+'/'+f,'w').write(s.replace(o,n))
    df=sh('git diff',cwd=S).stdout; open(d+'/patch.diff','w').write(df)
    r=build()
    if r.returncode!=0: print(id,'DOES NOT BUILD',r.stdout[-2500:]); sh('git checkout -q -f .',cwd=S); return False
    ok,o=tests()
    r=demo(d); sh('git checkout -q -f .',cwd=S)
    if not base['ok']<=ok: print(id,'TESTS BROKEN',base['ok']-ok); return False
    if r.returncode==0: print(id,'DEMO PASSES WITH THE BUG',r.stdout[-600:]); return False
    if r.returncode in(8,9): print(id,'DEMO DID NOT BUILD',r.stdout[-1500:]); return False
    print(id,'confirmed:',r.returncode,r.stdout.strip()[-150:].replace('\n',' | ')); return True

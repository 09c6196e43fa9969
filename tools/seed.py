import json,os,subprocess,sys,shutil
SC="/tmp/seedrepo"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
DEMO='''#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
# Exit 0: the property held. Anything else: it did not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/html5-fuser-demo.XXXXXX)" || exit 3
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
html5-fuser = { path = "$repo" }
[workspace]
TOML
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo" "$work"
'''
def mk(id,prop,edits,main,needs,breaks):
    d="/verif/seeded/"+id
    if os.path.exists(SC): shutil.rmtree(SC)
    sh("cp -a /repo "+SC)
    for f,o,n in edits:
        p=SC+"/src/"+f; t=open(p).read()
        if t.count(o)!=1: print(id,"EDIT",f,"matches",t.count(o)); return False
        open(p,"w").write(t.replace(o,n))
    diff=sh("git diff",cwd=SC).stdout.decode()
    os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/main.rs","w").write(main)
    open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    r=sh("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target cargo test --offline 2>&1 | grep -E '^error|^test result|FAILED|panicked'"%SC,cwd=SC).stdout.decode()
    ok="FAILED" not in r and "error" not in r and "test result: ok" in r
    g=sh("bash %s/demo.sh"%d,cwd="/repo"); b=sh("bash %s/demo.sh"%d,cwd=SC)
    print(id,prop,"tests",ok,"clean",g.returncode,"patched",b.returncode, b.stdout.decode().strip()[-200:])
    if not ok: print(r)
    if g.returncode: print(g.stdout.decode()[-800:])
    good= ok and g.returncode==0 and b.returncode not in(0,3)
    shutil.rmtree(SC)
    return good

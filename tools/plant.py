#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: build and confirm planted bugs described in SPEC.py (a list BUGS of dicts
id, prop, edits [(file, old, new[, occurrence])], main (demo source), needs, breaks) in a scratch copy of /repo."""
import subprocess, sys, os, json, shutil, tempfile, glob
V='/verif'
DEMO='''#!/bin/bash
# exit 0: behaviour is right; nonzero: the demonstration fails
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"; d="$(mktemp -d)"; trap 'rm -r -- "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2021"\\n[workspace]\\n[dependencies]\\nfxd={path="%s"}\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/t" cargo run --offline --quiet
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    g={}; exec(open(sys.argv[1]).read(),g)
    S='/tmp/plant_repo'
    shutil.rmtree(S,ignore_errors=True); sh(f'cp -a /repo {S}')
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable_tests') or [])
    for b in g['BUGS']:
        if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
        sh('git checkout -- .',cwd=S)
        d=f"/tmp/bugs/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        open(d+'/main.rs','w').write(b['main'])
        r0=sh(f'timeout 200 bash {d}/demo.sh',cwd=S)
        ok=True
        for e in b['edits']:
            p=f"{S}/{e[0]}"; s=open(p).read(); n=s.count(e[1])
            if len(e)>3:
                i=-1
                for _ in range(e[3]): i=s.find(e[1],i+1)
                if i<0: ok=False; print(b['id'],'no occurrence',e[1]); break
                s=s[:i]+e[2]+s[i+len(e[1]):]
            else:
                if n!=1: ok=False; print(b['id'],'occurrences',n,e[1][:60]); break
                s=s.replace(e[1],e[2])
            open(p,'w').write(s)
        if not ok: continue
        diff=sh('git diff',cwd=S).stdout
        open(d+'/patch.diff','w').write(diff)
        t=sh('cargo test --offline --lib 2>&1 | tail -30',cwd=S)
        fails=[l for l in t.stdout.splitlines() if 'FAILED' in l or 'error' in l]
        r1=sh(f'timeout 200 bash {d}/demo.sh',cwd=S)
        good = r0.returncode==0 and r1.returncode!=0 and not fails
        print(b['id'],b['prop'],'OK' if good else 'BAD','clean',r0.returncode,'patched',r1.returncode,'tests',fails[:4] or 'pass')
        if r0.returncode: print(r0.stdout[-600:])
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        if good:
            t=f"{V}/seeded/{b['id']}"; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t)
    shutil.rmtree(S,ignore_errors=True)
main()

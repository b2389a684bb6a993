#!/usr/bin/env python3
"""Builds planted bugs: applies each seed of tools/seeds/*.py to a scratch copy of
/repo, confirms that it builds, passes the stable tests and that its demonstration
fails with it and passes without it, and writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil, importlib.util, glob
V='/verif'; W='/tmp/seedwork'; R=W+'/repo'
env=dict(os.environ, GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOSUMDB='off')
def sh(cmd,cwd=None,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
def load():
    out={}
    for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
        spec=importlib.util.spec_from_file_location('s',f); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in out, s['id']; out[s['id']]=s
    return out
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
{
  printf '{"Replace":{'
  sep=
  for f in "$d"/*_test.go; do
    printf '%s"%s/PKG/zz_%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$t/overlay.json"
go test -c -vet=off -overlay "$t/overlay.json" -o "$t/demo" ./PKG || exit 3
cd "$t" && ./demo -test.timeout 120s
'''
def tests():
    pk=sh("go list -e -find ./... | grep -v '^zntr\\.io/solid/sdk/token/paseto$'",R).stdout.split()
    o=sh('go test -json -vet=off -count=1 -timeout 10m '+' '.join(pk),R).stdout
    p=set()
    for l in o.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): p.add(e['Package']+'/'+e['Test'])
    return p
def main():
    seeds=load(); ids=sys.argv[1:] or [i for i in seeds if not os.path.exists(f'{V}/seeded/{i}/patch.diff')]
    os.makedirs(W,exist_ok=True); shutil.rmtree(R,ignore_errors=True)
    sh(f'cp -a /repo {R}'); sh('git checkout -- . ',R)
    base=tests(); print('base tests',len(base))
    for i in ids:
        s=seeds[i]; sh('git checkout -- .',R)
        d=f'{W}/{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        pkg=s.get('pkg','zzdemo')
        open(d+'/demo.sh','w').write(DEMO.replace('PKG',pkg)); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go','w').write(s['demo'].lstrip())
        if s.get('helper',pkg=='zzdemo'): shutil.copy(V+'/tools/seeds/helper_test.go.txt',d+'/helper_test.go')
        b=sh(f'bash {d}/demo.sh',R)
        if b.returncode: print(i,'DEMO FAILS ON BASE',b.stdout[-1500:],b.stderr[-500:]); continue
        bad=False
        for f,o,n in s['edits']:
            p=f'{R}/{f}'; t=open(p).read()
            if t.count(o)!=1: print(i,'edit matches',t.count(o),f,o[:60]); bad=True; break
            open(p,'w').write(t.replace(o,n))
        if bad: continue
        b=sh('go build ./... 2>&1 | grep -v paseto',R)
        c=sh("go build $(go list -e -find ./... | grep -v '^zntr.io/solid/sdk/token/paseto$')",R)
        if c.returncode: print(i,'BUILD',c.stderr[-800:]); continue
        miss=base-tests()
        if miss: print(i,'TESTS FAIL',len(miss),sorted(miss)[:4]); continue
        a=sh(f'bash {d}/demo.sh',R)
        if a.returncode==0: print(i,'DEMO PASSES WITH BUG'); continue
        if a.returncode==3: print(i,'demo does not build',a.stdout[-500:]); continue
        open(d+'/patch.diff','w').write(sh('git diff',R).stdout)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        t=f'{V}/seeded/{i}'; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t); print(i,'ok')
    shutil.rmtree(W,ignore_errors=True)
main()

#!/bin/bash
# tools/harness.sh PKGDIR PROP [repo]: runs the executable contracts of one package (output as it comes).
P=$1; ID=$2; R=${3:-/repo}
. /verif/tools/env.sh
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOROOT=/opt/veriftools/go1.25.14 GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off
T=$(mktemp -d); trap "rm -rf $T" EXIT
python3 - "$P" "$R" > $T/ov.json <<'PY'
import sys,os,json
p,r=sys.argv[1:3]; o={}
for d in sorted({p,'test_specs'} | {os.path.relpath(x,'/verif/contracts') for x,_,f in os.walk('/verif/contracts') if any(n.endswith('.go') and not n.endswith('_test.go') for n in f)}):
    for f in os.listdir('/verif/contracts/'+d):
        if f.endswith('_test.go') and d!=p: continue
        if f.endswith('.go'): o[f'{r}/{d}/{f}']=f'/verif/contracts/{d}/{f}'
print(json.dumps({'Replace':o}))
PY
cd $R && VF_BUDGET_MS=${BUDGET:-60000} go test -vet=off -count=1 -tags verif -overlay $T/ov.json -run "^TestVf$ID\$" -v ./$P

#!/usr/bin/env python3
"""Writes contracts/what-changed/model/vf_accounting.go from the struct
declarations of /repo/what-changed/model (run by hand; output is committed)."""
import re,glob,sys
types={}
for f in sorted(glob.glob('/repo/what-changed/model/*.go')):
    if f.endswith('_test.go'): continue
    s=open(f).read()
    for m in re.finditer(r'type (\w+Changes) struct \{(.*?)\n\}',s,re.S):
        if m.group(1)=='PropertyChanges': continue
        fs=[]
        for l in m.group(2).split('\n'):
            l=re.sub(r'`.*`','',l.split('//')[0]).strip().split(None,1)
            if len(l)==2: fs.append((l[0],l[1].strip()))
        types[m.group(1)]=fs
out=['//go:build verif','','// Generated by /verif/tools/gen_accounting.py.','','package model','','import vf "github.com/pb33f/libopenapi/test_specs"','',
'func vfBreaking(c *Change) bool { return c != nil && c.Breaking }','',
'func VfInv_PropertyChanges(p *PropertyChanges) {','\tvf.Assume(vf.Forall(0, len(p.Changes), func(i int) bool { return p.Changes[i] != nil }))','}','']
for t,fs in types.items():
    out.append(f'func VfInv_{t}(x *{t}) {{')
    out.append('\tvf.Assume(x.PropertyChanges != nil)')
    for n,ty in fs:
        if ty.startswith('[]'):
            out.append(f'\tvf.Assume(vf.Forall(0, len(x.{n}), func(i int) bool {{ return x.{n}[i] != nil }}))')
        elif ty.startswith('map'):
            out.append(f'\tvf.Assume(vf.ForallKeys(x.{n}, func(k string) bool {{ return x.{n}[k] != nil }}))')
    if t in ('ExtensionChanges','ExamplesChanges'):
        out.append('\tvf.Assume(vf.Count(x.PropertyChanges.Changes, vfBreaking) == 0)')
    out.append('}\n')
    leaf=not any('Changes' in ty for n,ty in fs) if t!='ItemsChanges' else False
    if not leaf: out.append(f'func VfPure_{t}_TotalChanges() {{}}\nfunc VfPure_{t}_TotalBreakingChanges() {{}}\n')
    out.append(f'// vf:opt by=Accounting_{t}\nfunc VfPost_{t}_GetAllChanges(x *{t}, res []*Change) {{')
    out.append(f'\tvf.Ensure("total", len(res) == x.TotalChanges())')
    out.append(f'\tvf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())\n}}\n')
    out.append(f'// vf:opt prop=P01 noinv\nfunc VfLemma_Accounting_{t}(x *{t}) {{')
    out.append('\tvf.Assume(x != nil)\n\tt, b := x.TotalChanges(), x.TotalBreakingChanges()\n\tres := x.GetAllChanges()')
    out.append('\tvf.Assert("total equals number of listed changes", len(res) == t)')
    if t=='SchemaChanges':
        out.append('\tif len(x.AllOfChanges) == 0 {\n\t\tvf.Assert("breaking total equals number of listed breaking changes when allOf is unchanged", vf.Count(res, vfBreaking) == b)\n\t}')
    out.append('\tvf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)')
    out.append('}\n')
open('/verif/contracts/what-changed/model/vf_accounting.go','w').write('\n'.join(out))

out=['//go:build verif','','// Generated by /verif/tools/gen_accounting.py.','','package model','','var vfAccountingLemmas = []struct {\n\tname string\n\tf    any\n}{']
for t in types: out.append('\t{"Accounting_%s", VfLemma_Accounting_%s},'%(t,t))
out.append('}\n')
open('/verif/contracts/what-changed/model/vf_p01_list_test.go','w').write('\n'.join(out))

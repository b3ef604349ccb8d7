import re,glob
for pkg in ('psdh','blendh','comph'):
    fs=[f for f in sorted(glob.glob(f'/verif/harness/h/{pkg}/*.go')) if not f.endswith('table.go')]
    if not fs: continue
    fns=[]
    for f in fs:
        fns+=re.findall(r'^func ([A-Z]\w*)\(\) \{',open(f).read(),re.M)
    what={'psdh':'decoder','blendh':'blend package','comph':'composite package'}[pkg]
    open(f'/verif/harness/h/{pkg}/table.go','w').write(f'// Package {pkg} holds the harnesses for the {what}.\npackage {pkg}\n\n// Table lists the harnesses.\nvar Table = map[string]func(){{\n'+''.join(f'\t"{x}": {x},\n' for x in sorted(fns))+'}\n')

"""mkseed id prop file old new needs breaks demo"""
import sys, subprocess, json, os
def mk(id, prop, edits, needs, breaks, demo):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p='/repo/src/'+f; s=open(p).read(); assert s.count(old)==1, (id, f, s.count(old)); open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# run in /repo after the build\nset -u\nDETOX=$PWD/_build/tree/src/detox\nW=$(mktemp -d)\ntrap \'cd /; rm -rf "$W"\' EXIT\nexport HOME=$W LC_ALL=C.UTF-8\nunset DETOX_SEQUENCE XDG_CONFIG_HOME\ncd "$W" || exit 2\n'+demo+'\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+'/meta.json','w'), indent=1)

#!/usr/bin/env python3
"""mkseed.py [ids...]: builds /verif/seeded/<id>/ from tools/seeds/*.py (definitions: S(id, property, needs, breaks, edits, main))."""
import sys,os,subprocess,shutil,json,glob
V='/verif'; W='/tmp/seedwork'
DEFS=[]
def S(id,prop,needs,breaks,edits,main): DEFS.append((id,prop,needs,breaks,edits,main))
for f in sorted(glob.glob(V+'/tools/seeds/*.py')): exec(open(f).read(),{'S':S})
want=sys.argv[1:]
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
if not os.path.isdir(W): print(sh(f'git -C /repo worktree list; git clone -q /repo {W}').stderr)
sh(f'git -C {W} fetch -q origin && git -C {W} reset -q --hard origin/HEAD')
for id,prop,needs,breaks,edits,main in DEFS:
    if want and id not in want: continue
    sh(f'git -C {W} checkout -q -- .')
    for f,old,new in edits:
        p=f'{W}/{f}'; t=open(p).read()
        assert t.count(old)==1,(id,f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    d=f'{V}/seeded/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/crate/src')
    open(d+'/patch.diff','w').write(sh(f'git -C {W} diff').stdout)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.copy(V+'/tools/demo/demo.sh',d+'/demo.sh')
    for x in ('Cargo.toml','Cargo.lock'): shutil.copy(f'{V}/tools/demo/{x}',d+'/crate/'+x)
    for x in ('sim','stub','world'): shutil.copy(f'{V}/mc/src/{x}.rs',f'{d}/crate/src/{x}.rs')
    open(d+'/crate/src/main.rs','w').write('''#![allow(dead_code, unused)]
mod sim;
mod stub;
mod world;
use serde_json::json;
use sim::{coin, Chain};
use world::*;

fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}

fn main() {
'''+main.strip('\n')+'\n}\n')
    print(id,len(open(d+'/patch.diff').read()))

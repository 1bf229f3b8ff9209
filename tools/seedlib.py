import os,subprocess,json,shutil,sys
PRE = r'''
#![allow(dead_code, unused_imports, unused_variables)]
extern crate magmaflow;
use magmaflow::glsl450;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet, Op};

fn inst(op: u32, ops: &[u32]) -> Vec<u32> {
    let mut v = vec![((ops.len() as u32 + 1) << 16) | op];
    v.extend_from_slice(ops);
    v
}
fn text(s: &[u8]) -> Vec<u32> {
    let mut b = s.to_vec();
    b.push(0);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
fn words(insts: &[Vec<u32>]) -> Vec<u32> {
    let mut v = vec![0x07230203, 0x10000, 8 << 16 | 1, 100, 0];
    for i in insts {
        v.extend_from_slice(i);
    }
    v
}
fn le(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
}
fn be(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
fn sets() -> Vec<Box<dyn ExtInstSet>> {
    vec![Box::new(glsl450::InstSet)]
}
fn read(b: &[u8]) -> ReadResult<RawModule> {
    read_module(b, sets())
}
fn raw(instructions: Vec<Core>) -> RawModule {
    let mut m = read(&le(&words(&[]))).unwrap();
    m.instructions = instructions;
    m
}
fn label(n: u32) -> OpLabel {
    OpLabel { result_id: ResultId(n) }
}
fn br(t: u32) -> GroupBranch {
    GroupBranch::OpBranch(OpBranch { target_label: OpId(t) })
}
fn cond(t: u32, f: u32, w: Option<BranchWeights>) -> GroupBranch {
    GroupBranch::OpBranchConditional(OpBranchConditional { condition: OpId(99), true_label: OpId(t), false_label: OpId(f), weights: w })
}
fn ret() -> GroupBranch {
    GroupBranch::OpReturn(OpReturn)
}
fn smerge(t: u32) -> Option<GroupMerge> {
    Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(t), selection_control: SelectionControl::default() }))
}
fn lmerge(t: u32, c: u32) -> Option<GroupMerge> {
    Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(t), continue_target: OpId(c), loop_control: LoopControl::default() }))
}
fn blk(n: u32, merge: Option<GroupMerge>, branch: GroupBranch) -> BasicBlock {
    BasicBlock { label: label(n), code: vec![], merge: merge, branch: branch }
}
fn fun(blocks: Vec<BasicBlock>) -> FunctionDefinition {
    FunctionDefinition {
        function: OpFunction { result_type: OpId(90), result_id: ResultId(91), function_control: FunctionControl::default(), function_type: OpId(92) },
        parameters: vec![],
        blocks: blocks,
    }
}
fn flow(blocks: Vec<BasicBlock>) -> String {
    match find_control_flow(fun(blocks)) {
        Ok(c) => format!("{}", c),
        Err(e) => format!("error {:?}", e),
    }
}
'''
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is not. Run in /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
magmaflow = { path = "$repo" }
EOF
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$t/target CARGO_NET_OFFLINE=true
cd "$t" && cargo build --offline -q || exit 3
ulimit -v 8000000
timeout 120 "$t/target/debug/demo"
'''
def make(id, prop, edits, needs, breaks, body, only_build=False):
    d='/verif/seeded/'+id
    w='/tmp/seedgen/w'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',w])
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(PRE+body)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    env=dict(os.environ,RUSTFLAGS='-Awarnings')
    r=subprocess.run('cargo test --offline -q 2>&1 | tail -30',shell=True,cwd=w,env=env,capture_output=True,text=True)
    ok='test result: ok. 16 passed' in r.stdout
    good=subprocess.run([d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    bad=subprocess.run([d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    print(id,prop,'tests',ok,'clean',good.returncode,'patched',bad.returncode, '' if ok else r.stdout, good.stderr[-600:] if good.returncode else '', bad.stderr[-200:] if bad.returncode==3 else '')
    sys.stdout.flush()
    shutil.rmtree(w, ignore_errors=True)

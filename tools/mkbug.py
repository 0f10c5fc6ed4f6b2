import os,subprocess,sys,json,shutil,re
R='/repo'; W='/tmp/bugwt'; OUT='/verif/seeded'
DEMO_SH='''#!/bin/bash
# builds and runs demo.rs against the crate in the current directory; exit 0 if it behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
undname = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
EOF
cd "$work" || exit 2
cargo build --offline --quiet 2>build.log || { cat build.log; exit 2; }
timeout 120 target/debug/demo
'''
def rs(s):
    return json.dumps(s,ensure_ascii=False)
def cases_demo(cases):
    lines=[]
    for fl,sym,want in cases:
        f='Flags::empty()' if not fl else ' | '.join('Flags::'+x for x in fl.split('|'))
        w='None' if want is None else f'Some({rs(want)})'
        lines.append(f'        ({f}, {rs(sym)}, {w}),')
    return '''use undname::Flags;

fn main() {
    let cases: &[(Flags, &str, Option<&str>)] = &[
'''+'\n'.join(lines)+'''
    ];
    let mut bad = false;
    for (flags, symbol, want) in cases {
        let got = undname::demangle(symbol, *flags).ok();
        if got.as_deref() != *want {
            println!("{symbol}\\n  want {want:?}\\n  got  {got:?}");
            bad = true;
        }
    }
    std::process::exit(i32::from(bad));
}
'''
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def expected(cases):
    out=[]
    for c in cases:
        if len(c)==3: out.append(c); continue
        r=subprocess.run(['/tmp/dm/target/debug/dm',c[0],c[1]],capture_output=True,text=True).stdout
        want=r[3:].rstrip('\n') if r.startswith('OK') else None
        print('   ',c[0],c[1][:80],'=>',str(want)[:150])
        out.append((c[0],c[1],want))
    return out
def make(bid,prop,edits,needs,breaks,cases=None,demo=None):
    if os.path.exists(f'{OUT}/{bid}'): return True
    if cases: cases=expected(cases)
    d=f'{OUT}/{bid}'
    # apply in /repo (cheap: cached build), always restored
    assert sh('git status --porcelain',R).stdout.strip()=='' , 'dirty'
    try:
        for f,a,b in edits:
            p=f'{R}/src/{f}'; s=open(p).read()
            if s.count(a)!=1: print(bid,'EDIT MATCHES',s.count(a),repr(a[:60])); return False
            open(p,'w').write(s.replace(a,b))
        diff=sh('git diff',R).stdout
        b=sh('bash /opt/vp/build.sh',R)
        if b.returncode: print(bid,'BUILD',b.stderr[-1500:],b.stdout[-500:]); return False
        t=sh('bash /opt/vp/test.sh /tmp/bug_t.json',R)
        j=json.load(open('/tmp/bug_t.json'))
        base=json.load(open('/opt/vp/BASELINE.json'))
        failed=[k for k in json.dumps(j).split('"') if 0]
        f=j.get('failed',[])
        if f: print(bid,'TESTS FAIL',str(f)[:300]); return False
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.rs','w').write(demo or cases_demo(cases))
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        r1=sh(f'bash {d}/demo.sh',R)
    finally:
        sh('git checkout -- .',R)
    r0=sh(f'bash {d}/demo.sh',R)
    ok = r0.returncode==0 and r1.returncode not in (0,2)
    print(bid,'ok' if ok else 'DEMO BAD', r0.returncode, r1.returncode, '' if ok else (r0.stdout[-800:]+'|'+r1.stdout[-500:]+r1.stderr[-300:]))
    if not ok: shutil.rmtree(d)
    return ok

import json,subprocess
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
"C01":("fuzzing: generated, mutated and adversarial inputs; oracle: returns without panic, within a stack and CPU limit","Search over grammar-built symbols, mutations of them and of the repository's own, families of deep, long and extreme inputs. A crash of a worker process is traced to its input. Trusts only that the generator reaches the code; overflow and debug assertions are on."),
"C02":("generated growth families and symbols; oracle: text size, heap high-water mark, acceptance","A counting allocator measures each call. The allowance (48 MiB plus 64 bytes per byte of input) is more than twice what the unchanged code uses."),
"C03":("stateful property testing: random histories of calls on one buffer against a fresh call's result","Model: the text of a fresh call. UTF-8 and capacity are looked at after each step."),
"C04":("property testing of histories, placements, threads and processes; oracle: the first result","Threads run freely, so interleavings are sampled and not enumerated."),
"C05":("property testing: generated types in every position against a reference printer","The model knows the type as a tree and prints it by the rules of C++ declarators; the generator spells the same tree as a symbol. Agreement of generator and model with LLVM and clang is checked by C17 and C18."),
"C06":("property testing: generated function declarations against a reference printer","See C05."),
"C07":("property testing: generated qualified names against a reference printer","See C05."),
"C08":("property testing: generated template argument lists against a reference printer","See C05."),
"C09":("metamorphic: each symbol with references always, randomly and never used reads the same; renumbered ones against a reference demangler","The numbering rules are the model's own, checked against clang by C18."),
"C10":("property testing: generated compiler-made symbols against a reference printer","See C05."),
"C11":("property testing: generated literals against a reference decoder","What a width guess can't tell apart is left out by rule, not by luck."),
"C12":("property testing: generated numbers in every position against the number itself","Magnitudes lean to boundaries: powers of two, ten, sixteen and their neighbours."),
"C13":("metamorphic: pairs of flag sets over generated symbols, plus a reference printer","The relations need no model; the exact texts come from the reference printer."),
"C14":("metamorphic: twin declarations of one name, plus a reference printer","See C05."),
"C15":("differential: generated symbols and edits of them against an independent reference demangler","What nobody specifies (trailing text, unassigned codes) is left open and not judged."),
"C16":("property testing: generated identifiers over Unicode; renaming equivariance","Positions come from the general generator."),
"C17":("differential: generated symbols against LLVM 18's demangler","Known deviations are left out by construction, listed in DESIGN.md."),
"C18":("generated C++ programs compiled by clang; oracle: the declaration itself","Runs clang on generated programs; trusts clang's mangling."),
"C19":("generated growth families; oracle: ratio of instruction counts, by callgrind","Instruction counts don't depend on the machine's speed. The bound is 1.35 times linear growth, over sizes that grow 8-fold."),
"C20":("metamorphic: one generated type in two positions","See C05."),
"C21":("metamorphic: one generated symbol alone and nested","See C05."),
"C23":("fuzzing under Miri, and natively with the checks of unsafe preconditions","Only the inputs generated; Miri interprets about a thousand short ones per quick run, the rest run natively."),
"C24":("differential: generated inputs natively, on 32-bit WebAssembly, and on big-endian s390x under Miri","32-bit platforms run at full speed, more than a million inputs per quick run; about two thousand are interpreted big-endian. Other platforms are represented by these two."),
"C22":("metamorphic: two spellings of one generated symbol","See C05."),
}
checks=[]
for p in P:
    t,n=T[p["id"]]
    i=p["id"]
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=t,level="exploration",level_note=n,evidence_file=f"evidence/{i}.json"))
m=dict(version=1,setup_cmd="./check.sh build",hooks=dict(guard="none",enable="no hooks are needed: the checks use the public API only",source_commits=[]),checks=checks,not_applicable=[],
notes="A harness crate (harness/) with a path dependency on /repo builds and runs everything; see DESIGN.md. known_findings.txt lists what was found and fixed.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

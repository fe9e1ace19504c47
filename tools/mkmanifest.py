import json,os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P={json.loads(l)['id']:json.loads(l) for l in open(HERE+'/properties.jsonl')}
T="contracts generated from the type declaration for every method the real generator emits; deductive verification (symbolic execution, loop invariants, z3) of the emitted Go code"
note={
'C13':"for each of the corpus declarations: the real generator runs, the result type-checks and has exactly the methods asked for; the declarations are a finite corpus",
}
d="for every corpus declaration the emitted code is verified function by function against contracts, for all inputs and all iterations; over declarations (programs) it is a finite corpus; libraries are assumed contracts"
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[{"property":"C20","reason":"determinism of the generator is a relation between two runs of the generator program (map iteration, file system order), which is outside the Go subset the deductive verifier handles; a contract over one run cannot express it here"}],
"notes":"every check rebuilds the verifier, runs the generator of /repo's working tree over the corpus and verifies the emitted code; see DESIGN.md"}
for i in sorted(P):
    if i=='C20': continue
    m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} thorough","technique":T if i!='C13' else "translation validation of the generator: type-checking and method-set contract of every emitted package","level":"translation_validation","level_note":note.get(i,d)})
json.dump(m,open(HERE+'/MANIFEST.json','w'),indent=1)

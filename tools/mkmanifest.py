import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
import subprocess
built=subprocess.run(["/verif/target/release/vh","list"],capture_output=True,text=True).stdout.split()
tech=json.load(open("/verif/tools/techniques.json"))
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],"notes":"All checks are property-based tests or fuzzers in harness/ (Rust), deterministic from VERIF_SEED. The crate under test is compiled from /repo with SanitizerCoverage edge callbacks through a compiler wrapper (rustc-wrap.sh); /repo has no hooks."}
for p in props:
    i=p["id"]
    if i in built:
        t=tech[i]
        m["checks"].append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t[0],"level":"exploration","level_note":t[1]})
    else: m["not_applicable"].append({"property":i,"reason":"check not built yet"})
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1,ensure_ascii=False)+"\n")

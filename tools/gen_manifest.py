import json
tech = {
 'model': "model-based stateful property testing (random operation histories against a reference model, shrinking)",
 'twin': "differential/metamorphic stateful property testing (twin caches in lockstep, shrinking)",
}
kind = {6:'twin',7:'twin',8:'twin',17:'twin',20:'twin',25:'twin'}
notes = {
 18:"Histories of calls on up to four wrappers at a time (16 signatures/callables) against a model of memoisation.",
 19:"As C18 with timed wrappers under a virtual clock moved to the edges of the time to live.",
 21:"ASan, UBSan, libstdc++ assertions, live-object and live-allocation accounting over random histories of everything.",
 22:"A throwing construction/copy/move or a failing allocation at a generated event of an insertion; the state afterwards must be one of those the model permits.",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    n=int(p['id'][1:])
    k=kind.get(n,'model')
    note=notes.get(n,"Generated histories on six cache types (basic and timed; int, string and instrumented keys) judged operation by operation."
        if k=='model' else "Generated histories applied to two caches that the property says are indistinguishable; every result and state compared.")
    checks.append({"property":p['id'],"quick_cmd":"python3 check.py %s"%p['id'],"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%p['id'],
      "technique":tech[k] if n not in(21,22) else ("fault-injecting property testing with shrinking" if n==22 else "random stateful testing and fuzzing under sanitizers with resource accounting"),
      "level":"exploration",
      "level_note":note+" Finds, does not prove: it says the property held on the generated cases (numbers and samples in the evidence). The thorough tier adds 25 times the cases and coverage-guided fuzzing (libFuzzer). Trusts the reference model, clang, libstdc++ and the sanitizers."})
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: time is virtualised by defining steady_clock::now() in the harness, allocation failures come from a replaced operator new. Replay: python3 check.py --replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

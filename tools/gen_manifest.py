import json,os,sys
# property -> (technique, note)
T={
"F01":("runtime monitoring: reference-model oracle over every lamport and token balance along random hostile histories, with an online solvency monitor","histories of the real program under honest, racing and hostile agents"),
"F02":("runtime monitoring: reference-model oracle over deposits with boundary and hostile requests, schedules and prices","deposits at and around every limit, five fee schedules, five batching rates"),
"F03":("runtime monitoring: reference-model oracle over every balance of every party of finalized and rejected sends","complete flows for 12 tokens, recipient kinds, optional fees and verdicts"),
"F04":("runtime monitoring: reference-model oracle over fee transfers with declared fees around the minimum and moving prices","five schedules, five rates, random prices"),
"N01":("runtime monitoring: reference set of spent nullifiers and in-flight locks over racing sends with reused nullifiers","histories in which a third of the sends reuse nullifiers"),
"M01":("runtime monitoring: reference Poseidon tree compared after every batch, trees from empty to full and rolled over","all stored nodes below the next index, old trees with left-overs beyond it"),
"M02":("runtime monitoring: reference window of roots against every submitted root, over tree changes","current, historic, stale, foreign, empty and non-canonical roots"),
"C01":("runtime monitoring: exactly-once and order monitor from accepted deposits and sends to leaves and metadata","commitment and metadata tracked from acceptance to leaf"),
"V03":("runtime monitoring: reference phase automaton of every request over reordered, repeated and mixed transactions","histories with 60% hostile transactions"),
"V04":("runtime monitoring: reference binding of finalization data and companions over deviating finalizations","every bound value, account and companion deviates in turn"),
"A01":("runtime monitoring: every account of accepted transactions replaced and every signature dropped, judged by the reference model","copies owned by other programs, other roles, same-shaped accounts"),
"L01":("runtime monitoring: refusal monitor for transactions the reference model accepts, completion in the published number of steps amid hostile agents","histories ended by completing everything that was started"),
}
extra=os.path.join(os.path.dirname(__file__),"manifest_extra.json")
if os.path.exists(extra):
    for k,v in json.load(open(extra)).items(): T[k]=tuple(v)
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]
for i in ids:
    if i not in T: continue
    t,n=T[i]
    checks.append({"property":i,"quick_cmd":f"VERIF_TIER=quick /verif/check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough /verif/check.sh {i}","technique":t,"level":"exploration","level_note":n})
NA={}
m={"version":1,"setup_cmd":"/verif/setup.sh","checks":checks,"not_applicable":[{"property":i,"reason":NA.get(i,"check not built yet")} for i in ids if i not in T]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),"checks", [i for i in ids if i not in T])

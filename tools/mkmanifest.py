"""Writes MANIFEST.json and checks.json."""
import json
T="deductive verification: Verus contracts on the extracted real code"
TRUST="Trusted: Verus and Z3, the extractor's rewrites, the listed contracts of std and os_str_bytes."
C={}
def c(id, level, note, bounded, nohelp=False, technique=T, scale=1.0, gen=False):
    C[id]=dict(level=level, note=note, bounded=bounded, nohelp=nohelp, technique=technique, scale=scale, gen=gen)
GEN="the derive-generated code is proved for the definitions of gen/list.py; for other definitions, and for flattened groups and help texts, it is covered only by the bounded runs of the corpus definitions"
exec(open('/verif/tools/checks_table.py').read())
json.dump({k:dict(level=v["level"],bounded=v["bounded"],nohelp=v["nohelp"],scale=v["scale"],gen=v["gen"]) for k,v in C.items()}, open('/verif/checks.json','w'), indent=1)
M=dict(version=1, setup_cmd="python3 run.py setup", checks=[
    dict(property=k, quick_cmd=f"VERIF_TIER=quick python3 run.py check {k}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py check {k}", technique=v["technique"], level=v["level"], level_note=v["note"]) for k,v in C.items()],
    not_applicable=[dict(property=k, reason=r) for k,r in NA.items()],
    notes="Two layers: Verus proofs over code extracted from /repo on every run, and a bounded search for failing inputs that replays every alarm on the real crate. See DESIGN.md.")
json.dump(M, open('/verif/MANIFEST.json','w'), indent=1)

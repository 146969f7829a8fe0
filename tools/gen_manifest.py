#!/usr/bin/env python3
# Source of MANIFEST.json
import json, subprocess, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
"P01":"property-based testing: random two-phase circuits, round trip through prover and verifier",
"P02":"property-based testing: reference prover over violated circuits, verdict differential",
"P03":"property-based testing: metamorphic alteration of accepted proofs and statements",
"P04":"property-based testing: differential against an independent implementation of the protocol and its transcript",
"P05":"property-based testing: probing generators that expose blindings, freshness invariants",
"P06":"fuzzing: structure-aware corruption of serialised proofs and points",
"P07":"property-based testing: round trip, differential folding and alteration of inner-product proofs",
"P08":"model-based testing: call sequences against a reference constraint system",
"P09":"property-based testing: algebraic laws against direct evaluation",
"P10":"property-based testing: differential against schoolbook polynomial arithmetic",
"P11":"property-based testing: true statements proved, false ones attacked by generated witnesses",
"P12":"property-based testing: true statements proved, false ones attacked by generated witnesses",
"P13":"property-based testing: true statements proved, false ones attacked by generated witnesses",
"P14":"property-based testing: true statements proved, false ones attacked by generated witnesses",
"P15":"property-based testing: differential against a reference hash, false images attacked by generated witnesses",
"P16":"property-based testing: differential against an independent Poseidon over a copy of the constants",
"P17":"property-based testing: circuit against reference hash, false outputs attacked by generated witnesses",
"P18":"model-based testing: update histories against a map hashed by a reference tree",
"P19":"property-based testing: true paths proved, false ones attacked by generated witnesses",
"P20":"property-based testing: true modifications proved, false ones attacked through a reference prover",
"P21":"property-based testing: random joint systems of gadgets with at most one false part",
"P22":"property-based testing: random generator lengths against the exact requirement",
"P23":"property-based testing: calling conventions against recomputed commitments, wrong-length inputs",
"P24":"property-based testing: serialisation round trip",
"P25":"property-based testing: differential against direct references, model-based store histories",
}
NOTE="Held on every generated case (counts, classes and samples in the evidence file); a sample, not a proof. Trusts amcl_wrapper's field and curve arithmetic, merlin and serde, and the harness's own references. "
EXTRA={
"P02":"A rejection by chance has probability about 2^-255 per case.",
"P05":"Detects absent, constant, repeated and simply related blindings; not a statistical test of the random source.",
"P11":"The witness search is exact where propagation decides the verifier's constraints (the class counts say how often) and heuristic otherwise.",
"P16":"The reference constants are a copy taken from the repository at the pinned commit; the matrix is recomputed from its formula.",
"P18":"Indices within the tree; the store is the in-memory one.",
}
for k in ("P12","P13","P14","P15","P17","P19"): EXTRA[k]=EXTRA["P11"]
ids=[json.loads(l)["id"] for l in open(H+"/properties.jsonl")]
hook=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^verif hooks"],text=True).split()
m={"version":1,"setup_cmd":"bash check.sh setup",
 "hooks":{"guard":"cfg(verif_hooks)","enable":'RUSTFLAGS="--cfg verif_hooks" when building the harness (check.sh); without it nothing changes',"source_commits":hook},
 "checks":[{"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}","evidence_file":f"evidence/{i}.json","technique":TECH[i],"level":"exploration","level_note":(NOTE+EXTRA.get(i,"")).strip()} for i in ids],
 "not_applicable":[]}
json.dump(m,open(H+"/MANIFEST.json","w"),indent=1); open(H+"/MANIFEST.json","a").write("\n")

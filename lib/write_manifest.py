#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (development only; the file is committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
NA = {}
note = ("Every path of the compiled code (LLVM IR of the crate and of std, regenerated from /repo on each run) is explored with symbolic inputs; each assertion is decided by Z3 or by simplification "
        "for all values within the bounds listed in the evidence file. Nothing is claimed outside the bounds. Trusted: rustc's lowering to LLVM IR, the interpreter in engine/ (its path models are re-run natively and compared), Z3.")
man = dict(version=1, setup_cmd="./check.py --setup",
           hooks=dict(guard="cfg(phlite_verif)", enable='RUSTFLAGS="--cfg phlite_verif" (set by check.py)', source_commits=json.load(open(os.path.join(HERE, "hooks.json")))),
           checks=[dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                        technique="symbolic execution of the compiled LLVM IR with SMT (Z3), counterexamples replayed natively", level="model_checking", level_note=note)
                   for i in ids if i in props.PROPS],
           not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in props.PROPS])
json.dump(man, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)

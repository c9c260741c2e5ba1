#!/usr/bin/env python3
"""Writes /verif/checks.json and /verif/MANIFEST.json"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
checks, na = {}, {}
SYNC_LOCK = "fieldx::sync::{FXRwLock::{read,write,into_inner,clone,eq,from}}"
PROXY_SYNC = "fieldx::sync::FXProxySync::{new_default,is_set,read,read_mut,try_read,try_read_mut,read_or_init,write,clear,clear_with_lock,into_inner,clone,eq}, FXWrLockGuardSync::{store,clear}"
PROXY_ASYNC = "fieldx::r#async::FXProxyAsync::{new_default,is_set,read,read_mut,try_read,try_read_mut,read_or_init,write,clear,clear_with_lock,into_inner}, FXWrLockGuardAsync::{store,clear}"
GEN = "every method generated by fieldx_derive for the declarations of "

def c(id, n, functions, note, trusted=(), assumptions=()):
    checks[id] = {"title": titles[id], "min_harnesses": n, "functions": functions, "trusted": list(trusted),
                  "assumptions": list(assumptions), "note": note}

def n(id, reason):
    na[id] = reason

exec(open(V + "/tools/claims.py").read())

json.dump({k: {x: v[x] for x in v if x != "note"} for k, v in checks.items()}, open(V + "/checks.json", "w"), indent=1)
LEVEL = ("Deductive contract verification of the real, macro-expanded code for all values, states and environment steps; "
         "declarations are enumerated. Trusts Kani/CBMC and the contracts of the lock dependencies. ")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "verif_hooks (cargo feature of fieldx_derive)",
        "enable": "the harness crate depends on fieldx_derive with features = [\"verif_hooks\"]",
        "source_commits": ["6b935236709118d06cc4062baa910b84a76099c9"],
    },
    "checks": [{
        "property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"python3 check.py {k} --thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": "contracts on the generated methods and containers, discharged by Kani (CBMC) per method",
        "level": "proof", "level_note": LEVEL + v["note"],
    } for k, v in sorted(checks.items())],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
}
assert set(checks) | set(na) == set(titles) and not set(checks) & set(na), set(titles) ^ (set(checks) | set(na))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
EX, MC, FE = "exploration", "model_checking", "fault_enumeration"
CHECKS = {
 "P01": (MC, "bounded exhaustive exploration of payment histories on real stocks; each holding exported, validated and accepted by an empty stock"),
 "P02": (MC, "bounded exhaustive exploration of issue/pay/deliver/sweep/share sequences on real stocks in lock-step with a reference ledger"),
 "P05": (MC, "bounded exhaustive exploration of witness status updates, with failing queries and cut-off heights, in lock-step with a reference ledger"),
 "P28": (MC, "all sequences of imports of kits and a contract up to a depth, all subsets of parts, on the real stock; every lookup, builder and export compared with a model of what is known"),
 "P29": (MC, "bounded exhaustive exploration of interleaved transaction replacements, deliveries and status changes in lock-step with a reference ledger"),
 "P18": (MC, "bounded exhaustive exploration of payment and status histories; every subset of outpoints looked up after every step and compared with a reference ledger"),
 "P19": (MC, "bounded exhaustive exploration of orders of storing blinded seals, paying, delivering and re-delivering over several wallets and contracts, in lock-step with a reference ledger"),
 "P20": (MC, "bounded exhaustive exploration of histories; every interface query under every subset filter, and wallet histories, compared with a reference ledger"),
 "P21": (MC, "bounded exhaustive exploration of publication and status histories; global state compared with a reference ledger"),
 "P03": (MC, "for all bounded histories: all delivery orders with repetitions of the parcels cut from them, explored to a fixpoint on real stocks in lock-step with a reference ledger"),
 "P22": (MC, "exhaustive kit configurations and bounded exhaustive histories; each export imported into an empty stock, compared with a reference ledger and exported again"),
 "P23": (MC, "all assignments of closing methods to contracts sharing a transaction and all arrival orders of the parts, on real stocks in lock-step with a reference ledger"),
 "P24": (MC, "bounded exhaustive payment histories with both ways of ingestion on copies of one stock, compared with each other and with a reference ledger"),
 "P04": (EX, "exhaustive product of portfolios, subsets of spent outputs, boundary invoices, beneficiary kinds, output allocators and blinding policies; each batch compared with the invoice and the reference ledger"),
 "P06": (MC, "bounded exhaustive histories on stocks kept on disk, saved in each of three ways and loaded back after every step, in lock-step with a reference ledger"),
 "P07": (FE, "bounded exhaustive histories; every file system call of every save turned into a crash, an error or a series of errors, with partial writes; directory loaded and operation repeated"),
 "P08": (FE, "bounded exhaustive histories; every operation repeated with each call to the chain backend and each write to the storage failing, and with conflicting inputs; outcome compared with the run without failures"),
 "P09": (EX, "all pairs and triples of disclosure patterns of operations, bundles, witnesses and anchors, merged by the implementation and compared with the union computed from the patterns"),
 "P10": (FE, "a family of containers in every form of storage; every failing write, truncation, single-character and line-level alteration of texts, and confusion of kinds, against equality with the stored container"),
 "P11": (EX, "every byte of every part of a family of containers altered, every element removed, all pairs compared; same identifier only with same content or a reported inconsistency"),
 "P12": (FE, "every element of consignments from all histories up to a depth altered, dropped, repeated, moved or committed anew, with traces covered step by step, against all answers of the chain; altered consignments must be refused or teach a stock nothing but genuine state"),
 "P13": (EX, "exhaustive enumeration of invoice field products, single-character edits and short texts on the real formatter and parser"),
 "P14": (EX, "exhaustive enumeration of value x precision x text grids and all operand pairs against 128-bit reference arithmetic"),
 "P15": (MC, "all call sequences to the real operation builders up to a depth, each completed operation compared with a model of the accepted calls"),
 "P16": (EX, "all alterations of a correct implementation in singles and pairs, and derivation for all ancestors, against an independent definition of correct binding"),
 "P17": (EX, "all pairs of parent and extension over a grid of interface facets, compared with a reference merge; all alterations of consistent interfaces and derived schemata"),
 "P25": (MC, "all sequences of annotations (also at the limits of size), of imports of supplements and signatures and of trust changes up to a depth on the real stock, compared with a set model after each step"),
 "P26": (EX, "all short texts over character ranges and all lengths about the limits for every text type, products of composite values, all triples for the laws of equality and order"),
 "P27": (EX, "exhaustive enumeration of networks x address kinds x closing methods x payload patterns, all byte heads and short names"),
}
NA = {}
import sys
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
note = {
 EX: "every element of a finite, stated input space is executed on the real code and compared with an independent oracle; no sampling",
 MC: "all operation sequences up to the stated depth over a finite alphabet are executed on the real code and every reached state is compared with an independent reference model; model and implementation are stepped together, so each trace is validated against the implementation",
 FE: "every failure point of the stated histories is injected exactly once on the real code and the outcome compared with the fault-free run",
}
m = {"version": 1, "setup_cmd": "bash /verif/run.sh build", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
for p in props:
    if p not in CHECKS: continue
    lv, tech = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick bash /verif/run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/run.sh {p}",
      "evidence_file": f"/verif/evidence/{p}.json", "technique": tech, "level": lv, "level_note": note[lv]})
m["notes"] = "Checks build /verif/mc against /repo (path dependency) into /verif/target; no hooks are compiled into /repo."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [p for p in props if p not in CHECKS and p not in NA], "without")

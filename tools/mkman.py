import json,os
T={
"C01":"generated definitions x values, round trip against an independent reference model; exhaustive out-of-range rejection",
"C02":"exhaustive field-kind sequences and generated definitions x inputs, masked byte comparison against a reference model",
"C03":"differential testing of compiled and interpreted readers over enumerated and generated definitions, inputs and truncations",
"C04":"generated C declarations against ctypes and gcc; layout/len/sizeof/consumed/produced agreement over generated definitions",
"C05":"exhaustive small-width codec enumeration plus generated values and endian-switch histories against int/struct/codecs oracles",
"C06":"exhaustive width compositions of 8-bit units x all contents, generated bit-field structures, independent bit slicing",
"C07":"enumerated element x form x count grid plus generated definitions against a reference model",
"C08":"fault injection: every cut point and every failing or short read call over generated definitions; residue check",
"C09":"metamorphic relations over positions, surrounding bytes, input kinds and call forms on generated definitions",
"C10":"exhaustive operator triples and generated expression trees against a recursive evaluator",
"C11":"stateful assignment histories on generated unions against a byte-buffer model",
"C12":"generated enum/flag definitions x all or boundary underlying values against a C numbering model",
"C13":"metamorphic: token-boundary whitespace/comments, permutations, alias histories against the plain text",
"C14":"stateful histories over instances, defaults and cstruct objects with deep snapshots and a fresh-process oracle",
"C15":"controlled line-granular thread schedules generated with sys.settrace, compared with sequential results",
"C16":"generated pointer structures and operation histories against parsing at the absolute offset",
"C17":"generated instance pairs, constructor forms and assignments against field-wise comparison and model dumps",
"C18":"generated field lists x commit batching x self reference against the one-shot definition",
"C19":"generated byte strings, palettes, integers and structures against an inverse hexdump parser and two's complement",
"C20":"generated definition sets; ast of the stub against the loaded cstruct object",
}
done=[c for c in T if os.path.exists(f"/verif/checks/{c.lower()}.py")]
m={"version":1,"setup_cmd":"python3-vt -c 'import sys; sys.path.insert(0, \"/repo\"); import dissect.cstruct'",
"checks":[{"property":c,"quick_cmd":f"python3-vt run.py {c} --tier quick","thorough_cmd":f"python3-vt run.py {c} --tier thorough",
"evidence_file":f"evidence/{c}.json","technique":"property-based testing: "+T[c],
"level":"fault_enumeration" if c=="C08" else "exploration",
"level_note":"Generated-input search (seeded, shrunk to a replay file) plus bounded exhaustive enumeration where named; evidence lists what was covered. Trusts the oracle named in technique and the Python interpreter; nothing is proved beyond the explored cases."} for c in done],
"not_applicable":[{"property":c,"reason":"check under construction"} for c in T if c not in done],
"notes":"Checks import dissect.cstruct from /repo's working tree; no build products, no hooks."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)

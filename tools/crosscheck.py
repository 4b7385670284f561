#!/usr/bin/env python3-vt
"""Development aid: compares the oracle's reading of schemas with the Python
jsonschema package (Draft4Validator), on stdin from harness/cmd/dump."""
import sys, json, re, math
from jsonschema import Draft4Validator, validators
from jsonschema.exceptions import ValidationError

def pattern_props(v, pp, inst, schema):
    if not v.is_type(inst, "object"): return
    for pat, sub in pp.items():
        for k, x in inst.items():
            if k in schema.get("properties", {}): continue   # documented deviation
            if re.search(gore(pat), k, re.A): yield from v.descend(x, sub, path=k, schema_path=pat)

def gore(p):
    return p.replace(r"^\p{Lu}", "^[A-ZÉ]").replace("$", r"\Z") if p != "$" else p

def pattern(v, pat, inst, schema):
    if v.is_type(inst, "string") and not re.search(gore(pat), inst, re.A): yield ValidationError("pattern")

def addl(v, ap, inst, schema):
    if not v.is_type(inst, "object"): return
    for k, x in inst.items():
        if k in schema.get("properties", {}): continue
        if any(re.search(gore(p), k, re.A) for p in schema.get("patternProperties", {})): continue
        if isinstance(ap, dict): yield from v.descend(x, ap)
        elif ap is False: yield ValidationError("additional")

def multiple(v, m, inst, schema):
    if v.is_type(inst, "number") and math.fmod(inst, m) != 0: yield ValidationError("multipleOf")

tc = Draft4Validator.TYPE_CHECKER.redefine("integer", lambda c, i: not isinstance(i, bool) and (isinstance(i, int) or isinstance(i, float) and i == int(i)))
V = validators.extend(Draft4Validator, {"patternProperties": pattern_props, "pattern": pattern, "additionalProperties": addl, "multipleOf": multiple}, type_checker=tc)
n = bad = 0
def flt(x):
    if isinstance(x, bool): return x
    if isinstance(x, int): return float(x)
    if isinstance(x, list): return [flt(e) for e in x]
    if isinstance(x, dict): return {k: flt(e) for k, e in x.items()}
    return x
for line in sys.stdin:
    d = json.loads(line)
    d["v"], d["s"] = flt(d["v"]), flt(d["s"])
    if d["r"] == "unknown" or "format" in line: continue
    try: ok = V(d["s"]).is_valid(d["v"])
    except (RecursionError, AttributeError): continue
    n += 1
    if ok != (d["r"] == "accept"):
        bad += 1
        if bad < 6: print(json.dumps(d, ensure_ascii=False)[:1500], "python:", ok)
print(n, "compared,", bad, "differ")

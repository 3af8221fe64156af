#!/usr/bin/env python3
"""Lists the C API functions with the meaning of their arguments (harness/capi_list.inc), from the public headers."""
import glob, os, re
R = os.environ.get("VERIF_REPO", "/repo")
txt = ""
for h in sorted(glob.glob(R + "/src/helics/shared_api_library/*.h")):
    t = open(h).read()
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    t = re.sub(r"^\s*#.*$", " ", t, flags=re.M)
    txt += t
KIND = {"HelicsFederate": "f", "HelicsPublication": "p", "HelicsInput": "i", "HelicsEndpoint": "e", "HelicsMessage": "m", "HelicsFilter": "F",
        "HelicsTranslator": "t", "HelicsCore": "c", "HelicsBroker": "b", "HelicsQuery": "q", "HelicsFederateInfo": "n", "HelicsDataBuffer": "d",
        "HelicsApp": "a", "HelicsQueryBuffer": "Q"}
out = []
for m in re.finditer(r"HELICS_EXPORT\s+([^;{}]*?)\b(helics\w+)\s*\(([^;]*)\)\s*;", txt):
    ret, name, args = m.group(1).replace("HELICS_DEPRECATED", "").strip(), m.group(2), " ".join(m.group(3).split())
    parts, d, cur = [], 0, ""
    for ch in args:
        d += ch == "("
        d -= ch == ")"
        if ch == "," and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip() and cur.strip() != "void":
        parts.append(cur)
    k = ""
    for a in parts:
        a = a.strip()
        ty = a.split()[0]
        if "(" in a:
            k += "C"
        elif ty in KIND:
            k += KIND[ty]
        elif a.startswith("HelicsError"):
            k += "E"
        elif "const char* const*" in a or "argv" in a:
            k += "G"
        elif re.match(r"const char\s*\*", a):
            k += "s"
        elif re.match(r"char\s*\*", a):
            k += "X"
        elif re.match(r"const void\s*\*", a) or re.match(r"const double\s*\*", a):
            k += "D"
        elif re.match(r"void\s*\* ?data", a):
            k += "X"
        elif re.match(r"void\s*\*", a):
            k += "u"
        elif re.match(r"double \w+\[\]", a):
            k += "V"
        elif re.match(r"double\s*\*", a):
            k += "r"
        elif re.match(r"int(32_t)?\s*\*", a):
            k += "o"
        elif ty in ("int", "int32_t") and re.search(r"(len|size|length|count|capacity|argc)", a, re.I):
            k += "L"
        elif ty in ("int", "int32_t", "HelicsBool", "int64_t", "HelicsIterationRequest", "HelicsSequencingModes", "HelicsDataTypes", "HelicsFilterTypes", "HelicsTranslatorTypes"):
            k += "I"
        elif ty in ("double", "HelicsTime"):
            k += "R"
        elif ty == "char":
            k += "I"
        elif ty == "HelicsComplex":
            k += "Z"
        else:
            k += "?"
    rk = "H" if ret in KIND else "s" if ret.startswith("const char") else "T" if ret == "HelicsTime" else "v" if ret == "void" else \
        "P" if ret.endswith("*") else "B" if ret == "HelicsBool" else "R" if ret == "double" else "Z" if ret == "HelicsComplex" else "I"
    out.append((name, rk, k, KIND.get(ret, "")))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/harness/capi_list.inc", "w") as f:
    f.write("// generated by tools/gen_capi.py: name, result, arguments\n")
    for n, r, k, h in sorted(set(out)):
        f.write(f'API({n}, \'{r}\', "{k}", "{h}")\n')
print(len(out), [o for o in out if "?" in o[2]])

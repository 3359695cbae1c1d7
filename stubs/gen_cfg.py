#!/usr/bin/env python3
"""Generates dynamic_reconfigure config structs from /repo's cfg files (parsed as text by a recorder object)."""
import ast, os, sys
repo, out = sys.argv[1], sys.argv[2]
CT = {"double_t": "double", "int_t": "int", "bool_t": "bool", "str_t": "std::string"}
for pkg, fn in (("planner_cspace", "Planner3D"), ("safety_limiter", "SafetyLimiter"), ("trajectory_tracker", "TrajectoryTracker")):
    fs = []
    path = f"{repo}/{pkg}/cfg/{fn}.cfg"
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "add":
            a = node.args
            d = ast.literal_eval(a[4]) if len(a) > 4 else 0
            fs.append((a[0].value, CT[a[1].id], d))
    ini = ", ".join(f"{n}({str(d).lower() if t == 'bool' else d})" for n, t, d in fs)
    text = "#pragma once\n#include <string>\nnamespace %s {\nstruct %sConfig\n{\n%s\n  %sConfig() : %s {}\n};\n}\n" % (
        pkg, fn, "\n".join(f"  {t} {n};" for n, t, d in fs), fn, ini)
    p = f"{out}/{pkg}/{fn}Config.h"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)

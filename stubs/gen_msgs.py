#!/usr/bin/env python3
"""Generates ROS message stub headers (plain structs, declarations clang can parse) from msgs.spec."""
import os, sys
src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "msgs.spec")
out = sys.argv[1]
PRIM = {"string": "std::string", "time": "ros::Time", "duration": "ros::Duration",
        "float32": "float", "float64": "double"}
for w in ("8", "16", "32", "64"):
    PRIM["int" + w] = "int%s_t" % w
    PRIM["uint" + w] = "uint%s_t" % w

def cxx(t):
    if t.endswith("]"):
        base, n = t[:-1].split("[")
        b = cxx(base)
        return "std::vector<%s>" % b if n == "" else "boost::array<%s, %s>" % (b, n)
    if t in PRIM:
        return PRIM[t]
    p, n = t.split("/")
    return "::%s::%s" % (p, n)

def deps(t):
    t = t.split("[")[0]
    return [] if t in PRIM else [t]

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)

for line in open(src):
    line = line.strip()
    if not line or line.startswith("#"):
        continue
    if line.startswith("srv "):
        p, n = line[4:].split("/")
        write(f"{out}/{p}/{n}.h", f"""#pragma once
#include <{p}/{n}Request.h>
#include <{p}/{n}Response.h>
namespace {p} {{ struct {n} {{ typedef {n}Request Request; typedef {n}Response Response; Request request; Response response; }}; }}
""")
        continue
    if line.startswith("act "):
        p, n = line[4:].split("/")
        write(f"{out}/{p}/{n}Action.h", f"""#pragma once
#include <{p}/{n}Goal.h>
#include <{p}/{n}Result.h>
#include <{p}/{n}Feedback.h>
namespace {p} {{ struct {n}Action {{ typedef {n}Goal Goal; typedef {n}Result Result; typedef {n}Feedback Feedback; }}; }}
""")
        continue
    head, _, body = line.partition(":")
    p, n = head.strip().split("/")
    fields, consts, incs, init = [], [], [], []
    for part in body.split(";"):
        part = part.strip()
        if not part:
            continue
        if part.startswith("const "):
            _, t, kv = part.split()
            k, v = kv.split("=")
            consts.append(f"  enum {{ {k} = {v} }};")
        else:
            t, nm = part.split()
            fields.append(f"  {cxx(t)} {nm};")
            incs += deps(t)
            if t.startswith(("int", "uint", "float")) and "[" not in t:
                init.append(f"{nm}(0)")
    inc = "".join(f"#include <{d}.h>\n" for d in dict.fromkeys(incs))
    ctor = f"  {n}(){' : ' + ', '.join(init) if init else ''} {{}}"
    write(f"{out}/{p}/{n}.h", f"""#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <ros/time.h>
{inc}namespace {p} {{
struct {n}
{{
  typedef boost::shared_ptr<{n}> Ptr;
  typedef boost::shared_ptr<const {n}> ConstPtr;
{chr(10).join(fields + consts)}
{ctor}
}};
typedef boost::shared_ptr<{n}> {n}Ptr;
typedef boost::shared_ptr<const {n}> {n}ConstPtr;
}}
""")

#!/usr/bin/env python3
"""Writes sa/api.txt: the functions of the public interface that take pointers (judged on their own by P25; a function that is
not in the list, for example a helper extracted later, is judged through its callers)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import programs
from sa.rules.repo import DRV
from sa.rules.nulls import analysed_functions, raw_pointer, locally_internal
from sa.ir import strip_tmpl

prog = programs.whole(*DRV)
names = {strip_tmpl(f.qual) for f in analysed_functions(prog)
         if any(raw_pointer(p["t"]) or "_ptr<" in p["t"] for p in f.params) and not locally_internal(f)}
with open(os.path.join(V, "sa", "api.txt"), "w") as f:
    f.write("\n".join(sorted(names)) + "\n")
print(len(names), "functions")

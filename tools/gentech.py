#!/usr/bin/env python3
import json,os
V="value-flow analysis (gated value graph over SSA: canonical terms, merged at joins, loops summarised) compared with a specification term"
N="Decides the stated clauses for all inputs within the analysis' model: integers unbounded, floats as reals, the standard library as documented, success paths only; a function the analysis cannot resolve is listed as undecided in the evidence and raises no alarm."
T={}
def t(i,tech,note): T[i]=dict(technique=tech,note=note)
for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C18 C19 C23 C24 C25 C26 C27 C28 C31 C33 C34 C35".split(): t(i,V,N)
t("C11",V,N)
t("C13","sharing analysis (flow-, context- and field-sensitive abstract heap) of the save call tree: every write to memory that belonged to the document; value-flow comparison of the building steps","Writes to memory reachable from the document on entry are violations, except the derived fields of font and image records, whose values are decided by specification.")
t("C14","effect and dependence analysis of every map iteration; call-graph reachability of time and randomness","All loops over maps reachable from the API are classified; one named exception.")
t("C15","ordering analysis on the control-flow graph: destination operations against fallible steps","All paths of the saving call trees.")
t("C16","path-sensitive error typestate on SSA","Every call site with an error result reachable from the API; documented never-failing calls excepted.")
t("C17","path-sensitive commit/failure ordering with alias analysis","All paths of the exported editing methods and their callees; orphan objects (unreferenced) are not counted as changes.")
t("C20","interprocedural alias analysis (field-based) from API parameters to writes","Over-approximates aliasing; library calls by table.")
t("C21","interprocedural alias analysis from package variables to writes","Over-approximates aliasing; library calls by table.")
t("C22","call-graph reachability","Deliberate termination only; run-time panics on malformed input are not covered (see C36).")
t("C29","flow-sensitive nil-ness analysis of every result that may be missing (calls, map entries), with callee summaries; value-flow comparison of the lookups with specification terms","All paths from each lookup; a condition computed indirectly from the question is accepted as asking it. "+N)
t("C30",V,N)
t("C32","path-sensitive open/close pairing","All paths after every os.Open/Create/OpenFile, with ownership transfer.")
T["C36"]=dict(na="absence of run-time panics and non-termination on arbitrary byte input depends on run-time values (token counts, offsets, cyclic references) that no static argument in reach bounds; the structural part (missing objects) is C29, deliberate termination is C22",technique="",note="")
T["C37"]=dict(na="rendering equality quantifies over the semantics of arbitrary PDF content interpreted by a viewer; its structural parts are C04, C06, C07, C09 and C12",technique="",note="")
json.dump(T,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"techniques.json"),"w"),indent=1)

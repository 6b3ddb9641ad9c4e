#!/opt/veriftools/pyvenv/bin/python
"""Writes MANIFEST.json from the list of built checks below (run by hand after adding one)."""
import json, os
POLY = 'All sizes, options and call sequences at once, no bound; a function is proved only when every obligation holds. The few functions the engine cannot decide in its budget are listed in the evidence and not judged. Assumes finite options in int range, no int overflow of size plus periods, the standard containers behave as modelled.'
VAL = 'A few option vectors, lengths and cuts per indicator (contexts), all bar values at once in each; loops are unrolled in the abstract. A value that loses its normal form is counted in the evidence and not judged, so the verdict on an indicator may be partial. Disregards rounding, ties and zero denominators.'
CHECKS = {
 'C01': ('other', 'abstract interpretation over convex polyhedra (sizes, options, positions), exact refutation in narrow contexts', POLY),
 'C04': ('other', 'abstract interpretation over convex polyhedra with an inductive invariant of the stream between calls', POLY),
 'C17': ('other', 'abstract interpretation over convex polyhedra: bounds of every access to owned memory', POLY),
 'C21': ('other', 'termination analysis: linear ranking arguments over polyhedral loop invariants', POLY),
 'C02': ('other', 'abstract interpretation: dependence sets and value numbering over symbolic bars, two series lengths compared', VAL),
 'C03': ('other', 'abstract interpretation: value numbering over symbolic bars through sequences of stream calls', VAL),
 'C15': ('other', 'abstract interpretation: definedness of values through memory, arithmetic and control', VAL),
 'C19': ('other', 'abstract interpretation: value numbering over symbolic bars, normal forms of the variants compared', VAL),
 'C05': ('other', 'interprocedural memory-effect and call-target analysis on LLVM IR', 'Every load, store and call of every entry point is classified by base object; anything outside arguments, locals, own allocations and constants, or any external function outside a pure allowlist, is reported. Trusts clang/LLVM 18 and the allowlist.'),
 'C06': ('other', 'conditional constant propagation of option vectors, verdicts compared between variants', 'Finite set of representative option orderings per indicator (exhaustive over the comparisons in most indicators, pairwise in those with many options); NaN/inf options are not covered.'),
 'C07': ('other', 'conditional constant propagation and effect scan of rejecting paths', 'All blocks that execute on a rejected representative are free of effects; period-named options must be rejected below their minimum. NaN/inf options are not covered.'),
 'C08': ('proof', 'path-sensitive typestate of every acquisition site (failure branch)', 'For each acquisition site every path from its failure is followed to a TI_OUT_OF_MEMORY return. Assumes sizes within max_size; opaque standard containers are modelled as may-throw.'),
 'C09': ('proof', 'path-sensitive typestate / ownership analysis of every acquisition site', 'Each acquired object is followed on all paths to release or hand-over; stream destructors are compared with constructors. Objects whose address escapes into unmodelled memory are counted, not judged.'),
 'C10': ('other', 'constant evaluation of the compiled registry against access summaries of the functions', 'All table fields of all indicators against the indices their functions access, and the constants in the dispatchers.'),
 'C11': ('proof', 'constant propagation of every class of strings through the compiled lookup', 'The 2K+1 order classes of strings cover all strings for a lookup that compares the string with table names; confusable constant strings on top. Trusts strcmp.'),
 'C12': ('proof', 'type-level witnesses: static_asserts generated from the ctypes declarations', 'Every declared ctypes structure, signature and constant becomes a static_assert against the generated header; the compiler decides. Trusts the parser of impl.py.'),
 'C14': ('proof', 'effect and termination (loop-freedom / bounded trip count) analysis of start functions', 'All 161 start functions, all paths.'),
 'C16': ('proof', 'points-to based write and escape analysis', 'All stores and escaping pointers of all entry points; points-to is field-insensitive for caller memory.'),
}
NA = {
 'C13': 'not claimed yet: under construction',
 'C18': 'not claimed yet: under construction',
 'C20': 'a bound on a floating-point result depends on cancellation and rounding in running sums over unbounded series; interval analysis of the code gives no finite bound (running sums widen to infinity), so no sound static verdict in reach says anything',
}
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the checks read the unmodified sources. All checks are static (LLVM IR / Python AST of the current working tree); nothing of the library is executed, except that codegen.py, a build step, generates its two files in a scratch copy.'}
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
for i in ids:
    if i in CHECKS:
        lv, t, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough ./check.py ' + i, 'technique': t, 'level': lv, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)

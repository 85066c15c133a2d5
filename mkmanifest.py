#!/usr/bin/env python3
"""Writes MANIFEST.json from the two tables below (properties.jsonl has the statements)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CLAIM = {
 "C01": ("abstract interpretation of LLVM IR (polynomial linear-arithmetic bounds with loop invariants, Farkas/simplex certificates)",
         "all accesses of 44 library functions, every argument value within the size domain; accesses that involve data-dependent search results are listed as undecided and raise no alarm"),
 "C02": ("context-sensitive abstract execution of LLVM IR with invalid arguments as abstract values; divisors and terminating calls by the numeric domain",
         "40 operations x each invalid argument, all paths, all other arguments unknown; divisors and terminating calls for all arguments in the size domain"),
 "C03": ("path-sensitive abstract execution of LLVM IR with allocation failures forked (null-pointer typestate)",
         "all paths of the library and of the command line program, states merged when equal; external routines by their standard description"),
 "C04": ("path-sensitive ownership typestate over LLVM IR (live/freed/escaped blocks and files), interprocedural by inlining and summaries",
         "all paths of the library and of the command line program, states merged when equal; a block stored at a place the analysis cannot name counts as handed over"),
 "C05": ("interprocedural pointer-origin (mod/ref) effect analysis on LLVM IR",
         "flow-insensitive over-approximation of written objects; external routines by their standard description"),
 "C06": ("abstract interpretation of LLVM IR: sizes, wrap-arounds and reported dimensions as polynomials over the arguments, decided by linear arithmetic",
         "every allocation size and returned block of 44 library functions, all argument values without a size limit; a violation needs a point of the constraint system, an unproven size is listed as undecided"),
 "C07": ("symbolic pixel maps extracted from the LLVM IR's loop nests (affine index maps with mixed-radix decomposition), compared with the specified bijections; coverage by counting iteration boxes",
         "12 operations/channel counts (border 1, 3, 4 channels), all image sizes; code whose index maps cannot be put in closed form is listed as undecided"),
 "C08": ("closed-form store sets extracted from the LLVM IR's loop nests: residue classes of the positions, finite value sets of the stored values, channel equality as an inductive invariant of basic blocks, coverage by counting iteration boxes",
         "21 obligations of 15 operations, all image sizes and parameters; a violation needs a wrong byte of the closed forms at a concrete small size, an unproven obligation is listed as undecided"),
 "C09": ("closed-form write sets of every allocated block extracted from the LLVM IR's loop nests, coverage by counting iteration boxes jointly over the branches of a loop body; definite-assignment dataflow for local variables and arrays",
         "40 malloc'ed blocks of 39 function/channel variants, all sizes; a block without closed-form write set (the watershed queue) is listed as undecided; a violation needs a byte the closed forms leave unwritten at a concrete small size"),
 "C10": ("complete tabulation of every colour formula extracted from the LLVM IR (all 2^24 colours), closed-form maps from pixel to grey, dependence analysis of the contrast stretch",
         "7 operations/channel counts; a formula that cannot be extracted as an expression over one pixel is listed as undecided"),
 "C11": ("path-sensitive abstract execution of LLVM IR with operation names as constants and parameters as symbolic terms; call arguments compared with the specified expressions; field-flow of the operation list",
         "43 cases of the dispatcher, 54 of the parser, the list's fields and the executor's chaining; parameter texts are described by the separators they are cut at; the terms are compared as expressions (identical, or equal on 60 sample valuations)"),
 "C12": ("path-sensitive abstract execution of LLVM IR of main with a protocol of the steps (typestate of load/parse/execute/write), callee failure outcomes from summaries",
         "all paths of main for 14 command line shapes, every step succeeding or failing; execute_pipeline and the dispatcher by their explored outcomes"),
 "C13": ("path-sensitive abstract execution of LLVM IR of main per orientation and file name; exhaustive value analysis of the reader's results over the 16-bit tag value",
         "36 runs (orientations 1-8, extensions, failures) and all results of the reader"),
 "C15": ("dataflow of loop-carried values: counters with a constant step are discharged; for every other loop the ways from its header back to it are examined for one that leaves every value its branches depend on (header phis, memory cells, file position) unchanged; plus counters narrower than their bound, zero steps, overstepped equality tests, floating-point counters that stop growing, loops without exit, unconditional recursion",
         "all 183 loops of the library: 163 have a discharged counter, the others are examined for repeating ways (none) but not proved to stop; a violation names the way through the loop that repeats; the arguments named in it are evaluated against the branches before the loop"),
 "C16": ("abstract interpretation of the parser over all strings at once: every character is a set of possible bytes, refined at branches; numbers are sums of tables over single characters; each returning state is compared with the specified language and values",
         "the whole parser, including the scanning library calls (strlen, strspn, sscanf, strtol, ctype), for strings of any length (more than ten characters is one class); constructs outside the domain are reported as undecided, not as violations"),
}
NA = {
 "C31": "quantifies over sums of runtime pixel values with data-dependent normalisation; no sound static argument in reach bounds the quotients",
 "C32": "optimality of a threshold over a runtime histogram; a functional-correctness proof, outside static analysis",
 "C33": "reachability over runtime image content",
 "C34": "accuracy on photographs is an empirical quantity",
 "C35": "numerical accuracy of a floating-point elimination; needs error analysis over runtime values",
 "C36": "maximality of a data-dependent search result",
 "C37": "relation between output pixels and counts accumulated at run time over the whole image",
 "C38": "algebraic laws over all images relate several whole-image computations; not decidable from one function's source in reach",
 "C39": "depends on the behaviour of the stb PNG encoder and a decoder over all pixel data",
}
NOTYET = "no check of sufficient precision has been built for it (see DESIGN.md)"
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIM:
            t, n = CLAIM[i]
            m["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough", "technique": t, "level": "other", "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, NOTYET)})
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
main()

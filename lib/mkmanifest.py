"""Writes MANIFEST.json (the table of claimed properties is below)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "SMT translation validation: FlatZinc and output model emitted by the compiler built from the current tree, and the model's reference semantics, encoded over symbolic decision variables; Z3 decides equivalence"
TVN = "For every model of the corpus the solver decides, for all assignments of the bounded variables, that the compiled problem has exactly the model's solutions (both directions, introduced variables quantified). Models are a fixed corpus plus seeded random ones (not symbolic). Trusted: the reference semantics in tv/, FlatZinc builtin semantics, Z3. Counterexamples are replayed concretely before being reported."
TVR = TVN + " Here the compiler evaluates bounds/domains/parameter expressions while compiling; the reference is a second model that states what those results have to satisfy, encoded symbolically over the decision variables (for C20: the compiler tabulates the parameter expression over its whole argument range and the solver compares the table with the reference expression over a symbolic argument)."
SX = "Symbolic execution of the LLVM bitcode compiled from the current sources (sx/engine.cpp, KLEE style): inputs are SMT variables, every branch, memory access and assertion is decided by Z3; counterexamples are replayed natively"
SXN = "All values within the stated bounds of every entry (see evidence: bounds, paths, whether every path was completed). Trusted: the engine, clang's translation to bitcode at -O1, the library models in sx/rt*.c*, Z3. Counterexamples must reproduce in a native address-sanitized build."
CLAIMED = {
    'C01': (SX, 'model_checking', SXN),
    'C02': (SX, 'model_checking', SXN),
    'C03': (TV, 'translation_validation', TVN),
    'C04': (TV, 'translation_validation', TVN),
    'C05': (TV, 'translation_validation', TVN),
    'C06': (TV, 'translation_validation', TVN),
    'C07': (TV, 'translation_validation', TVN),
    'C08': (TV, 'translation_validation', TVN),
    'C09': (TV, 'translation_validation', TVN),
    'C10': (TV, 'translation_validation', TVN),
    'C11': (TV, 'translation_validation', TVN + " Objectives: no flat solution is better than the model solution it stands for, and every model solution is reachable with exactly its objective value."),
    'C14': (TV, 'translation_validation', TVR),
    'C20': (TV, 'translation_validation', TVR),
    'C22': (TV, 'translation_validation', TVN),
    'C23': (TV, 'translation_validation', TVN),
}
NA = {
    'C12': "Output is checked only as far as the output model's expressions are the bridge between FlatZinc and model in every other check (a wrong mapping shows there); formatting of every show/format function is C++ stream code over unbounded strings (iostreams, locale) that neither engine can encode.",
    'C13': "Data is merged by the parser and type checker before flattening; the two compilations it relates differ in hundreds of thousands of executed instructions over heap AST nodes, beyond symbolic execution, and translation validation of each side is what C03-C11 already decide for specialised models.",
    'C15': "Solns2Out keeps its state in iostreams, a re-entered bison parser and heap-allocated models; every chunking of an unbounded stream cannot be made symbolic within reach of the engine (no model of iostream and flex state).",
    'C16': "Both directions go through flex/bison tables and std::ostream; the symbolic input would be text of unbounded length through table-driven scanners, out of reach of the engine.",
    'C17': "Readers are the flex/bison parser and a hand-written JSON reader over std::istream; no encodable boundary without iostream and heap AST construction.",
    'C18': "The functions work on std::string with dynamic allocation and regular expressions; the engine does not model libstdc++'s out-of-line string and stream code.",
    'C19': "Floating-point rounding: the compiler computes bounds with doubles while the reference uses exact reals; a sound verdict needs an error model per operation. Only selected float expressions are decided in C14 and C22 (exact dyadic values).",
    'C21': "Type comparison dispatches through EnvI's struct/enum registries on the heap; no closed function to encode without the environment.",
    'C24': "The MIP wrappers need the vendor libraries, and the NL writer emits text through iostreams for external solvers that are not installed; the constraints handed over are those of the linear FlatZinc decided in C09.",
    'C30': "Garbage-collection safety is a property of raw pointer graphs, hash tables and stack roots across whole compilations; a symbolic encoding of that heap with a symbolic collection schedule is far beyond what an SMT encoding of this code base can reach, and running chosen schedules would be enumeration, not solving.",
    'C31': "Depends on timing of processes, signals and clocks outside the program text (select/poll loops, SIGINT delivery, solver processes); neither the schedule nor those system calls can be encoded from the source within reach.",
    'C32': "The in-process solver libraries (Gecode, Gurobi, CPLEX, HiGHS, ...) are not installed, the plug-ins are not built here, and their posting code cannot be encoded without those libraries.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMED:
            t, l, n = CLAIMED[i]
            checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="bin/check %s" % i, evidence_file="evidence/%s.json" % i,
                               technique=t, level=l, level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "not claimed")))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
             notes="bin/check reads VERIF_TIER (quick/thorough) and VERIF_SEED from the environment.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

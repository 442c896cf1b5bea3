#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "termfactory/"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=list(observe)))


ET = [T + "code_eT_zhz.py", T + "latex_eT_zhz.py", T + "latex_zhz.py", T + "common_imports.py"]
FCC = [T + "code_full_cc.py", T + "latex_full_cc.py", T + "common_imports.py"]

P("C01", "e^T z-ansatz RHS code computes the truncated operator product",
  "For every allowed truncation, the Python module generated for the right hand side of the e^T z-ansatz evaluates, at every "
  "projection order up to the smaller of the cluster and projection limits, exactly the part of e^(-T) H e^T Z that the "
  "truncation keeps: every contraction of a Hamiltonian tensor with z and powers of t, each once, with its exact rational "
  "prefactor, and nothing else.",
  ["inputs", "configurations"], "all truncations (H 1-6, CC 1-6, T 1, eT 1-8, P 1-6), all tensor sizes and values",
  "The golden files compare a few small truncations character by character; no test executes a generated module, and the "
  "number of terms grows combinatorially beyond the sampled truncations.",
  ET, [("operator enumeration and filtering", T + "latex_eT_zhz.py"), ("einsum emission, prefactors and index strings", T + "code_eT_zhz.py")],
  "property-based testing: generated modules executed on random tensors against polynomial operator algebra",
  "Exhaustive over affordable truncations plus random ones; numeric comparison at random tensors decides polynomial identity "
  "with overwhelming probability. Known finding: the product h_00*z is absent.", ["the generated .py file"])

P("C02", "e^T z-ansatz LHS code computes the time-derivative products",
  "For every allowed truncation, the Python module generated for the left hand side of the e^T z-ansatz evaluates, at every "
  "projection order, exactly the products of the t derivative with t and z (and of the z derivative with t) that "
  "differentiating e^T Z yields within the truncation, each once and with its exact prefactor.",
  ["inputs", "configurations"], "all truncations (H 1-6, CC 1-6, T 1, eT 1-8, P 1-6), all tensor sizes and values",
  "No test executes generated LHS code; golden files exist for a handful of truncations only.",
  ET, [("LHS operator enumeration", T + "latex_eT_zhz.py"), ("LHS einsum emission", T + "code_eT_zhz.py")],
  "property-based testing: generated modules executed on random tensors against polynomial operator algebra",
  "As C01. The bare z derivative (the unknown being solved for) is not part of the code by design.")

P("C03", "Run-time switches of e^T z-ansatz code drop exactly their tensors",
  "In an e^T z-ansatz module generated for the ground state, running with any set of Hamiltonian-order, z-order or t-singles switches off gives the "
  "same numbers as running with all switches on and the tensors those switches stand for set to zero. A request for a hot band "
  "(not ground state) calculation, or for an amplitude above the run-time truncation level, is refused, never answered.",
  ["inputs", "configurations"], "all truncations, all subsets of switches, all tensor values, both sides",
  "No test executes a generated module, so no test ever sets a run-time switch.",
  ET, [("per-rank `if` nesting written around the einsum lines", T + "code_eT_zhz.py")],
  "property-based testing: random switch subsets, executed code against operator algebra with zeroed tensors",
  "Random subsets plus every single switch at two truncations.")

P("C04", "e^T z-ansatz optimized functions equal the default ones",
  "For every allowed truncation, side, set of run-time switches and tensor values, the optimized function of each projection "
  "exists and returns the same array as the default function.",
  ["inputs", "configurations"], "all truncations, both sides, all switch subsets, all tensor sizes and values",
  "Tests compare text only; nothing executes either function.",
  ET, [("second generation pass with shared, mutated operator lists", T + "code_eT_zhz.py")],
  "property-based testing: differential execution of default and optimized generated code",
  "Every affordable truncation each run, random switch subsets.")

P("C05", "e^T z-ansatz LaTeX prints exactly the terms of the expansion",
  "For every allowed truncation and either side, the LaTeX written for the e^T z-ansatz contains for every projection exactly the "
  "terms of the truncated expansion, each once, with consistent contraction indices, the exact prefactor, the right power of the "
  "thermal factor, the bare Hamiltonian term and the derivative terms. Each equation stands under the heading of its rank, with the "
  "projection operator, the definition of G and the left hand side derivative of that rank and with the same indices, and the document "
  "says that f terms were removed exactly when that was requested.",
  ["inputs", "configurations"], "all truncations, both sides, with and without removal of f terms",
  "Golden files cover a few truncations; no test reads the LaTeX as mathematics.",
  [T + "latex_eT_zhz.py", T + "latex_zhz.py", T + "latex_defines.py"],
  [("term construction, prefactors, index label assignment", T + "latex_eT_zhz.py")],
  "property-based testing: parsed LaTeX compared term by term with an independent enumeration",
  "LaTeX is read as mathematics (colours, spacing, line breaks ignored). Known finding: prefactor of mixed products.")

P("C06", "z-ansatz LaTeX prints exactly the normal-ordered product H z",
  "For every allowed truncation, the LaTeX written for the z-ansatz contains, for every projection operator, exactly the terms of the "
  "normal-ordered product of the Hamiltonian with z that the truncation keeps, each once, with the exact prefactor and consistent "
  "indices, plus the bare Hamiltonian and derivative terms. Each equation stands under the heading of its rank, with the projection "
  "operator, the definition of G and the left hand side derivative of that rank and with the same indices, and the document says that f "
  "terms were removed exactly when that was requested.",
  ["inputs", "configurations"], "all 216 truncations (H, CC, P in 1-6), with and without removal of f terms",
  "Golden files cover a few truncations.",
  [T + "latex_zhz.py", T + "latex_defines.py"], [("term construction, prefactors, index label assignment", T + "latex_zhz.py")],
  "property-based testing: parsed LaTeX compared term by term with an independent enumeration, all truncations enumerated",
  "Every run covers the complete truncation domain.")

P("C07", "Full-CC LaTeX prints exactly the allowed diagrams, once each",
  "For every allowed truncation, ground or excited state, the full-CC LaTeX contains for every projection operator of rank up to 3 "
  "exactly the diagrams of the truncated cluster expansion, each once, with the documented prefactor, thermal-factor powers and "
  "consistent indices, under the heading of its rank, and a left hand side that is the product rule over amplitude partitions with the "
  "indices of the projection operator; higher projections are refused. "
  "Removing f terms removes precisely the terms that carry an f factor.",
  ["inputs", "configurations"], "all truncations (H, CC, S, P in 1-6), ground and excited state, both f settings",
  "Golden files cover a few truncations with H, CC at most 2-3; none reads the LaTeX as mathematics.",
  [T + "latex_full_cc.py", T + "latex_defines.py"],
  [("enumeration of t products and legal connections", T + "latex_full_cc.py"), ("prefactor and LaTeX writers", T + "latex_full_cc.py")],
  "property-based testing: parsed LaTeX compared diagram by diagram with an independent enumeration",
  "Affordable truncations only (size cap on the expansion). Known finding: long sums lose a remainder.")

P("C08", "Full-CC code sums exactly the allowed diagrams",
  "For every allowed truncation, the Python module generated for full CC evaluates for every projection operator, after symmetrisation "
  "over mode indices, exactly the sum of the connected, linked and unlinked diagrams the truncation keeps, with the documented "
  "prefactors; run-time switches drop exactly the diagrams containing the tensors they stand for.",
  ["inputs", "configurations"], "all truncations (H, CC, S, P in 1-6), all switch subsets, all tensor sizes and values",
  "No test executes generated code; golden files cover a few truncations.",
  FCC, [("einsum emission, rank bookkeeping, permutation sums, switch nesting", T + "code_full_cc.py")],
  "property-based testing: generated modules executed on random tensors against a sum over independently enumerated diagrams",
  "Affordable truncations only; the prefactor rule documented by the package is the specification.")

P("C09", "Full-CC optimized functions perform the default contractions",
  "For every allowed truncation and switch setting, the contraction list prepared for a full-CC projection is consumed completely and "
  "in step by its optimized function: each prepared contraction meets operands of the shapes it was prepared for, the products are "
  "those of the default function, and the amplitudes agree.",
  ["inputs", "configurations"], "all truncations, all switch subsets, all tensor sizes and values",
  "Tests compare text only.",
  FCC, [("path emission and consumption", T + "code_full_cc.py")],
  "property-based testing: recording stand-in for opt_einsum, differential execution",
  "Known findings: prepared contractions lack their subscripts; the gather-all function fails.")

P("C10", "W operator code is the truncated exponential of the amplitudes",
  "For every highest order 1-6, every wave operator the generated W module computes, for the VECI, VE/MIXED and VECC ansatz and every "
  "truncation level, equals the corresponding part of the exponential of the amplitudes: all ordered products of amplitudes of that total "
  "order (only the single amplitude for VECI, at most one amplitude above singles for VE/MIXED), symmetrised, with exact weights and no "
  "amplitude above the truncation level. The optimized functions return the same operators from the prepared contraction lists.",
  ["inputs", "configurations"], "highest order 1-6, three ansatz, six truncation levels, all tensor sizes and values",
  "Golden files compare text; nothing executes the code, so a wrong weight, permutation or index string is only noticed if someone "
  "rewrites the golden file.",
  [T + "code_w_equations.py", T + "helper_funcs.py"],
  [("partition enumeration, prefactors, einsum strings, optimized path lists", T + "code_w_equations.py")],
  "property-based testing: generated module executed on random tensors against a matrix power series",
  "All orders, ansatz and levels every run; random sizes and data.")

P("C11", "Amplitude derivative code inverts the product rule",
  "For every highest order 1-6, ansatz and truncation level, each generated derivative function returns n! times (residual of its own order "
  "minus W eps / n! minus the product-rule derivative of every disconnected product of amplitudes), so that the derivative of the "
  "truncated exponential reproduces the residual; orders above the truncation level are refused; optimized and default functions agree.",
  ["inputs", "configurations"], "highest order 1-6, three ansatz, six truncation levels, all tensor sizes and values",
  "Golden files compare text; nothing executes the code.",
  [T + "code_dt_equations.py", T + "helper_funcs.py"],
  [("disconnected term enumeration, prefactors, einsum strings, optimized path lists", T + "code_dt_equations.py")],
  "property-based testing: generated module executed on random tensors against a differentiated power series",
  "The residual module is played by a stand-in returning random tensors and recording its arguments.")

P("C12", "Residual code is the projection of H applied to W",
  "For highest order 0-6 and Hamiltonian rank 0-2, each generated residual function returns, up to symmetrisation, the projection of the "
  "Hamiltonian applied to the wave operator: every product of a Hamiltonian tensor with W of the matching order, with exact weights, "
  "W operators that are not available contributing nothing, quadratic terms only when switched on, orders above the truncation refused.",
  ["inputs", "configurations"], "highest order 0-6, rank 0-2, all switches, any set of available W, all tensor sizes and values",
  "Golden files compare text; nothing executes the code.",
  [T + "code_residual_equations.py"], [("term enumeration, weights, einsum strings, if-nesting", T + "code_residual_equations.py")],
  "property-based testing: generated module executed on random tensors against a differential operator applied to a power series",
  "Known finding: creation term of orders 2 and 3 sits in the wrong branch.")

P("C13", "W operator LaTeX lists exactly the partitions",
  "For every maximum order, the ground-state W document prints for every order exactly the products of amplitudes given by the partitions of "
  "that order, each once, with weight one over the factorials of the multiplicities of equal amplitudes; the excited-state document prints "
  "in the same way, for every pair of upper and lower order, the ways to distribute both over two or more amplitudes, and keeps exactly the 29 "
  "header lines of an existing document.",
  ["inputs"], "ground state order 1-17 (20 thorough), excited state order 1-5",
  "Golden files exist for one or two orders only.",
  [T + "latex_w_equations.py", T + "helper_funcs.py"], [("partition enumeration and LaTeX writers", T + "latex_w_equations.py")],
  "property-based testing: parsed LaTeX compared with an independent partition enumeration, all orders enumerated",
  "The single mixed amplitude is left out of the excited-state W by design of the document.")

P("C14", "The text written depends on the request only",
  "The text a generator writes for a request is the same whatever was requested before in the same process, whatever the interpreter's "
  "string hash seed, the time, locale, user environment and level of logging, the order of the truncation's keys and the previous contents of the target "
  "file; and the truncation passed in is not modified.",
  ["inputs", "histories", "configurations"], "all sequences of requests to the ten generators, all hash seeds",
  "Tests call each generator with one fixed request at a time under one hash seed; module-level state, caches and set ordering only "
  "show across requests or interpreters.",
  [T + "latex_full_cc.py", T + "code_full_cc.py", T + "latex_eT_zhz.py", T + "code_eT_zhz.py", T + "latex_zhz.py", T + "common_imports.py",
   T + "code_w_equations.py", T + "code_dt_equations.py", T + "code_residual_equations.py", T + "latex_w_equations.py"],
  [("module level label tables, memoised operators, set iteration", T + "common_imports.py")],
  "stateful property-based testing: histories of requests in one process against a fresh interpreter with another hash seed",
  "Histories of up to seven requests, affordable truncations.")

P("C15", "Truncations outside the allowed domain are refused, all others round-trip",
  "Saving any allowed truncation writes the documented keys and values, leaves the dictionary untouched and loads back equal. Loading a file "
  "and requesting a document refuse every truncation with a missing or unknown key or a value below 1 or above its maximum (H, CC, S, P 6; "
  "T 1; e^T 8), and a refused request leaves an existing target file as it was. Loading accepts every allowed truncation of exactly 3, 4 or 5 keys; loaded into a "
  "provided dictionary, the stored values replace its contents, and a refused file leaves it as it was.",
  ["inputs"], "all 3240 allowed truncations, all dictionaries outside the domain, all five truncation-driven generators, both sides",
  "Tests try a few valid truncations and single bad values.",
  [T + "truncations.py", T + "truncation_keys.py", T + "latex_zhz.py", T + "latex_full_cc.py", T + "latex_eT_zhz.py", T + "code_full_cc.py",
   T + "code_eT_zhz.py"],
  [("validation and JSON conversion", T + "truncations.py"), ("key tables", T + "truncation_keys.py")],
  "property-based testing: round trip and refusal oracle over generated truncation dictionaries",
  "Round trip is exhaustive. A refusal is any exception.", ["truncation file", "target file", "exceptions"])

P("C16", "The command line writes exactly the requested document or refuses",
  "Every driver command line either exits nonzero and writes no document (no values, values both on the line and in a file, wrong number of "
  "values, ansatz not matching the values, values out of range, no generator for the request), or exits zero and writes exactly one document, "
  "under the documented name, with exactly the text the generator writes for that truncation, side, state and f-term choice, a log "
  "file, and with -t a truncation file from which -p reproduces the document.",
  ["inputs", "configurations"], "all combinations of driver options and truncation values",
  "The tests never run the driver; they call generators directly.",
  [T + "driver.py", T + "_glue_.py", T + "truncations.py", T + "truncation_keys.py"],
  [("argument parsing and ansatz inference", T + "driver.py"), ("dispatch and file naming", T + "_glue_.py")],
  "property-based testing: generated command lines run as subprocesses against an independent model of the interface",
  "Affordable truncations; the text itself is the other properties' business.", ["exit status", "files in the working directory"])

PY = [T + "code_eT_zhz.py", T + "code_full_cc.py", T + "code_w_equations.py", T + "code_dt_equations.py", T + "code_residual_equations.py",
      T + "code_import_statements_module.py"]

P("C17", "Every generated Python module is complete and importable",
  "Whatever is requested from a Python generator, the file written parses and can be imported inside a package that offers numpy, "
  "opt_einsum, log_conf, symmetrize and residual_equations; it defines no function twice; it has the default and the optimized entry point "
  "of every projection or order requested and the functions that prepare the optimized contractions; and every name any of its functions "
  "uses is defined or imported by the module itself.",
  ["inputs", "configurations"], "all requests to the five Python generators: truncations or orders, state, side, f-terms",
  "No test imports a generated file; import headers are compared as text only.",
  PY, [("import headers", T + "code_import_statements_module.py"), ("function names and wrappers", T + "code_full_cc.py")],
  "property-based testing: generated files imported by the real import machinery in a scratch package, names resolved with symtable",
  "The wrapper of a W module generated up to order k < 6 names operators above k by design (exempt).", ["the generated .py file"])

P("C18", "Every LaTeX document is structurally sound",
  "Whatever is requested, the document the ground-state W, full-CC, z-ansatz and e^T z-ansatz LaTeX generators write has one preamble and one "
  "body, balanced groups, properly nested environments, math commands and scripts only in math, no double scripts, no blank line in "
  "math, alignment tabs only where allowed, left and right delimiters paired on one line of an alignment, and only commands that the "
  "kernel, a loaded package or the preamble provides, each defined once; the symbols the preamble defines for tensors and for creation and "
  "annihilation operators print distinctly and with their own letter and argument.",
  ["inputs", "configurations"], "all requests to four LaTeX generators: truncations or orders, state, side, f-terms",
  "No test compiles a document; golden files exist for a few requests.",
  [T + "latex_full_cc.py", T + "latex_zhz.py", T + "latex_eT_zhz.py", T + "latex_w_equations.py", T + "reference_latex_headers.py", T + "latex_defines.py"],
  [("document headers", T + "reference_latex_headers.py"), ("line splitting and wrapping", T + "latex_full_cc.py")],
  "property-based testing: generated documents read by an independent recogniser of LaTeX structure",
  "A recogniser, not LaTeX itself (none is installed). The excited-state W text is a fragment and exempt.", ["the .tex file"])

P("C19", "Hot band requests never get equations the theory does not have",
  "A request for excited-state z-ansatz or e^T z-ansatz LaTeX is refused as not implemented and leaves the target as it was. A full-CC "
  "or e^T z-ansatz module generated for excited states computes the same ground-state amplitudes as the module generated for the ground "
  "state, and its default and optimized functions refuse a hot band calculation.",
  ["inputs", "configurations"], "all truncations, sides and f-term choices of the four z-ansatz and full-CC generators concerned",
  "Tests request the ground state nearly exclusively and never run generated code.",
  [T + "latex_zhz.py", T + "latex_eT_zhz.py", T + "code_eT_zhz.py", T + "code_full_cc.py"],
  [("refusals", T + "latex_eT_zhz.py"), ("hot band branches", T + "code_eT_zhz.py")],
  "property-based testing: refusal oracle and differential execution of ground-state and excited-state modules",
  "Known finding: the e^T module generated for excited states answers with the ground-state amplitude.")

P("C20", "W, residual and derivative modules together solve the equation of motion",
  "Used together as one package, the generated W, residual and amplitude-derivative modules give, for every ansatz, truncation level up to "
  "quadruples, Hamiltonian and amplitudes, default or optimized, derivatives for which the time derivative of the truncated exponential "
  "equals the Hamiltonian applied to it minus its product with the order zero residual, at every order up to the level.",
  ["inputs", "configurations"], "three ansatz, levels 1-4, highest orders generated up to 6, ranks 1-2, all tensor values",
  "The modules are never run, let alone together; argument orders and conventions only meet in the consuming package.",
  [T + "code_w_equations.py", T + "code_dt_equations.py", T + "code_residual_equations.py", T + "code_import_statements_module.py"],
  [("calls between the modules", T + "code_dt_equations.py")],
  "property-based testing: end to end execution of the imported modules against a power series oracle",
  "Known finding of C12 (creation term of orders 2 and 3) shows here too.")

P("C21", "A request is served in full or fails loudly",
  "A caller who gets no error has the complete document. A request above the implemented orders (W, derivative or residual code above order "
  "6, residuals above Hamiltonian rank 2, full-CC LaTeX with cluster and projection limits both above 3) ends in an exception and leaves the "
  "target, existing or not, as it was. A target that cannot be opened, or a disk that takes only part of the text, ends in an exception, on "
  "the command line in a nonzero exit status; a disk with exactly enough room takes the complete text.",
  ["inputs", "fault_sequences"], "all generators and the truncation saver, all requests, every number of bytes the disk accepts",
  "No test requests an order beyond the limits from the file-writing entry points or lets a write fail.",
  [T + "code_w_equations.py", T + "code_dt_equations.py", T + "code_residual_equations.py", T + "code_full_cc.py", T + "code_eT_zhz.py",
   T + "latex_full_cc.py", T + "latex_zhz.py", T + "latex_eT_zhz.py", T + "latex_w_equations.py", T + "truncations.py"],
  [("order limits", T + "code_w_equations.py"), ("text is complete before the target is opened", T + "code_eT_zhz.py")],
  "property-based testing: injected write faults and out-of-range requests against a complete-or-error oracle",
  "A full disk is stood for by RLIMIT_FSIZE; the number of bytes accepted is generated.", ["the target file", "exceptions, exit status"])

P("C22", "Generated functions have no side effects",
  "A function of any generated Python module gives the same result for the same arguments whatever was called before on the loaded module, "
  "default or optimized, with other tensors, sizes or switches, refused or not. It leaves the tensors passed in and the results of earlier "
  "calls as they were, and its result shares no memory with its arguments.",
  ["inputs", "histories"], "all Python generators, all sequences of calls on one loaded module, all tensor sizes and values",
  "No test executes a generated module, let alone calls it twice.",
  [T + "code_w_equations.py", T + "code_dt_equations.py", T + "code_residual_equations.py", T + "code_full_cc.py", T + "code_eT_zhz.py"],
  [("result arrays are allocated per call and accumulated into", T + "code_eT_zhz.py"),
   ("prepared contractions are consumed through an iterator", T + "code_w_equations.py")],
  "stateful property-based testing: sequences of calls on one loaded module against a module just loaded",
  "Sequences of up to eight calls (explicit ones: every entry point three times), affordable truncations.")

P("C23", "A document goes to its target and nowhere else",
  "A generator called with a target, however it is spelled (absolute or relative, in another directory, as a string or a path object, new or "
  "existing with any old contents), writes the complete document there (the excited-state W document below the header of an existing one) and creates, changes or removes no other file or directory, nor "
  "changes the working directory. Called without a target, the W, derivative and residual generators write to their documented default name in "
  "the working directory: w_operator_equations.py, dt_amplitude_equations.py, residual_equations.py, ground_state_w_equations.tex, "
  "thermal_w_equations.tex. A refused request changes no file at all.",
  ["inputs"], "all generators, all requests, all spellings of the target, all contents of the directories around it",
  "The tests write a handful of documents to one temporary path each and never look at the files around it, nor use a default.",
  [T + "_glue_.py", T + "code_w_equations.py", T + "code_dt_equations.py", T + "code_residual_equations.py", T + "latex_w_equations.py",
   T + "code_full_cc.py", T + "code_eT_zhz.py", T + "latex_full_cc.py", T + "latex_zhz.py", T + "latex_eT_zhz.py"],
  [("default targets", T + "latex_w_equations.py"), ("the document is written to the path passed in", T + "code_eT_zhz.py")],
  "property-based testing: generated requests and directories, snapshot of the directory tree before and after",
  "Ten names, nine spellings, fifteen files lying around; affordable truncations.")

#MORE


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"] or ["files written by the generators"], "hook_needed": None}
            fp.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                                 "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c 'import hypothesis, numpy'",
        "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration",
                    "level_note": p["note"]} for p in PROPS],
        "not_applicable": [],
        "notes": "Checks import /repo/termfactory directly; nothing is compiled. No hooks in /repo. See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")


main()

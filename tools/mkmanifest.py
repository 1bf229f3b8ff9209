#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("fuzzing of damaged modules (structure-aware mutation) with a no-crash oracle through all passes", "Sampled over damaged modules and raw bytes, plus every opcode at several word counts; crashes, panics and hangs are seen from a supervising process."),
 "C02": ("property-based testing: encode from an independent SPIR-V grammar, decode, compare every operand", "Every opcode, enumerant and mask subset in every operand slot is enumerated; values, lists, strings and contexts are sampled."),
 "C03": ("fault injection into generated modules and differential testing against a reference decoder", "Single faults of each kind at generated places, all single mask bits, all small and sampled large enumerant values; arbitrary operand words are judged by a reference decoder."),
 "C04": ("exhaustive enumeration of opcodes plus generated contexts against the SPIR-V opcode table", "All 65536 opcodes at several word counts; contexts are sampled."),
 "C05": ("generated headers against a header model", "Every value of every byte of the three policed words one byte at a time, every generator id; combinations are sampled."),
 "C06": ("metamorphic testing: byte-swapped twin of generated and damaged modules", "Sampled pairs; same result or same error is required."),
 "C07": ("metamorphic testing: every cut of a generated module, and concatenation", "Each sampled module is cut at every byte offset; overruns and concatenations are sampled."),
 "C08": ("model-based histories of imports and extended instructions over recording instruction sets", "Sampled histories against a model of import binding; all calls the sets receive are compared."),
 "C09": ("differential testing against an independent printer, and injectivity on pairs", "Every opcode, enumerant and generator tool enumerated; operand values and modules sampled."),
 "C10": ("enumeration of layout class sequences and generated layouts against a reference automaton", "All class sequences up to a length, every opcode at every layout position; longer layouts sampled."),
 "C11": ("property-based round trip: list the logical module back and compare with the raw module", "Sampled layouts plus every opcode at every layout position."),
 "C12": ("enumerated and generated functions; bisimulation of recovered structure and branch graph", "All functions of up to 3 blocks over the modelled branch and merge shapes; larger ones sampled. The product exploration decides equivalence for all branch decisions of each function."),
 "C13": ("generated structured programs compiled to blocks; recovered structure compared with the program", "Sampled and enumerated small programs, deep and wide programs sampled."),
 "C14": ("enumerated and generated (malformed) functions; termination and error-justification oracle", "All functions of up to 3 blocks, larger ones sampled; two known findings (very long paths, exponentially shared branches) are probed separately."),
 "C15": ("metamorphic testing: twin functions that differ only in irrelevant ways", "Sampled twins."),
 "C16": ("differential testing of printed control flow against an independent printer", "Sampled recovered and directly built structures, every opcode as block code."),
 "C17": ("property-based testing: equality of decoded modules against equality of encodings", "Sampled pairs, mostly one word apart, and extended instructions of several sets."),
 "C18": ("model-based scripts of operand reads by a custom instruction set", "Every public operand type alone, in a list and optional over well-formed, cut and damaged words; scripts sampled."),
 "C19": ("scaling metamorphic test: large module against small module on a 2 MiB stack", "Every section and all sections repeated; instructions up to 65535 words; sizes are bounded (hundreds of thousands of instructions)."),
 "C20": ("enumerated pairs of error kinds with generated contents, and errors of fuzzed input, against a table of required words", "Every pair of kinds enumerated; contents and failing inputs sampled."),
 "C21": ("generated instructions of every declared type against an independent printer", "Every type enumerated; operands sampled."),
 "C22": ("end-to-end model-based testing: generated programs written to files and followed through all passes", "Sampled modules of several functions."),
 "C23": ("property-based testing: equality and clones of logical modules, structures and errors against equality of their contents", "Sampled pairs one place apart; all pairs of error kinds at chosen indices."),
 "C24": ("stateful testing: random histories and concurrent mixes of calls on near-twin inputs, judged by reference models and by repetition", "Sampled histories and thread mixes; thread schedules are the operating system's."),
 "C25": ("fault injection: generated values printed into destinations that refuse at generated points, prefix-and-error oracle", "Every opcode at every point of its text enumerated for sampled operands; other values and points sampled."),
 "C26": ("property-based testing with a counting allocator: generated small files that claim much and large files, linear bound", "Sampled files; the bound is generous, so only use out of proportion is seen."),
}
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check {p} quick",
   "thorough_cmd": f"./check {p} thorough",
   "technique": t + ("" if p in ("C19", "C21") else "; coverage-guided search over the same generators"),
   "level": "exploration",
   "level_note": n + " Trusts the harness's SPIR-V 1.0 tables and models; absence of violations is not proved beyond the enumerated spaces.",
 } for p, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: the checks use the crate's public interface only. Harness: /verif/harness (no dependencies besides /repo's crate).",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")

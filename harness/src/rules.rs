//! For the evidence files: how each property's cases are made and which of
//! them count as non-trivial, and what the verdict assumes.

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "bytes: generated modules that are then damaged (bits, words, splices, counts, truncation, byte order) or raw bytes; opcode-sweep: every opcode with several word counts and fillers; large: modules of up to 80000 instructions, intact or damaged. Non-trivial: the input has a valid header (so the instruction reader runs), or for the sweep the opcode is defined.",
        "C02" => "single: one instruction, steered by the guided search; modules: random lists of instructions drawn from an independent SPIR-V 1.0 operand grammar; each-op / each-enumerant / each-mask: every opcode, enumerant and mask subset in every operand slot; sized: files of particular sizes; strings, long: all string shapes and maximal instructions; large: up to 80000 instructions. Non-trivial: at least one instruction.",
        "C03" => "a well-formed module with exactly one fault (count, operand word missing or extra, undefined enumerant or bit, bad string) at a generated place, and arbitrary operand words judged by a reference decoder; sized: malformed ends of files of particular sizes; large: the fault after up to 20000 instructions. Non-trivial: a fault (or arbitrary operand words) was really introduced.",
        "C04" => "each opcode 0..65535 at several word counts, alone and in the middle of a generated module, also after up to 20000 instructions. Non-trivial: always (each evaluates one opcode).",
        "C05" => "every single-byte value in each byte of the three policed words plus random words, all generator ids/versions/bounds sampled. Non-trivial: always (each is a distinct header).",
        "C06" => "single: one instruction, in part with a damaged word; generated and damaged modules, read in both byte orders (sized: files of particular sizes; large: up to 20000 instructions). Non-trivial: the header is valid, so that the body is read too.",
        "C07" => "a generated module cut at every byte offset; last instruction claiming more words than the file has; pairs of modules and their concatenation; sized: cuts of files of particular sizes; large: cuts of modules of up to 30000 instructions. Non-trivial: at least one instruction (both modules, for concat; claimed count beyond the end, for overrun).",
        "C08" => "histories of imports, extended and other instructions over 0-4 recording instruction sets (duplicate names and ids, unknown names, unbound ids, consuming too little or too much, failing); long: histories of up to 3000 steps with up to 9 sets and instructions of thousands of operand words. Non-trivial: at least one extended instruction is used after another event.",
        "C09" => "single: one instruction, steered by the guided search; generated modules, every opcode, every enumerant, every generator tool, strings of all shapes, pairs differing in one operand, large modules, instructions that can only be built; expected text from an independent printer. Non-trivial: at least one instruction (different instructions, for pairs).",
        "C10" => "all sequences of layout classes up to a length, every opcode at every layout position, and damaged random layouts, small and of up to 70000 instructions; verdict and index from a reference automaton. Non-trivial: more than one instruction and accepted by the reader.",
        "C11" => "single: one instruction in its place in the smallest module; random layouts (small and of up to 20000 instructions) and every opcode at every position; the logical module is listed back and compared section by section. Non-trivial: validation accepted it and it has more than one instruction.",
        "C12" => "every function of up to 3 blocks over all branch and merge shapes, random functions, densely merged functions and large ones (hundreds of blocks, deep nesting); recovered structure and branch graph are explored as one product automaton. Non-trivial: recovery succeeded (functions arm: any function; dense arm: the recovered structure has a construct).",
        "C13" => "random, enumerated and large structured programs (blocks shuffled and relabelled in several styles) compiled to blocks; recovered structure compared with the program. Non-trivial: the program contains a construct.",
        "C14" => "every function of up to 3 blocks, random functions with duplicate/dangling/cyclic/irreducible shapes, and large ones; outcome judged against the branch graph. Non-trivial: more than one block.",
        "C15" => "a function and a twin that differs only in irrelevant ways (block order, code, signature, unreachable blocks, label names), small and large. Non-trivial: more than one block.",
        "C16" => "recovered and directly built structures (also deeply nested), and every opcode as block code; text compared with an independent printer. Non-trivial: the structure contains a construct (each-op: there is code).",
        "C17" => "single: an instruction and one that differs in one operand; pairs of modules, mostly differing in one word, and extended instructions of two sets, and large modules differing in one place; equality compared with equality of the encodings. Non-trivial: both were decoded.",
        "C18" => "scripts of operand reads by a custom instruction set over generated words (well-formed, cut, damaged), every operand type alone, in a list, optional. Non-trivial: at least one operand word.",
        "C19" => "modules with one section (or all) repeated many times, and instructions of up to 65535 words, on a 2 MiB stack; results compared with those of a small module of the same instructions. Non-trivial: always.",
        "C20" => "kinds: every pair of read error kinds with generated contents; read: the errors that damaged modules, single faults and import histories produce. Non-trivial: two different kinds; an error was produced.",
        "C21" => "every printable instruction type outside the reader's repertoire with generated operands; text from an independent printer. Non-trivial: always.",
        "C22" => "modules of all sections with several functions (mostly structured programs), encoded, read, validated, recovered and listed; expected structure and listing from the program. Non-trivial: some function contains a construct.",
        "C23" => "modules: layouts and twins that differ in at most one place, both validated; errors: pairs of validation errors; built, recovered: structures and twins altered in one place. Non-trivial: both twins validated; the errors differ; the structure contains a construct; both functions were recovered.",
        "C24" => "histories: 2-4 files, mostly near-twins, processed repeatedly in random order; functions: near-twin functions with one signature, recovered repeatedly in random order; threads: the files processed by 2-4 threads at once. Non-trivial: some file was accepted and printed (more than one block, for functions).",
        "C25" => "modules, single instructions of every opcode, instructions that are only declared, recovered structures and listings, read errors, each printed into destinations with less room than the text needs. Non-trivial: there is an instruction (for flow: more than one block; otherwise always).",
        "C26" => "claims: small files with any header and id bound, instructions that claim more words than there are, damaged files, import histories; large: files of thousands of instructions. Memory counted by the allocator. Non-trivial: longer than a header; more than 100 instructions.",
        _ => "",
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the code under test is deterministic; it is run in-process, built from /repo's working tree with overflow checks and debug assertions",
        "the harness's tables (operand grammar, enumerant names, layout automaton) state SPIR-V 1.0 correctly; they were written from the specification, not from the code under test",
    ];
    match id {
        "C02" | "C03" | "C04" | "C07" | "C09" | "C10" | "C11" => v.push("the set of supported opcodes is the one the repository supports at the pinned commit"),
        "C12" | "C13" | "C14" | "C15" | "C16" => v.push("functions are handed to the recovery pass directly as logical function definitions, as the validator would build them"),
        _ => {}
    }
    v
}

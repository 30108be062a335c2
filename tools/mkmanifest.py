#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "asn1_parser/generators/"
A = "asn1_parser/asn1/"
CFS, C, BIN, COS = (
    G + "cfs/generator.py",
    G + "c/generator.py",
    G + "binary/generator.py",
    G + "cosmos/generator.py",
)
GEN, PROC, VAL = G + "generator.py", A + "processor.py", A + "validation/asn1_bundle_validator.py"
BUILD, SORT, GRAM = A + "asn1_bundle_builder.py", G + "cfs/module_sorter.py", A + "grammar.py"
TPL, SIZE, CPR, CDATA = G + "cosmos/templates.py", "asn1_parser/utils/size.py", "asn1_parser/c_printer.py", "asn1_parser/c_data.py"

# id: (title, statement, quantifier kinds, quantifier text, why tests cannot, files, mechanisms)
P = {}


def p(id, title, statement, over, text, why, files, mech):
    P[id] = dict(
        id=id,
        title=title,
        statement=" ".join(statement.split()),
        quantifier={"over": over, "text": " ".join(text.split())},
        why_tests_cant=" ".join(why.split()),
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": ["generated files below --output-dir", "exit status"],
            "hook_needed": None,
        },
    )


p(
    "C01",
    "A C integer member can hold exactly the declared INTEGER range",
    """For every INTEGER(lo..hi), inline or behind a simple definition, the generated C member is an
    unsigned type when lo >= 0 and a signed intN_t otherwise, holds every value of the range, and is no
    wider than needed (bit-field width = bits of hi, at least 1; storage = smallest of 8/16/32/64 bits).
    A range that no 64-bit type holds, or whose end is below its begin, is rejected.""",
    ["inputs"],
    "every pair lo, hi (solver variables over [-2^66, 2^66]), inline or simple definition, all three C-producing generators",
    """The tests use a few dozen fixed ranges; widths change at every power of two and sign boundary, so 2^132 inputs
    have boundaries that samples miss (four such defects were found and fixed).""",
    [GEN, SIZE, PROC, A + "grammar_elements/asn1_type.py"],
    [("get_bit_size", SIZE), ("_map_simple_types_to_c", GEN), ("asn1_type (object processor)", PROC)],
)
p(
    "C02",
    "REAL ranges choose float or double and keep their limits",
    """For every REAL(lo .. hi) with finite bounds, the C member is float exactly when both bounds lie within
    +-3.4e38 and double otherwise, and the COSMOS item is FLOAT 32 or 64 accordingly. COSMOS LIMITS appear exactly when the
    range is narrower than the type and quote the declared bounds; a range whose end is below its begin is rejected.""",
    ["inputs"],
    "every pair of finite IEEE doubles, inline or simple definition, cFS and COSMOS",
    "The tests sample a handful of decimal ranges; the boundary is a floating-point comparison over 2^128 pairs.",
    [PROC, SIZE, COS, TPL],
    [("asn1_type (object processor)", PROC), ("_range_subrange_data_type", COS), ("get_bit_size", SIZE)],
)
p(
    "C03",
    "C structure and COSMOS packet describe the same layout",
    """For every SEQUENCE of supported member types, the generated C structure and the generated COSMOS packet
    list the same fields in declaration order (nested structures expanded in place), with equal bit sizes, signedness,
    array lengths and string lengths. Structures and enumerations are packed, so embedded software and ground agree on every bit.""",
    ["inputs"],
    """every combination of two (thorough: three) members of 15 kinds - integers, BOOLEAN, REAL, ENUMERATED, strings, arrays, nested and
    imported structures, simple definitions - with symbolic ranges and lengths""",
    "The tests compare a few fixed files against expected text per generator; nothing compares the two outputs, and the combinations are unbounded.",
    [GEN, COS, TPL, SIZE],
    [("_convert_sequence_to_c", GEN), ("_create_telemetry_item_data", COS), ("cosmos_telemetry", TPL)],
)
p(
    "C04",
    "The cFS message identifier equals the CCSDS primary header bits",
    """For every message that fixes CCSDS packet-identification values, the <MESSAGE>_MID macro equals version<<13 | type<<12 |
    secondary-header-flag<<11 | APID, with absent values counted as 0 and regardless of the order in which they are listed.
    A value that does not fit its header field is rejected instead of spilling into its neighbours.""",
    ["inputs"],
    "every value of the four header fields (as numbers or BOOLEANs), subsets, orders, local and imported headers, several messages",
    "The tests use a few identifiers; the property ranges over all 2^16 identifiers, subsets and orders (an overflow defect was found and fixed).",
    [CFS],
    [("_ccsds_primary_header_to_msg_id", CFS), ("_process_with_components", CFS)],
)
p(
    "C05",
    "A COSMOS fixed value lands on exactly the field it addresses",
    """A value fixed by WITH COMPONENTS makes exactly the addressed field an identifying item (APPEND_ID_ITEM) with exactly that value -
    BOOLEAN as 1/0, APID as the same number - at any nesting depth; every other field, including equally named ones elsewhere in the
    message, stays an ordinary item.""",
    ["inputs"],
    "every fixed value (solver variable), nesting path, order of components, and repeated or imported structure types within the bounds",
    "The tests fix a few values in one header; equally named keys at different depths and repeated types are not exercised (three defects were found and fixed).",
    [COS, TPL],
    [("_create_telemetry_item_data", COS), ("cosmos_telemetry", TPL)],
)
p(
    "C06",
    "The binary image is the exact encoding of the fixed values",
    """The <message>.bin file is the concatenation, in the order written, of each fixed value of the message encoded with the size and signedness of its declared
    field and the byte order given on the command line. A field that is not a whole number of bytes, or a value the field's type cannot represent,
    is rejected rather than encoded wrongly.""",
    ["inputs"],
    "every value and declared range (solver variables), both byte orders, nesting, several members and messages",
    "The tests compare one image per type; correctness is over all values, sizes and both byte orders (lost bytes were found and fixed).",
    [BIN, CDATA, CPR, SIZE],
    [("_component_to_bytes", BIN), ("add_binary_init / extend_with_cdata", CDATA), ("bit_to_bytes", SIZE)],
)
p(
    "C07",
    "C initialisers assign every fixed value to its own field",
    """generate-c defines one variable per message with WITH COMPONENTS, declared in the header and defined in the .c file that includes that header;
    its designated initialiser names exactly the fixed fields at their path and gives them exactly the fixed values (BOOLEAN as 1/0).""",
    ["inputs"],
    "every value (solver variable) and component tree within the bounds, several messages and modules",
    "The tests show two expected files; the property is over all values and component trees.",
    [C, CDATA, CPR],
    [("_process_with_components", C), ("_with_components_handling", C), ("print_to_file", CPR)],
)
p(
    "C08",
    "ENUMERATED values are dense, ordered and identical in C and COSMOS",
    """Without positions (or with all positions 0) items get 0, 1, 2, ... in the order written; with positions they must be a permutation of 0..n-1 and anything
    else is rejected. C enumerators and COSMOS STATE lines list the same names with the same numbers in ascending order, and a member of the type is
    as wide as n-1 needs.""",
    ["inputs"],
    "every assignment of integer positions (solver variables, negative and huge included) to up to 4 (thorough: 5) items",
    "The tests reject two fixed bad lists; a sum-based check admits many wrong lists (one was found and fixed).",
    [PROC, GEN, COS, A + "grammar_elements/enumerated.py"],
    [("check_enumerated", PROC), ("_convert_enumerated_to_c", GEN), ("Enumerated.get_size_bits", A + "grammar_elements/enumerated.py")],
)
p(
    "C09",
    "Standard type names are accepted only with their standard range",
    """A simple definition named like a standard type (Int8-t ... Uint64-t, Float, Double) is accepted exactly when its range is the range of that type, and members of
    such a type get exactly that C and COSMOS type. NULL is rejected everywhere.""",
    ["inputs"],
    "every bound (solver variables over [-2^66, 2^66], every finite double) for each of the ten names",
    "The tests try one wrong range for a few names; off-by-one ranges are 2^132 possibilities.",
    [PROC, SIZE, GEN],
    [("check_posix", PROC), ("null_exception_catch", PROC), ("ASN1_POSIX_RANGE", SIZE)],
)
p(
    "C10",
    "The module list on the command line matches the input bundle",
    """cFS, C and binary generation succeed only if the names in --asn1-modules and the module names of the input files are the same set with no duplicate on either side;
    COSMOS generation succeeds only if the input module names are distinct and the requested module and messages exist. In every other case nothing is generated.""",
    ["inputs", "configurations"],
    "every choice of module names (symbolic characters) for up to 3 files and every list of up to 3 names on the command line, any order",
    "The tests sample a few mismatches with fixed names; equality patterns between names are the quantifier.",
    [BUILD, VAL, "asn1_parser/cli/cli_arg_parser.py", COS],
    [("_validate_unique_module_names", BUILD), ("check_missing_modules", VAL), ("generate_cosmos", COS)],
)
p(
    "C11",
    "Every used type name resolves to exactly one definition",
    """A bundle is accepted only if every type name a member uses is predefined, defined in its module or imported, every imported name is defined in the module it is imported
    from, every imported module is part of the input, and no type is defined twice in the bundle. Otherwise it is rejected and nothing is generated.""",
    ["inputs"],
    "every equality pattern between defined, used and imported type and module names (symbolic characters)",
    "The tests check a few fixed wrong names; the property is over all coincidences of names across modules.",
    [PROC, VAL, BUILD],
    [("model_processor_check_used_types_defined", PROC), ("_check_imported_types_and_check_components", VAL), ("_check_bundle_for_duplicate_definitions", VAL), ("_resolve_dependencies", BUILD)],
)
p(
    "C12",
    "WITH COMPONENTS may only name fields that exist",
    """A WITH COMPONENTS constraint is accepted only if every key it names, at every nesting depth and position, is a member of the structure it constrains, also
    when that structure is imported. Any other key is rejected by every generator.""",
    ["inputs"],
    "every key (symbolic characters) at every depth up to 3 and position, local and imported structures, all generators",
    "The tests use one wrong key at the top level.",
    [PROC, VAL],
    [("_check_with_component", PROC), ("model_processor_check_used_components_defined", PROC)],
)
p(
    "C13",
    "Types are declared before use, completely, or the input is rejected",
    """For every dependency graph between the types of a module, generation terminates: an acyclic graph yields each SEQUENCE and ENUMERATED exactly once, after all types it uses,
    whatever the source order; a cyclic graph, between types or between module imports, is rejected (COSMOS, which generates single messages: cycles
    that the requested message reaches).""",
    ["inputs"],
    "every dependency graph on up to 3 (thorough: 4) structures of a module and on up to 3 importing modules (edges are solver variables), every generator",
    "The tests use a few orders of one graph; a cycle made the tool loop forever (found and fixed).",
    [SORT, A + "asn1_bundle.py"],
    [("get_definitions_sorted_by_dependency", SORT), ("create_ordered_import_list", SORT)],
)
p(
    "C14",
    "Output depends only on the module contents",
    """The generated files are identical for every order of the input files on the command line, every order of the names in --asn1-modules, every name of the input files, every hash seed of the
    interpreter and - for cFS, C and binary - whatever an earlier run left in the output directory.""",
    ["inputs", "configurations", "schedules"],
    "every order of up to 3 files and names, and every iteration order of the hash sets the program iterates (a nondeterministic choice)",
    "One test run has one hash seed and one order.",
    [BUILD, SORT, CFS, COS, VAL],
    [("get_modules_ordered", A + "asn1_bundle.py"), ("sorted(used_simple_defs)", CFS), ("_get_definitions_recurs", COS)],
)
p(
    "C15",
    "File, guard and identifier names are the ASN.1 names with - as _",
    """Every generated file name, include guard, include directive, type, member, enumerator, variable and macro name is the ASN.1 name with every '-' turned into '_' (file suffix, upper case for
    macros and guards, lower-case first letter for variables and images); in COSMOS names stay unchanged. Different names of the same kind therefore never collide in the generated files.""",
    ["inputs"],
    "every ASN.1 name up to 33 (thorough: 64) symbolic characters over the full alphabet for modules, types, members, enumerators",
    "The tests use fixed names, mostly with one hyphen.",
    [CPR, CFS, C, BIN, GEN, "asn1_parser/utils/string.py", TPL],
    [("asn1_to_c_style_naming", CPR), ("generate_cfs_circular_import_guard", CPR), ("lowerize", "asn1_parser/utils/string.py")],
)
p(
    "C16",
    "Comments, units and byte order of a field reach its own outputs",
    """The comment, unit and ENDIANNESS(LITTLE) mark of a member, enumerator, definition or module appear in the C comment and COSMOS item of that very element and of no other (the mark in COSMOS only, where an item is LITTLE_ENDIAN
    exactly when marked). A comment that contains '[', ']', '--' or a sign that would end a generated comment or string ('*/', a double quote, a backslash) is rejected.""",
    ["inputs"],
    "every comment text up to 4 (thorough: 6) symbolic characters and every presence pattern of comment, unit and endianness on up to 3 elements",
    "The tests have a few commented members; absence/presence patterns and characters are the quantifier.",
    [GRAM, PROC, GEN, COS, TPL, CPR],
    [("check_comment", PROC), ("_convert_sequence_to_c", GEN), ("cosmos_telemetry", TPL)],
)
p(
    "C17",
    "Only well-formed ASN.1 identifiers are accepted",
    """Names of modules and members are accepted exactly when they match lower-case letter, then lower-case letters and digits, in hyphen-separated non-empty groups; type names exactly when
    they start with one capital letter and continue likewise.""",
    ["inputs"],
    "every string of up to 4 (thorough: 8) symbolic characters over lower- and upper-case letters, digits, '-' and '_' at every place a name can stand",
    "The tests contain no negative examples of most identifier shapes.",
    [GRAM],
    [("NameLower, NameCapital", GRAM)],
)
p(
    "C18",
    "Every fixed value of a cFS message becomes exactly one macro",
    """generate-cfs writes, for each message, exactly one macro <MESSAGE>_<KEY> per value fixed outside the CCSDS primary header plus <MESSAGE>_MID for that header, in <module>_msgids.h, with exactly
    the fixed value in parentheses; the structure itself is unaffected by fixed values.""",
    ["inputs"],
    "every value (solver variable), component tree shape, order, several members and messages",
    "The tests fix a few values in a few messages.",
    [CFS, CPR, CDATA],
    [("_process_with_components", CFS), ("print_to_file", CPR)],
)
p(
    "C19",
    "Rejected input leaves no output behind",
    """Whenever the input is defective (an input file that is missing, syntax, unknown or duplicate names, wrong ranges, positions, keys, comments, module lists, values or ranges that cannot be generated), the program exits with a non-zero status and creates no output file;
    whenever it exits with status 0 all expected output files exist.""",
    ["inputs", "fault_sequences"],
    "every kind of defect, at any place of bundles of two and four modules, for all four generators",
    "The tests look at messages of single failures of cFS only.",
    [VAL, BUILD, PROC, "asn1_parser/main.py"],
    [("main", "asn1_parser/main.py"), ("build_from_*_config", BUILD)],
)
p(
    "C20",
    "Every generated C header is self-contained",
    """Each generated header includes the header of every module it imports from and <stdint.h> whenever it uses a fixed-width type, is protected by an include guard of its own, and every type it uses is a C type, defined earlier
    in the file, or defined by an included header; every included file is generated in the same run.""",
    ["inputs"],
    "every import graph on up to 3 modules and member-kind combination (edges and kinds are solver variables), three generators",
    "The tests compare expected text; they pinned a missing .h suffix as correct for two generators' inputs (found and fixed).",
    [CFS, C, BIN, CPR, GEN],
    [("add_include", CDATA), ("set_stdint_if_needed", CDATA), ("print_to_file", CPR)],
)
p(
    "C21",
    "COSMOS packets do not depend on the other messages requested",
    """The packet generated for a message is the same whichever other messages are requested in the same run and in whatever order; the file contains exactly the requested packets, in the requested order.""",
    ["inputs", "histories"],
    "every list of up to 3 requested messages out of 3 that share header types with different fixed values (solver variables)",
    "The tests generate mostly one message per run; values leaked between messages (found and fixed).",
    [COS],
    [("generate_cosmos", COS), ("_create_telemetry_item_data", COS)],
)

TECH = "symbolic execution of the whole real program with z3; counterexamples replayed on the unmodified program"
NOTE = (
    "Bounded: for the harness shapes and bounds listed in the evidence, z3 decides every assertion for all values on every feasible path of the"
    " instrumented real program. Every path's witness is also run on the unmodified program and compared. Trusted: z3, CPython, the textX parser (run"
    " concretely on placeholder literals that become solver variables), the models of library functions in symapg/rt.py (cross-checked on every path)."
)
NA = []


def main():
    done = [i for i in P if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i in P:
            f.write(json.dumps(P[i]) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3-vt tools/setup_check.py",
        "checks": [
            {
                "property": i,
                "quick_cmd": "python3-vt check.py %s --tier quick" % i,
                "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH,
                "level": "model_checking",
                "level_note": NOTE,
            }
            for i in done
        ],
        "not_applicable": NA
        + [{"property": i, "reason": "check not built yet"} for i in P if i not in done],
        "notes": "No hooks in /repo are needed: the source is instrumented in memory on every run. /repo's own commits are fix: commits only, see known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for i in P.values():
        assert len(i["title"]) <= 80, i["title"]


main()

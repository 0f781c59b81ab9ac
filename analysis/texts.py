"""What each check says it covers."""

COMMON = ("fastxdr's own Generator::generate is interpreted abstractly (type-checked THIR of /repo's current tree, xdr.pest re-read on every run) on one specification per "
          "declaration shape of the catalogue (analysis/spec.py), with symbolic identifiers; the emitted modules are type-checked by rustc and the THIR of every decoder and WireSize impl of "
          "every declaration is interpreted abstractly on a symbolic buffer in[o0..e0) of any content, start and length (words are symbols, lengths linear terms with residues modulo 4). "
          "Nested declared types are taken by contract (assume-guarantee induction over the type structure). Nothing fastxdr or emitted is executed and no solver is called. ")

RULE = {
    "C01": "Rule: on every path on which the RFC 4506 oracle finds a valid encoding the decoder returns Ok, and each field, element, link, arm and payload equals the oracle's term. "
           "A declaration shape the generator rejects or panics on is a violation.",
    "C02": "Rule: wire_size() of a symbolic value equals the oracle's size term on every path, and the cursor of TryFrom<&mut Bytes> ends at the start plus that size.",
    "C03": "Rule: both families are compared with the same oracle on the same symbolic buffer with symbolic start (position in the allocation) and end (following bytes); TryFrom<&mut Bytes> leaves in[o0+size..e0). "
           "A deviation of one family only, and a wrong wire_size() that read_variable_array steps by, are violations.",
    "C04": "Rule: no path of a decoder reaches a panic (slice, advance, get_*, index, arithmetic, unwrap, capacity), a decoder calling itself on the same bytes, an allocation not bounded by the input, "
           "or a cycle in the decoder call graph (call depth bounded only by the input).",
    "C05": "Rule: the paths on which the oracle finds a count above the declared maximum or above the bytes present are exactly those rejected with InvalidLength; equal to the maximum is accepted; "
           "a truncated encoding is never accepted.",
    "C06": "Rule: the partition of discriminant, marker and boolean words and of string payloads by outcome (arm, member, error variant with its payload) equals the oracle's.",
    "C08": "Rule (provenance): every opaque leaf of an accepted value is a view of the input allocation at the oracle's offsets; a copy (Vec, to_vec, copy_from_slice, collect, copy_to_slice) is a different allocation.",
    "C09": "Rule: every allocation event (with_capacity, reserve, vec!, copy, collect, and one per element pushed or boxed) on every path is entailed to be at most linear in e0-o0 plus the declared maxima.",
}


def decide(prop, K):
    a = ["models of std and bytes::{Bytes, Buf} (analysis/models.py, bmodels.py) are trusted",
         "rustc's type checker and name resolution are trusted",
         "declaration shapes are those of the catalogue, with lengths, labels and names aimed at the literals of the current program: one level of declared types, deeper nesting by the contract of the nested type",
         "counted arrays: lengths 0..%d exactly, longer ones are followed for %d elements" % (K, K),
         "input buffers and lengths below 2^62 bytes; InvalidLength is accepted in place of another error when the buffer has no room for the maximum encoding",
         "array elements encode to at least one word (arrays of empty structs are outside the subset)",
         "constructs the interpreter cannot follow are listed as undecided and raise no alarm"]
    return COMMON + RULE[prop], a


FRONT = ("fastxdr's own code is interpreted abstractly (type-checked THIR of /repo's current tree; pest's matching of /repo's xdr.pest, re-read on every run, is reimplemented) on specifications with symbolic "
         "identifiers. Nothing is executed and no solver is called. ")

FRULE = {
    "C07": "Obligations: Generator::generate is interpreted on the declaration shapes of the catalogue, on families of field, label and constant names (every reserved word, digit-first labels, names of the header's locals), "
           "label groups and defaults, dependency graphs and larger mixed specifications, in two orders, with the default derive line and custom ones; rustc type-checks each module together with witness items written from the "
           "declarations alone: constructors and exhaustive patterns naming every field, member, variant and payload with its documented type, TryFrom<Bytes>, TryFrom<&mut Bytes> (with the module's Error) and WireSize "
           "bounds, bounds for the derived traits, one impl per type of a local trait (typedefs are distinct types), instantiation of generic types at any T: AsRef<[u8]> + Debug; field order and names, variant sets and newtype "
           "shapes are read from rustc's view of the types. A supported specification whose module or witness does not build is a violation.",
    "C11": "Obligations: Generator::generate is interpreted on groups of declaration shapes, on identifier, size and dependency-graph families: (a) with every hash table iterated in several orders (each a possible "
           "hash seed) the text is the same; (b) no piece of the text, and no branch deciding it, comes from process state (clock, environment, process, thread, hash seed, files, addresses); (c) in one process - statics, "
           "thread locals, cells and the Generator value keep their contents - repeated and interleaved calls with other specifications reusing the names, other derive lines and rejected texts give the text of a fresh "
           "process; (d) under whitespace and comment layouts and declaration orders the multiset of items of the module (each with its definition, whitespace aside) is the same, and a text is accepted in all or none.",
    "C14": "Obligations: Ast::new and Generator::generate are interpreted on each of a family of texts - derived from the current grammar (every alternative, option and repetition count of every rule), every data field type x array "
           "form x length token x context, union labels, discriminants and bodies, enum and constant values, reserved, primitive and odd identifiers in every position, duplicate names, typedef and declaration cycles, whole-file "
           "oddities, token deletions, duplications, swaps, replacements and truncations - and every path ends in Ok or Err: no panic construct (unwrap, expect, panic!, unreachable!, index, arithmetic, slice) is reached, no "
           "recursion repeats the arguments of a running call, no loop returns to an earlier state, no work proportional to a number in the text; when the grammar (matched independently) rejects the text every path is Err.",
    "C15": "Obligations: the binary's main is interpreted for every list of 0..3 (4) files, each readable and accepted, readable and rejected, or unreadable, under several names and orders and with repeated names; "
           "the files' contents are symbols (and, in further runs, given texts on which Generator::generate itself is interpreted). When every file is accepted, standard output is the concatenation of "
           "Generator::default().generate(contents) in argument order and the status is 0; otherwise the status is not 0 and a diagnostic is written.",
    "C13": "Obligations: (a) for dependency graphs - chains to depth 40 (100), cycles, diamonds, stacked diamonds, every edge kind (field, optional, counted and fixed array, arm, group, default arm, typedef, typedef of "
           "array) and every opaque leaf form, all graphs of three declarations with up to two uses each, seeded random graphs of up to 14 - in several declaration and name orders, Ast::generics().contains(name) equals "
           "reachability in the model; (b) for emitted modules as rustc sees them, each type's parameter list and the self types of its TryFrom and WireSize impls carry a parameter exactly for the reachable names.",
    "C12": "Obligations: for every specification (declaration shapes of the catalogue, wide and deep declarations, all runs of three data/void/fall-through arms, identifiers beginning or ending like every keyword of the "
           "grammar) under layouts (compact, newlines, CRLF, tabs, comments of either kind with declaration-like and comment-like contents in every gap, and one separator in one gap at a time) and declaration orders, what "
           "Ast::types().get/iter/typedef_target and Ast::constants().get/iter answer equals the declaration model: kinds, names, field order and types, array kind and bound, optional flag, members and values, "
           "discriminant, label sets, void labels, default; nothing more, nothing less.",
}


def front(prop):
    a = ["models of std and of pest's matching (analysis/models.py, peg.py) are trusted",
         "rustc's type checker and name resolution are trusted",
         "specifications are those enumerated; symbolic identifiers stand for any identifier not related to a keyword",
         "constructs the interpreter cannot follow are listed as undecided and raise no alarm"]
    return FRONT + FRULE[prop], a

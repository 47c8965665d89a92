"""What a discharged obligation rests on; printed in every evidence file."""
from . import smt

COMMON = [
    "z3 5.3.2 (python3-vt), sequence/string/integer arithmetic theories",
    "dv/interp.py: symbolic semantics of the Python subset used by the verified functions (executed from /repo's source, read with inspect.getsource + ast on every run)",
    "dv/loops.py: havoc-and-recur rule for loops; candidate loop relations are guessed, every relation kept is proved inductive by z3",
    "dv/table.py: field table of the Atlassian Document Format used as the precondition (a well-formed element)",
    "dv/prelude.py: library functions written out in Python of ours and executed like the package's (tested against CPython by dv/selftest.py)",
    "classes of the package that redefine the language's own operations (__eq__, __bool__, __len__, __getattr__, ...) are outside the executor: their presence turns every task into a bounded stand-in",
]

RENDER = [
    "well-formedness precondition: element fields have the JSON types of the field table; children and marks are elements of supported types that the format allows there",
    "children are rendered by contract (virtual call to_markdown/marks): an arbitrary string or exception that is a function of the child and the rendering arguments; "
    "the contract is discharged per class by the obligations of the properties C08-C24; structural induction on the finite element tree closes the argument",
    "str is modelled as z3 strings: code points above U+2FFFF are not distinguished from the rest",
    "binary floating point is treated as exact real arithmetic; timestamps whose date lies outside datetime's range are not modelled",
    "RecursionError, MemoryError and KeyboardInterrupt are outside the model; nesting depth is below the interpreter's recursion limit",
    "functions called are resolved on the imported module objects: nobody rebinds package functions at run time",
]

PARSE = [
    "inputs are JSON values (dict/list/str/int/float/bool/None trees) without aliasing between sub-values; 'is' on two JSON values is taken as equality, and True == 1 holds among them",
    "parse_node/parse_mark of children are used by contract (an arbitrary element, UnimplementedTypeError or other error that is a function of the entry)",
    "copy.deepcopy, dataclasses.fields/asdict and the generated __init__ are modelled (dv/builtin_models.py); func_args' validation is executed from its source",
    "RecursionError, MemoryError and KeyboardInterrupt are outside the model; nesting depth is below the interpreter's recursion limit",
    "functions called are resolved on the imported module objects: nobody rebinds package functions at run time",
]


CONCURRENT = PARSE + RENDER + [
    "rely/guarantee: single operations on built-in dict, list and str objects are atomic (the interpreter's lock); between any two of them another thread may extend "
    "the module-level caches, keeping their proved invariant",
    "guarantee: no function on the parsing, serialising or rendering paths writes module state, class attributes, closures or objects it did not create "
    "(frame obligations), other than publishing finished entries in the field cache",
    "imports, logging and warnings.warn are the standard library's and thread-safe; elements handed to several threads are not mutated by the caller",
]


GENERATOR = [
    "the set of element modules, their members and the members' classes are arbitrary (no bound); the committed api.py is imported and compared exhaustively with the committed package",
    "jinja2's own compiler translates the template; the generated Python is executed symbolically, the text's structure is compared, not its layout",
    "functions called are resolved on the imported module objects: nobody rebinds package functions at run time",
]


# lemma -> the theorems of dv/lemmas.lean that state it about list definitions of the operations
THEOREMS = {
    "strip.empty": "strip_nil_iff strip_nil_iff_rstrip lstrip_idem rstrip_idem strip_idem",
    "strip.len": "lstrip_length rstrip_length strip_length lstrip_suffix rstrip_prefix strip_infix",
    "replace.absent": "replace_absent",
    "replace.removed": "replace_removed replace_keeps",
    "replace.shrinks": "replace_shrinks_le replace_shrinks replace_same_iff replace_nl_same_iff",
    "replace.run": "replace_run",
    "split.shape": "split_shape_length split_shape_free split_shape_absent",
    "split.head": "split_head split_one_iff split_decomposition",
    "find": "find_some find_none",
    "split.join": "split_join",
    "join.rec": "join_snoc join_append join_empty_append join_cons",
    "join.free": "join_free",
    "collapse": "collapse_free collapse_same collapse_replace collapse_length collapse_nil",
    "repeat": "rep_neg rep_one rep_succ rep_succ' rep_add rep_comm rep_length rep_mul rep_rotate rep_free rep_prefix_step",
    "list_repeat": "join_replicate join_empty_replicate replicate_add",
    "member": "member_append member_nth member_witness",
    "reverse": "reverse_length reverse_append reverse_nth",
    "index": "index_of",
    "lstrip_chars": "lstrip_char_run lstrip_char_run_length lstrip_char_same_iff lstrip_char_cons rstrip_char_same_iff rstrip_char_snoc counted_run",
}


def base(pid, external, proved=False):
    """proved: Lean accepted dv/lemmas.lean on this run"""
    out = list(COMMON)
    for k, v in smt.TRUSTED_LEMMAS.items():
        if proved and k in THEOREMS:
            out.append("definition of the operations in lemma %s (the lemma itself is proved: dv/lemmas.lean %s): %s" % (k, THEOREMS[k].replace(" ", ", "), v))
        else:
            out.append("lemma %s: %s" % (k, v))
    out += ["model of %s" % e for e in external]
    return out


def assumptions(pid):
    if pid == "C28":
        from . import gencode

        return list(dict.fromkeys(GENERATOR + gencode.FACTS))
    if pid == "C27":
        return list(dict.fromkeys(CONCURRENT))
    n = int(pid[1:])
    return PARSE if n <= 7 or n >= 25 else RENDER

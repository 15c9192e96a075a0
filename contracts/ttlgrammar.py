"""C09, C10: what the rules of the Turtle grammar accept, against the specification's rules."""
import z3
from pymantic.parsers.lark import turtle
from pyvc import regex
from pyvc.values import *
from pyvc.verify import *
from . import cfg

FIXED = {"DOT": "\\.", "SEMI": ";", "COMMA": ",", "LB": "\\[", "RB": "\\]", "LP": "\\(", "RP": "\\)", "TYPED": "\\^\\^",
         "AT_PREFIX": "@prefix", "AT_BASE": "@base", "A": "a", "BOOLEAN": "true|false", "BASE": "(?i:base)", "PREFIX": "(?i:prefix)"}
NAMED = ["IRIREF", "PNAME_NS", "PNAME_LN", "BLANK_NODE_LABEL", "LANGTAG", "INTEGER", "DECIMAL", "DOUBLE", "STRING_LITERAL_QUOTE",
         "STRING_LITERAL_SINGLE_QUOTE", "STRING_LITERAL_LONG_SINGLE_QUOTE", "STRING_LITERAL_LONG_QUOTE", "ANON"]
OBJECT = "(iri|blank_node|collection|blank_node_property_list|rdf_literal|numeric_literal|boolean_literal)"
OBJECTS = f"({OBJECT}|object_list)"
STRUCTURE = {
    "turtle_doc": "(directive|triples DOT)*",
    "triples": "(iri|blank_node|collection) predicate_object_list|blank_node_property_list predicate_object_list?",
    "predicate_object_list": f"(iri|A) {OBJECTS} (SEMI ((iri|A) {OBJECTS})?)*",
    "object_list": f"{OBJECT} (COMMA {OBJECT})+",
    "blank_node_property_list": "LB predicate_object_list RB",
    "collection": f"LP {OBJECT}* RP",
}
TERMS = {
    "directive": "prefix_id|base|sparql_prefix|sparql_base",
    "prefix_id": "AT_PREFIX PNAME_NS IRIREF DOT", "base": "AT_BASE IRIREF DOT",
    "sparql_prefix": "PREFIX PNAME_NS IRIREF", "sparql_base": "BASE IRIREF",
    "iri": "IRIREF|prefixed_name", "prefixed_name": "PNAME_LN|PNAME_NS", "blank_node": "BLANK_NODE_LABEL|ANON",
    "numeric_literal": "INTEGER|DECIMAL|DOUBLE", "boolean_literal": "BOOLEAN", "rdf_literal": "string (LANGTAG|TYPED iri)?",
    "string": "STRING_LITERAL_QUOTE|STRING_LITERAL_SINGLE_QUOTE|STRING_LITERAL_LONG_SINGLE_QUOTE|STRING_LITERAL_LONG_QUOTE",
}


def classify(name, l):
    for n, r in FIXED.items():
        if regex.difference(l, regex.lang(r)) is None:
            return n
    return name


def t_rules(want):
    def thunk(E):
        lk = getattr(turtle, "turtle_lark", None)
        if lk is None or not hasattr(lk, "rules"):
            raise Unsupported("no Turtle grammar")
        ls = cfg.Letters()
        g = cfg.Grammar(lk, classify, ls)
        have = set(ls.names)
        known = set(FIXED) | set(NAMED)
        specs = {k: cfg.spec(ls, v, known) for k, v in {**STRUCTURE, **TERMS}.items()}
        if set(g.trees) != set(specs) or set(ls.names) != have:
            raise Unsupported(f"other symbols: {sorted(set(g.trees) ^ set(specs))} {sorted(set(map(str, set(ls.names) - have)))}")
        flt = cfg.filtered(lk, classify)
        drop = {"DOT", "SEMI", "COMMA", "LB", "RB", "LP", "RP", "TYPED", "AT_PREFIX"}
        if any(v != {k in drop} for k, v in flt.items()):
            raise Unsupported("other tokens left out of the trees")
        for k in want:
            d = regex.difference(g.trees[k], specs[k])
            E.oblige(f"grammar: the parts of {k}" + (f" (not: {ls.name(d[0])})" if d else ""), z3.BoolVal(d is None))
        doc = regex.lang("[ \\t\\r\\n]|#[^\\r\\n]*")
        ign = [regex.lang(t.pattern.to_regexp()) for t in lk.terminals if t.name in set(lk.ignore_tokens)]
        if want is STRUCTURE:
            # any number of ignored tokens: blanks, line breaks, comments up to the end of their line
            got, full = regex.star(regex.alt(*ign)) if ign else regex.EPS, regex.star(doc)
            E.oblige("grammar: blanks, line breaks and comments between tokens, and nothing else, are skipped",
                     z3.BoolVal(regex.difference(got, full) is None))
    return thunk

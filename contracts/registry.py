"""Which tasks, trusted base and assumptions belong to which property."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "pyvc: the symbolic executor of Python source in /verif/pyvc (cross-checked against CPython by the replay search and tools/selftest)",
    "z3 (python z3-solver) and cvc5 as back ends",
    "CPython's ast module: the verified text is the source file the interpreter imports",
]
ASSUMED = [
    "terms are compared by == and hash consistently (Python data model); values equal under == are interchangeable",
    "no monkey-patching: functions and classes are those bound in the module at import time",
    "memory suffices; no asynchronous exceptions",
]

TECHNIQUE = ("contract-based deductive verification: symbolic execution of the real Python source against "
             "contracts, obligations discharged by z3/cvc5; counterexamples replayed on the running code")
NOT_APPLICABLE = {}
EXT = ["requests.Session sends exactly one HTTP request per call, from its arguments as documented",
       "urllib.parse.quote_plus, urlencode, urljoin, json.loads, lxml.objectify.parse, rdflib graph parsing/serialization behave as documented (uninterpreted functions)",
       "logging has no effect on behaviour"]
META = {
    "C01": dict(note="every Graph method proved to refine the set-of-triples contract, including the representation invariant of the three indexes, for all states and inputs", assumptions=["components of triples are not None"]),
    "C03": dict(note="every Dataset method proved to refine the set-of-quads contract for all states and inputs, over Graph's own proved contract (C01, C02)", assumptions=["components of quads other than the graph are not None", "one graph object is stored under one name only", "the number of quads is the sum of the graphs' sizes (finite partition)", "remove_graph is an unimplemented stub and not part of the property"]),
    "C17": dict(note="SPARQLServer.query/update and their option handling proved for every text, graph argument, option combination, status and content type, over an assumed contract of requests", assumptions=EXT),
    "C19": dict(note="constructors, _make, _replace, conversions and literal type converters proved for all components", assumptions=["datetime.isoformat and str(int) yield the standard lexical forms"]),
    "C20": dict(note="differences, reify and changeset proved for all statement sets and exclusion lists; rdflib graphs are sets of statements", assumptions=EXT + ["rdflib.Graph.add inserts the triple; rdflib.BNode() is new at every call"]),
    "C21": dict(note="request addressing, bodies, decoding and status handling of every graph store operation proved for all names, options, statuses and content types, over an assumed contract of requests and rdflib", assumptions=EXT),
    "C07": dict(note="parse_curie, parse_curies, to_curie and the PrefixMap methods proved for all strings and maps (SMT string theory), and the round trip as a lemma over to_curie's contract", assumptions=["prefix maps map strings to strings", "the empty string is no CURIE (indexing it raises IndexError)", "a bare scheme name without a colon, and a bare name that is itself a bound prefix while there is no default, are unspecified"]),
    "C08": dict(note="addAll, resolve, shrink, setDefault of both maps, Profile and RDFEnvironment construction, delegation and importing proved for all maps, including importing a map into itself", assumptions=["keys and values are strings"]),
    "C12": dict(note="__getitem__, get_scalar, __contains__, __delitem__ proved for every kind of key over every graph state (through Graph's contract), with lang_match, is_language, one_or_none, iteration, object_of and resolve", assumptions=["a literal of RDF data has a language or a datatype, not both", "Resource.classify returns a resource for the node it is given (proved in C14)"]),
    "C13": dict(note="__setitem__ proved for every kind of key and value over every graph state: what is refused, what is removed, what is added, and that nothing else changes", assumptions=["a literal of RDF data has a language or a datatype, not both", "Resource.classify returns a resource for the node it is given (proved in C14)", "the filter values None, the empty string and xsd:string are not used as assignment keys"]),
    "C14": dict(note="__init__, new, erase, copy, is_a, in_graph, as_, classify, register_class and MetaResource.__new__ proved over every graph state, class and class registry; in_graph and classify independently of set order", assumptions=["a blank node made by BlankNode() differs from every existing term", "type.__new__ makes a class deriving from its bases (it refuses inconsistent bases with TypeError)", "below every class of a finite set there is a minimal one (finite partial order)", "only classify and register_class write the class registry"]),
    "C15": dict(note="List.__iter__ proved by a loop invariant over a ghost list of any length (one item per cell, in order, the cell's value of any kind, stops at nil), List.is_list for every graph", assumptions=["the list is well formed: every cell has exactly one first and one rest, and following rest reaches nil", "Resource.classify returns a resource for the node it is given (proved in C14)"]),
    "C18": dict(note="process_jobj, process_triple_fragment, make_quad and parse_json proved for every dataset the processor can return: exactly one quad per statement, in its graph, added to what was there", assumptions=["pyld.jsonld.to_rdf returns a dict from graph names to statements whose parts are IRIs, blank nodes or literals (any such dataset); a language tag, where there is one, is not empty", "defaultdict(f) calls f once per new key; BlankNode() is a new node (C11)", "Dataset.add inserts the quad (proved in C03)"]),
    "C04": dict(note="nt_escape proved to yield text of the safe language and decode_literal proved to invert it, letter by letter for every string of any length", assumptions=["a Python string is a sequence of code points 0..0x10FFFF", "re.sub replaces leftmost non-overlapping matches (executed symbolically from the pattern actually used)"]),
    "C05": dict(note="toNT of every IRI, literal and blank node, str of every triple and quad, and the serializers' loops proved to write tokens of the actual grammar's terminals in the actual grammar's order; the transformer's callbacks proved to read exactly the written terms and statements back; LarkParser.parse proved to add exactly the statements of a text or of every line of a stream", assumptions=["Lark's lexer matches the terminals' regular expressions greedily at each position and its LALR parser calls the transformer bottom-up as the grammar's compiled rules say (rules and terminals themselves are proved against the written text)", "a text stream yields its lines, each ended by its line feed", "identifiers of blank nodes and label maps as proved in C11; graphs as proved in C01 and C03; decode_literal and nt_escape also in C04, quote_normalized_iri in C06"]),
    "C06": dict(note="quote_normalized_iri proved to keep URI characters and escape the UTF-8 octets of all others for every string (hence total, legal, stable on legal URIs, idempotent); normalize_iri proved, for every run of escapes of any length, to look at exactly the runs of escapes of bytes other than controls and space, to decode exactly their octets and to keep reserved characters and invalid octets as escapes; idempotence and the round trip of whole IRIs follow from these contracts and the decoder's law by the argument in DESIGN.md (composition itself checked by the bounded search only)", assumptions=["bytes.decode('utf-8', 'surrogateescape') is total, yields scalar values and U+DC80..U+DCFF, is inverted by encoding, and decodes the encoding of any part of its results (bounded audit in tools/selftest.py)", "urllib.parse.quote keeps letters, digits, _.-~ and safe and escapes the UTF-8 octets of all else", "re.sub replaces the leftmost longest runs and keeps everything else"]),
    "C09": dict(note="every tree rule (unpack_predicate_object_list, triples, blank_node_property_list, collection, predicate_object_list, turtle_doc) proved to emit exactly the prescribed triples for predicate lists, object lists, collections and documents of any length over children of any kind: the step of a structural induction over the parse tree", assumptions=["Lark builds the tree the grammar's rules prescribe and calls the transformer bottom-up", "each generator made by a nested rule is consumed by its parent only", "BaseParser.make_blank_node returns a new node (proved in C11)"]),
    "C10": dict(note="the language of every term terminal of the grammar text proved equal to the specification's (regular language equality), and the transformer's iri, prefixed_name, prefix/base directives, string, numeric, boolean and literal rules, validate_iri, decode_literal and smart_urljoin proved to denote the right term for every token text", assumptions=["Lark builds the tokens and the tree the grammar's rules prescribe and calls the transformer bottom-up in document order", "urllib.parse.urljoin and urldefrag behave as documented (uninterpreted)", "an empty query or parameter separator that urllib.parse drops while resolving is unspecified"]),
    "C11": dict(note="make_blank_node, the grammar rules for blank nodes, whole parses of all four parsers (string and line by line, new and given graph) with another thread's parse between any two tokens, failed and later parses, and the identifiers of blank nodes, proved for all labels and object identities", assumptions=["Lark calls the transformer's methods during parse/transform, in the calling thread", "threading.local keeps one set of attributes per thread", "defaultdict(f) calls f once per missing key", "objects alive at the same time have different id()", "PyLD's to_rdf is external"]),
    "C16": dict(note="every term the serializer writes (strings, literals of every kind, IRIs with and without base and prefixes, blank node names) proved to be a token of the actual grammar that the actual transformer reads back as that term, and serialize_turtle proved, for graphs of any size, to write a document of the grammar whose statements are exactly the graph's (ghost grammar state over the nested loops), with the prefixes and base it relies on declared; turtle_collections by a bounded check",
                assumptions=["PrefixMap.shrink gives the IRI or prefix:rest for a bound prefix (proved in C07)", "prefixes bound in the profile contain no colon; namespaces and IRIs consist of legal characters and are unchanged by resolution against the base", "every factor of a string of legal characters is one (used as a predicate closed under concatenation and slicing)", "Lark builds the tokens and the tree the grammar describes (longest token first); tree rules as proved in C09", "sorted, enumerate, set and dict of CPython", "known finding: the datatype of a quoted literal follows a single ^"],
                bounded=["turtle_collections: real function on all list-shaped graphs of three blank nodes (about 50000 graphs), labelled bounded"]),
    "C02": dict(note="Graph.match proved sound, complete and duplicate-free for all 8 pattern shapes and all states satisfying the representation invariant, which every updating method is proved to keep", assumptions=["components of triples are not None"]),
}


def tasks(prop):
    """list of (Task, engine factory)"""
    from . import graph
    if prop == "C01":
        return [(t, graph.engine()) for t in graph.c01_tasks()]
    if prop == "C02":
        return [(t, graph.engine()) for t in graph.c02_tasks()]
    if prop == "C03":
        from . import dataset
        return [(t, dataset.engine()) for t in dataset.tasks()]
    if prop == "C19":
        from . import values_
        return [(t, values_.engine()) for t in values_.tasks()]
    if prop in ("C07", "C08"):
        from . import curie
        return [(t, curie.engine()) for t in (curie.c07_tasks() if prop == "C07" else curie.c08_tasks())]
    if prop in ("C12", "C13", "C14", "C15"):
        from . import resource
        if prop in ("C14", "C15"):
            from . import resclass
            return [(t, resclass.engine()) for t in getattr(resclass, prop.lower() + "_tasks")()]
        return [(t, resource.engine()) for t in getattr(resource, prop.lower() + "_tasks")()]
    if prop == "C05":
        from . import ntriples_
        return [(t, ntriples_.engine()) for t in ntriples_.tasks()]
    if prop == "C16":
        from . import turtle_out
        return [(t, turtle_out.engine()) for t in turtle_out.tasks()]
    if prop == "C06":
        from . import iris
        return [(t, iris.engine()) for t in iris.tasks()]
    if prop == "C04":
        from . import text
        return [(t, text.engine()) for t in text.tasks()]
    if prop == "C09":
        from . import structure
        return [(t, structure.engine()) for t in structure.tasks()]
    if prop == "C10":
        from . import ttlterms
        return [(t, ttlterms.engine()) for t in ttlterms.tasks()]
    if prop == "C11":
        from . import bnodes
        return [(t, bnodes.engine()) for t in bnodes.tasks()]
    if prop == "C18":
        from . import jsonld
        return [(t, jsonld.engine()) for t in jsonld.tasks()]
    from . import sparql_
    if prop in ("C17", "C21"):
        return [(t, sparql_.engine()) for t in (sparql_.c17_tasks() if prop == "C17" else sparql_.c21_tasks())]
    if prop == "C20":
        return [(t, sparql_.c20_engine()) for t in sparql_.c20_tasks()]
    raise KeyError(prop)


def known_findings(prop):
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.md")
    if os.path.exists(f):
        for line in open(f, encoding="utf-8"):
            if line.startswith(f"known: property={prop} "):
                out.append(line.split(" ", 2)[2].strip())
    return out

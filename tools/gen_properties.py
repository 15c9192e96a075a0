#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
PR="src/pymantic/primitives.py"; SE="src/pymantic/serializers.py"; UT="src/pymantic/util.py"
RD="src/pymantic/rdf.py"; SP="src/pymantic/sparql.py"; PB="src/pymantic/parsers/base.py"
JL="src/pymantic/parsers/jsonld.py"; LB="src/pymantic/parsers/lark/base.py"
NT="src/pymantic/parsers/lark/ntriples.py"; NQ="src/pymantic/parsers/lark/nquads.py"; TT="src/pymantic/parsers/lark/turtle.py"

prop("C01","A graph is exactly the set of triples its history of updates says it is",
 "After any sequence of adding, removing, bulk-adding and pattern-removing triples, membership, iteration, length and array conversion of a graph agree with the mathematical set obtained by applying the same updates to a set. Re-adding a present triple changes nothing; removing an absent one raises KeyError and changes nothing; every updating call returns the graph itself. Merging two graphs returns a new graph holding the union and leaves both operands unchanged. A graph the environment creates from a sequence of triples or another graph is new and holds exactly those triples.",
 ["histories","inputs"],"every finite history of graph updates over every choice of triples",
 "The tests add or remove one triple or 10000 random ones and never mix operations; pattern removal, merging and removal after overlap are never exercised.",
 [PR],[("Graph.add / Graph.remove update the triple set and the three indexes together",PR+": class Graph"),("Graph.addAll, Graph.merge, Graph.removeMatches, __contains__, __len__, __iter__, toArray",PR+": class Graph")],
 [("_triples","the set of triples","Graph"),("_spo/_pos/_osp","three nested lookup indexes over the same triples","Graph")],["in, len, iter, toArray, return values of the updating calls"])
prop("C02","Pattern matching returns exactly the matching triples of the current graph",
 "For every graph state reachable by any history of updates and every combination of given and omitted subject, predicate and object, a pattern match yields exactly the triples of the graph that equal every given component, each exactly once, and does not change the graph. Only an omitted (None) component is a wildcard, whatever the truth value of a given term. The listings of subjects, predicates and objects contain exactly the terms occurring in that position of some current triple.",
 ["histories","inputs"],"all 8 given/omitted combinations, all terms, all histories of adds and removes",
 "The tests match on graphs holding one triple, check only that it is among the results, and never after a removal; no test calls the subject, predicate or object listings.",
 [PR],[("Graph.match chooses one of three indexes or the triple set per pattern",PR+": Graph.match"),("Graph.subjects/predicates/objects read the index keys",PR+": Graph.subjects"),("representation invariant: indexes agree with the triple set and hold no empty branches",PR+": Graph.add, Graph.remove")],
 [("_spo/_pos/_osp","nested indexes","Graph")],["the sequence produced by match; subjects(), predicates(), objects()"])
prop("C03","A dataset is exactly a set of quads, and its graphs never leak into each other",
 "After any history of quad additions and removals, named-graph additions, bulk additions and pattern removals, membership, iteration, length, array conversion and pattern matching of a dataset agree with the mathematical set of quads obtained by the same history. An operation on one named graph changes no other graph, and removing an absent quad raises KeyError. Reading operations (membership, matching, removal of something absent) never create a graph, and adding a graph that has no name is refused with ValueError. A dataset the environment creates from quads is new and holds exactly those quads.",
 ["histories","inputs"],"every history of dataset operations over every choice of quads and graph names, including the unnamed default graph",
 "The tests use one quad or random quads added once, never match on an unknown graph, never remove by pattern and never look at which graphs exist afterwards.",
 [PR],[("Dataset.add/remove/match/removeMatches/__contains__/__iter__/__len__/add_graph",PR+": class Dataset"),("q_as_t / t_as_q drop and restore the graph name",PR)],
 [("_graphs","graph name -> Graph","Dataset")],["in, len, iter, match, graphs"])
prop("C04","Escaping a string for N-Triples/N-Quads loses nothing",
 "For every Unicode string, its escaped form contains only printable ASCII characters with no unescaped double quote or line break, and decoding the escaped form gives back exactly the original string, character for character. Consequently two different strings never have the same escaped form.",
 ["inputs"],"every string over the full Unicode range 0..10FFFF including controls, surrogates and astral characters",
 "Tests serialize only ASCII IRIs; the per-character escape cases and the decoder's escape alternatives are sampled by a few fixed documents.",
 [SE,UT],[("nt_escape maps each character to an escape",SE+": nt_escape"),("decode_literal / process_escape invert it",UT+": decode_literal, process_escape")],
 (),["nt_escape(s), decode_literal(s)"])
prop("C05","Serialized N-Triples and N-Quads read back as the same statements",
 "Every triple or quad whose terms are legal RDF terms is serialized as exactly one line that the corresponding parser accepts and turns back into an equal statement: same IRIs, same literal value, language tag and datatype, and blank nodes mapped one-to-one. This holds for every literal value whatsoever, every well-formed language tag, every legal ASCII IRI and for quads in the default graph; a non-ASCII IRI reads back as its percent-encoded URI form.",
 ["inputs","histories"],"every statement built from legal terms, in any number and order in one document, read from a string or line by line from a stream",
 "One test round-trips two fixed all-IRI triples; literals, languages, datatypes, blank nodes and N-Quads output are never serialized by any test.",
 [PR,SE,NT,NQ,LB,UT],[("Triple.__str__, Quad.__str__, Literal.toNT, NamedNode.toNT, BlankNode.toNT",PR),("serialize_ntriples / serialize_nquads",SE),("N-Triples/N-Quads grammar terminals and NTriplesTransformer/NQuadsTransformer actions",NT),("LarkParser.parse and line_by_line_parser",LB)],
 (),["text written by the serializers; graph or dataset produced by the parsers"])
prop("C06","IRI quoting and normalization are total, stable and meaning-preserving",
 "Quoting any IRI yields a pure-ASCII string free of characters that are illegal in a URI, leaves every already legal ASCII URI unchanged, and quoting twice equals quoting once. Normalizing never fails on any input, percent-escapes of reserved characters, C0 controls and spaces stay escapes, normalizing twice equals normalizing once whenever every percent sign starts a two-digit escape, and for such IRIs without raw spaces or controls quoting the normalized form and normalizing again gives the same normalized form.",
 ["inputs"],"every string of Unicode scalar values, with arbitrary (also malformed or non-UTF-8) percent escapes",
 "Four fixed URLs are tested; malformed UTF-8 escapes, mixed runs and double quoting are not.",
 [UT],[("quote_normalized_iri / percent_encode",UT),("normalize_iri / percent_decode / percent_encoding_re / reserved_in_iri",UT)],
 (),["quote_normalized_iri(x), normalize_iri(x)"])
prop("C07","Compact and full IRIs convert into each other without loss",
 "Resolving prefix:reference (bracketed or not) gives exactly the namespace bound to that prefix followed by the reference, a name without a colon uses the default namespace when there is one, an unbracketed string whose prefix is a registered URI scheme is returned unchanged, and an unbound prefix raises ValueError. Shrinking an IRI uses a longest namespace that the IRI starts with, replaces only that leading occurrence, and returns the IRI unchanged if there is none. For prefixes that contain no colon or bracket and are not URI schemes, resolving the shrunk form gives back the original IRI.",
 ["inputs","configurations"],"every IRI, every prefix table (including nested, empty and default namespaces)",
 "Tests use a dozen fixed CURIEs and one shrink; namespaces recurring inside the IRI, empty references and tables with a default namespace are not covered.",
 [PR],[("parse_curie, to_curie",PR),("PrefixMap.resolve / shrink, Profile.resolve",PR)],
 [("prefix table","prefix -> namespace","PrefixMap")],["resolve, shrink, parse_curie, to_curie"])
prop("C08","Prefix maps, term maps and profiles keep exactly the bindings given to them",
 "Importing bindings into a prefix map, term map or profile adds every new binding, replaces an existing one exactly when overriding was requested, touches nothing else and leaves the source unchanged. Resolving a term gives its bound IRI, else default plus term when a default is set, else nothing; shrinking an IRI gives a term bound to exactly that IRI, else the IRI itself. A profile sends strings containing a colon to its prefixes and all others to its terms, and a new profile always knows rdf and xsd without overriding the caller's bindings for them.",
 ["inputs","histories"],"every pair of maps with arbitrary overlap, both override settings, every term, IRI and default",
 "No test imports one map or profile into another, uses term maps, or sets a default vocabulary.",
 [PR],[("PrefixMap.addAll/setDefault, TermMap.addAll/resolve/shrink/setDefault",PR),("Profile.__init__/resolve/importProfile/set*",PR)],
 [("bindings","prefix or term -> IRI","PrefixMap, TermMap")],["map contents after each call, resolve, shrink"])
prop("C09","Turtle structure becomes exactly the triples it denotes",
 "For every Turtle statement, however predicate lists, object lists, blank node property lists and collections are nested, the parser emits exactly the triples the Turtle specification prescribes and nothing else: one triple per subject, predicate and object, a fresh blank node per bracket, and a first/rest chain in document order ending in nil per collection. Every emitted component is an RDF term.",
 ["inputs","programs"],"every parse tree of the Turtle grammar, any nesting depth and list length",
 "The W3C examples cover each construct a few times, mostly un-nested, and compare with blank nodes erased, so wrong wiring between blank nodes is invisible.",
 [TT],[("unpack_predicate_object_list, TurtleTransformer.triples, blank_node_property_list, collection, predicate_object_list, turtle_doc",TT)],
 (),["the triples produced by the transformer"])
prop("C10","Turtle terms denote the right IRIs and literals",
 "Every IRI reference, prefixed name, string, number and boolean in a Turtle document becomes the term the specification assigns to it: escapes decoded exactly once, quotes of the right length stripped, the datatype or language as written, numbers and booleans with their XSD type and unchanged lexical form. IRIs are resolved, as urllib.parse.urljoin does and keeping an empty fragment, against the base and prefixes in force at that point of the document; a reference containing an illegal character (also via an escape) is rejected, and so is an undeclared prefix other than the built-in rdf and xsd.",
 ["inputs","histories"],"every token, every sequence of base and prefix directives before it",
 "The W3C suite samples each token class; redefinition of base and prefixes, and escapes producing illegal characters at every position, are sampled a handful of times.",
 [TT,UT,PB],[("TurtleTransformer.iri/prefixed_name/prefix_id/sparql_prefix/base/string/rdf_literal/numeric_literal/boolean_literal",TT),("validate_iri",TT),("decode_literal, smart_urljoin",UT)],
 [("base_iri, prefixes","directives in force","TurtleTransformer")],["terms in the parsed graph; exceptions"])
prop("C11","Blank node identity: one label, one node, one parse",
 "Within one parse every occurrence of a blank node label denotes one and the same blank node and different labels denote different nodes; every anonymous node is new. Blank nodes of different parse calls, in the same or in concurrent threads and also after a failed parse, are never shared. Two different live blank nodes always have different identifiers, and each identifier is a legal N-Triples blank node label.",
 ["inputs","histories","schedules"],"every document, every sequence or interleaving of parse calls on the shared parsers",
 "One test parses a label twice and checks only the number of triples; failed parses, repeated parses and threads are not tested.",
 [PB,LB,NT,TT,JL,PR],[("BaseParser._prepare_parse/_cleanup_parse/make_blank_node with thread-local call state",PB),("LarkParser.parse",LB),("BlankNode.value",PR)],
 [("_call_state.bnodes","label -> blank node of the running parse","BaseParser")],["identity of nodes in parsed graphs, BlankNode string forms"])
prop("C12","Reading, testing and deleting a resource key all see the same values",
 "For every graph, resource and access key (predicate alone, or with a language, datatype, class or None), reading returns exactly the objects the key selects, the membership test is true exactly when there is one, and deleting removes exactly the triples linking the resource to those objects and nothing else in the graph. A predicate alone selects all its objects; on a scalar predicate, the literals matching the class's language, failing those the resource references, failing those the datatyped literals, failing those the plain literals. A language key selects literals of a matching language, where a language matches itself and its bare primary tag matches every region; a datatype key selects literals of that datatype (the empty string or xsd:string: plain literals); on a non-scalar predicate both also select the resource references; a class key selects objects of that class; None selects all. Reading a scalar predicate gives the one object, None for none, and ValueError for several. Iterating over a resource gives the predicate and object of each of its triples once, and reverse lookup gives each subject that refers to it, once per referring triple.",
 ["inputs","histories"],"every graph content and every kind of key, scalar and multi-valued predicates",
 "Tests check a handful of value mixes set through the same API; leftover triples of other subjects or predicates and mixed-language reads are hardly looked at.",
 [RD,PR,UT],[("Resource.__getitem__/get_scalar/__delitem__/__contains__ via _objects_for_key",RD),("objects, objects_by_lang, objects_by_datatype, objects_by_type, bare_literals",RD),("Resource.__iter__, object_of",RD),("lang_match, is_language, one_or_none",PR+", "+UT)],
 (),["resource[key], key in resource, graph content after del"])
prop("C13","Assigning to a resource key replaces exactly the documented values",
 "Assigning to a predicate replaces all its objects by the new value or set of values, except that on a scalar predicate a language-tagged literal replaces only literals of a matching language together with untagged, datatyped and resource objects; assigning through a language, datatype or class filter replaces only the objects the filter governs. Triples with another subject or predicate are never touched. An assignment that is refused with ValueError leaves the graph unchanged.",
 ["inputs","histories"],"every prior graph content, every key kind, every single value or set of values",
 "Tests assign along a few fixed sequences and read back through the same key; untouched triples and refused assignments are not compared.",
 [RD],[("Resource.__setitem__, _objects_for_implicit_set, _objects_for_explicit_set",RD),("literalize, objectify_value, check_objects",RD)],
 (),["graph content after the assignment; exceptions"])
prop("C14","Resource creation, erasing, copying and class lookup act on exactly one subject",
 "Creating a resource adds exactly its type triples for the given or a new blank subject; erasing removes exactly the triples of its subject; copying adds exactly one copy of each of its triples for the target subject. A resource is reported as an instance of its class exactly when every required type triple is present, enumeration of a class in a graph returns exactly the subjects having all its types, and classification returns an object for the same subject whose class derives from every Python class registered for its types. A resource class has the prefixes and scalar predicates of all its bases together with those it declares, its own prevailing.",
 ["inputs","histories","configurations"],"every graph, subject, set of types and class registry, independent of set ordering",
 "Tests use one or two registered classes in one order; copying, blank resources and enumeration of multi-type classes are never tested.",
 [RD],[("Resource.new, erase, copy, is_a, in_graph, classify, as_",RD),("MetaResource._classes, MetaResource.__new__, register_class",RD)],
 [("_classes","RDF type -> Python class","MetaResource")],["graph content, returned resources and their classes"])
prop("C15","RDF list traversal yields the elements in order, each once",
 "Iterating over a well-formed RDF list of any length yields one item per list cell, in list order, each being the value of that cell whatever kind of term it is, and stops at nil. Traversal changes nothing, and a node is reported as a list node exactly when it has a rest link.",
 ["inputs"],"every finite well-formed list of any length, with any terms as elements, inside any graph",
 "Only the test manifest list and one list of three plain strings are ever traversed.",
 [RD],[("List.__iter__, List.is_list",RD)],(),["the iterated sequence"])
prop("C16","Turtle output reads back as the same graph",
 "For every graph of legal RDF terms whose IRIs are unchanged by resolution against the base, and without cyclic, shared or otherwise malformed lists, the text written by the Turtle serializer is accepted by the Turtle parser and describes the same triples up to renaming of blank nodes (a plain literal reads back as an xsd:string), for every profile of legal prefix names and absolute namespaces. String escapes are lossless, every abbreviated name expands to the original IRI, and distinct blank nodes get distinct labels.",
 ["inputs","configurations"],"every graph of legal terms, every profile of prefixes",
 "Tests serialize five small literal/IRI graphs and only check that the text parses; escapes, blank nodes, IRIs with reserved characters and resource lists are not covered.",
 [SE,UT],[("turtle_repr, turtle_string_escape, escape_prefix_local, default_bnode_name_generator",SE),("serialize_turtle",SE)],
 (),["text written, graph parsed back"])
prop("C17","SPARQL requests carry exactly the query and graphs, and errors are never silent",
 "Every query or update sends exactly one HTTP request to the endpoint, carrying the UTF-8 encoded text once, unchanged and in the place the chosen protocol style requires, with exactly the given default and named graphs under the parameter names of that operation and the matching content type or accept header. A status other than 200 or 204 raises an error and never returns a result; a 204 returns True for an update. A result document is decoded according to the response's content type, and an unknown content type raises.",
 ["inputs","configurations"],"every query text, graph list and server option combination, every response status and content type",
 "Two recorded exchanges with one option combination are replayed.",
 [SP],[("_SelectOrUpdate.execute, _Select, _Update",SP),("SPARQLServer.query/update",SP)],
 (),["the arguments of the HTTP request, return values, exceptions"])
prop("C18","JSON-LD loading stores exactly the quads of the expanded dataset",
 "For every dataset produced by the JSON-LD processor, loading adds exactly one quad per statement: IRIs, literals with their datatype or language, and blank nodes by label, in the graph the processor put them in (default graph as no name), and nothing else. Loading into an existing sink keeps its previous content and returns that sink.",
 ["inputs"],"every dataset the JSON-LD processor can return",
 "One document with literals in the default graph is loaded and only the number of statements is checked.",
 [JL,PB],[("PyLDLoader.process_jobj, process_triple_fragment, make_quad, parse_json",JL)],(),["quads in the sink"])
prop("C19","Triples, quads and literals are immutable values with exactly their components",
 "Building a triple, quad or literal by constructor, from a sequence or by replacing fields yields exactly the given components in order, replacing only the named fields and rejecting unknown field names and wrong lengths. Conversion between quads and triples keeps subject, predicate and object and only drops or sets the graph name. Converting integers and date-times to literals yields their standard lexical form with the matching XSD datatype unless a datatype is given, and a string literal keeps exactly the value, language and datatype given.",
 ["inputs"],"every choice of components, field subsets and values",
 "Field replacement, sequence construction with wrong lengths and conversions with explicit datatypes are not tested.",
 [PR,UT],[("Triple/Quad/Literal __new__, _make, _replace, _asdict, field properties",PR),("q_as_t, t_as_q, Literal.types, en, de",PR+", "+UT)],(),["fields of the built values"])
prop("C20","Change sets describe exactly the difference between two graphs",
 "For any two graphs the computed removals are exactly the statements of the first that are not in the second, and the additions those of the second not in the first, leaving out only statements whose predicate is excluded; applying them to the first graph gives the second. The change-set graph reifies each removal and each addition exactly once with its subject, predicate and object, linked from one change set about the given graph.",
 ["inputs"],"every pair of graphs and every exclusion list",
 "No test calls the difference or change-set functions.",
 [SP],[("differences, changeset, reify",SP)],(),["returned lists and change-set graph"])
prop("C21","Graph store operations address exactly the named graph and fail loudly",
 "Every get, put, post, delete and patch of a graph store client sends exactly one HTTP request of that method, addressed to exactly the named graph: the dataset URL with the percent-encoded graph name as its only parameter or as its last path segment, according to the configured style (a post without a name goes to the dataset URL itself). An uploaded graph is carried completely in the body with the matching content type, a fetched graph holds exactly the statements of the response body with the graph's name as base, and every response status outside the success codes of that operation raises an error.",
 ["inputs","configurations"],"every graph name, dataset URL, graph content, addressing style, response status and content type",
 "No test exercises the graph store client.",
 [SP],[("UpdateableGraphStore.request_url, get, put, post, delete",SP),("PatchableGraphStore.patch",SP)],(),["the HTTP request, return values, exceptions"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))

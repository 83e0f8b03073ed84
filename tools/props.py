NOT_APPLICABLE = []
MC = "model_checking"
BFS = "explicit-state exploration of operation histories on the real code, in lockstep with a reference model"
EXH = "bounded exhaustive enumeration of inputs on the real code against a reference model"
B = "omegaconf/"
PROPS = [
dict(id="C01", title="List configs behave as Python lists under every operation history",
 statement="For every sequence of list operations (reading, assigning and deleting indices and slices, insert, append, extend, +=, +, pop, remove, sort, reverse, clear, index, count, in, len, iteration) a writable untyped list config holds, returns and iterates exactly what a Python list given the same operations would, and raises exactly where the Python list raises, unchanged by the failure. Elements an operation does not address keep their raw value, missing values and interpolations included. Every element's own index and parent stay correct throughout.",
 over=["histories", "inputs"], quant="all operation histories over a bounded alphabet of list operations and element values; all slices (start, stop, step) on short lists",
 why="test_basic_ops_list.py applies each operation once or twice to a handful of lists; histories, negative and out of range bounds and mixed element kinds are sampled.",
 files=[B+"listconfig.py", B+"basecontainer.py"],
 mech=[("ListConfig.__getitem__/__setitem__/__delitem__/insert/append/pop/sort", B+"listconfig.py"), ("BaseContainer._set_item_impl", B+"basecontainer.py"), ("ListConfig._update_keys", B+"listconfig.py")],
 technique=BFS+" (a Python list)", level=MC,
 note="Exhaustive within the bounds: every history of 2 (thorough 3) of ~190 operations from 9 initial lists, 4 (5) of a reduced alphabet, every slice on lists up to length 5 (7). Trusts Python's list as the oracle."),
dict(id="C02", title="Dict configs behave as Python dicts under every operation history",
 statement="For every sequence of dict operations (item and attribute read, assignment and deletion, get, pop, popitem, setdefault, update, clear, in, len, keys, values, items, iteration) with keys of every supported type (str, bytes, int, float, bool, Enum), a writable untyped dict config holds the same keys in the same order with the same values, returns the same results, and raises where a Python dict raises, unchanged by the failure. Attribute and item access to a string key are interchangeable.",
 over=["histories", "inputs"], quant="all operation histories over a bounded alphabet of keys, values and operations",
 why="test_basic_ops_dict.py checks single operations on fixed dicts; key-type mixes, order and histories are sampled.",
 files=[B+"dictconfig.py", B+"basecontainer.py"],
 mech=[("DictConfig accessors and mutators", B+"dictconfig.py"), ("BaseContainer._set_item_impl", B+"basecontainer.py")],
 technique=BFS+" (a Python dict)", level=MC,
 note="Exhaustive within the bounds: every history of 2 (3) operations of the full alphabet and 3-4 of a reduced one, keys of all six types. Trusts Python's dict as the oracle."),
dict(id="C03", title="A read-only config never changes",
 statement="While a config node is read-only, directly or by inheritance from an ancestor, no public mutation (item, attribute, slice, list and dict methods, update with or without merge and force_add, merge_with, merge_with_dotlist) applied at it or below it changes its content, structure, types or interpolations; every attempt that would change a writable twin raises ReadonlyConfigError (or is refused for another reason) . A descendant whose own read-only flag is explicitly False stays writable, and frozen dataclasses create read-only nodes.",
 over=["histories", "inputs", "configurations"], quant="all placements of read-only flags over small trees (untyped and typed) x all public mutators at every node x argument values",
 why="test_readonly.py tries a few mutators on a few shapes; the product of flag placement, node kind, mutator and argument is not covered.",
 files=[B+"base.py", B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"nodes.py", B+"omegaconf.py"],
 mech=[("readonly guards in each mutator", B+"dictconfig.py, listconfig.py, nodes.py, basecontainer.py"), ("Node._get_flag inheritance", B+"base.py")],
 technique="exhaustive enumeration of flag placements and operation histories on the real code, differential against a writable twin", level=MC,
 note="Every flag placement and mutator in the alphabet is executed on a read-only config and on a writable twin."),
dict(id="C04", title="Struct mode never lets keys appear, and blocks nothing else",
 statement="In struct mode (set on the node or inherited) or on a structured config, no operation adds a key that is not already there: reading or writing an unknown key raises, whichever way it is attempted (attribute, item, setdefault, update, merge, merge_with, OmegaConf.update), and pop and item deletion raise. Every operation that neither adds nor removes a key behaves as it does on an identical config that is not in struct mode, and OmegaConf.update(force_add=True), open_dict and an explicit struct=False flag admit new keys.",
 over=["histories", "inputs", "configurations"], quant="all placements of struct flags over small trees x all operations at every node",
 why="test_struct.py covers a few single operations on one or two shapes.",
 files=[B+"dictconfig.py", B+"base.py", B+"basecontainer.py", B+"omegaconf.py"],
 mech=[("DictConfig._validate_get", B+"dictconfig.py"), ("DictConfig.pop/__delitem__ struct guards", B+"dictconfig.py"), ("OmegaConf.update force_add", B+"omegaconf.py")],
 technique="exhaustive enumeration of flag placements and operations on the real code, differential against a non-struct twin", level=MC,
 note="Every struct flag placement and operation of the alphabet is executed in struct mode and on an open twin."),
dict(id="C05", title="Flags are inherited exactly, whatever happened before",
 statement="After any history of setting, clearing and querying flags, assigning, replacing, removing and re-attaching nodes, copying and pickling, the effective value of readonly, struct or any other flag at every node is its own explicit value if it has one, otherwise that of its nearest ancestor that has one. In particular a query, or the order of queries and changes, never influences a later answer.",
 over=["histories"], quant="all histories of flag changes, flag queries and structural changes up to a bound",
 why="Tests set one flag and read it; stale cached answers need a query, a change and another query in the right places of the tree.",
 files=[B+"base.py", B+"basecontainer.py"],
 mech=[("Node._get_flag cache and _invalidate_flags_cache", B+"base.py"), ("Node._set_parent", B+"base.py")],
 technique=BFS+" (recomputed inheritance)", level=MC,
 note="State includes the hidden caches; every history up to the bound is executed, and all flags of all nodes compared to a recomputation from explicit flags."),
dict(id="C06", title="read_write, open_dict and flag_override always restore the flags",
 statement="When a read_write, open_dict or flag_override block ends, normally or by an exception raised at any point in it, every node's explicit flags are exactly what they were when the block was entered, also when blocks are nested on the same or different nodes and when the body mutates the config or fails in it. Inside the block exactly the named flags of that node have the requested values.",
 over=["histories", "fault_sequences"], quant="all nestings of up to three blocks over nodes and flags x every body operation x every point of failure",
 why="Tests use one block that ends normally.",
 files=[B+"omegaconf.py"],
 mech=[("flag_override, read_write, open_dict", B+"omegaconf.py")],
 technique="exhaustive enumeration of nested blocks and exception points on the real code against a stack model", level="fault_enumeration",
 note="All nestings to depth 3 with an exception injected at every point."),
dict(id="C07", title="A failed change leaves the config exactly as it was",
 statement="If a mutation of a single value (assigning or deleting an item, attribute or index, inserting, appending, popping, setdefault, OmegaConf.update without merge) raises, the whole config (content, order, interpolations, element keys and parents, flags, declared and runtime types) is what it was before the call, for untyped and typed configs and whatever the reason for the failure (type, read-only, struct, unknown key, unsupported value, invalid nested value, invalid interpolation).",
 over=["inputs", "histories"], quant="all failing single-value mutations over a bounded alphabet of configs, targets and values, from all reachable states",
 why="Tests check that an error is raised; few check the state after it, and not for nested or partially applied values.",
 files=[B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"base.py", B+"nodes.py"],
 mech=[("_set_value with restore in DictConfig, ListConfig, UnionNode", B+"dictconfig.py, listconfig.py, base.py"), ("insert/append rollback", B+"listconfig.py")],
 technique="explicit-state exploration of operation histories on the real code with full-state snapshots around every failing transition", level=MC,
 note="Every failing transition of the explored space is checked on a full snapshot of the tree."),
dict(id="C08", title="Typed fields always hold values of their declared type",
 statement="After any history of successful or failed operations (assignment, update, merge, dotlist, list and dict methods, resolve, copy) on a config created from a dataclass, attrs class or typed container, every node holds a value conforming to its declared type: None only where Optional, otherwise an instance of exactly the annotated primitive, enum, Path, bytes, Union member, list or dict of such elements (keys included), or structured config of the declared class or a subclass; missing and interpolations excepted. The declared types themselves never change.",
 over=["histories", "inputs"], quant="all operation histories over a bounded alphabet of typed fields x values of every kind",
 why="Tests assign selected values to selected fields once; the guarantee is over all entry points and histories.",
 files=[B+"nodes.py", B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"base.py", B+"_utils.py"],
 mech=[("ValueNode.validate_and_convert", B+"nodes.py"), ("_validate_set, _deep_update_type_hint", B+"dictconfig.py, listconfig.py, basecontainer.py"), ("UnionNode._set_value", B+"base.py")],
 technique="explicit-state exploration of operation histories on the real code with an independent type-conformance invariant", level=MC,
 note="The invariant is evaluated on every node of every reached state; values of every supported kind, valid and invalid, through every entry point of the alphabet."),
dict(id="C09", title="Conversion to a declared type is the same through every entry point",
 statement="Writing a value to a typed field converts or rejects it exactly as documented for the field's type (int, float, bool, str, bytes, Path, Enum, Optional, Union, List, Dict, structured), and gives the same stored value or the same refusal through every entry point: constructor value, attribute, item, OmegaConf.update, merge, merge_with, setdefault-like insertion into typed containers, append and insert. Reading an interpolation through a typed field applies the same conversion to the interpolated value.",
 over=["inputs"], quant="all (declared type, value, entry point) triples over a value alphabet covering every kind and boundary spelling",
 why="test_nodes.py has tables of selected pairs for direct node assignment only.",
 files=[B+"nodes.py", B+"base.py", B+"basecontainer.py", B+"omegaconf.py"],
 mech=[("*_validate_and_convert_impl", B+"nodes.py"), ("UnionNode._set_value_impl", B+"base.py"), ("_node_wrap", B+"omegaconf.py")],
 technique=EXH+" (a conversion table)", level="exploration",
 note="The full product of types x values x entry points; the table is written from the documentation."),
dict(id="C10", title="Every node knows its place: parents, keys and full keys are exact",
 statement="After any history of operations, every node's parent and key are those of its actual position, so the full key in error messages, missing_keys and interpolation diagnostics names the node that was really accessed and selecting that full key from the root returns that node; relative interpolations resolve against the real position.",
 over=["histories"], quant="all operation histories over a bounded alphabet including insertions, deletions, sorting, slice assignment, merges in all list modes, resolve, copy and pickle",
 why="Tests check full keys of freshly created configs; keys go stale only after restructuring.",
 files=[B+"basecontainer.py", B+"listconfig.py", B+"base.py"],
 mech=[("_update_keys, _re_parent, _set_item_impl assign()", B+"listconfig.py, base.py, basecontainer.py"), ("_get_full_key", B+"basecontainer.py")],
 technique="explicit-state exploration of operation histories on the real code with a tree-consistency invariant", level=MC,
 note="The invariant is evaluated on every node of every reached state."),
dict(id="C11", title="Copies and inputs are never aliased",
 statement="After copying (copy, deepcopy, .copy(), pickling), creating from, assigning, inserting, merging or updating with another config or plain container, masked_copy, list concatenation or to_container, a later change on either side is never visible on the other, and the source operands (configs, dicts, lists, dataclass instances) are left exactly as they were, parents and flags included. A copy is equal to its source and has the same types and flags.",
 over=["histories", "inputs"], quant="all pairs (copying operation, later mutation on either side at any node) over small trees of every node kind",
 why="Tests check a few copy/mutate pairs on flat configs.",
 files=[B+"base.py", B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"nodes.py", B+"omegaconf.py"],
 mech=[("__deepcopy__ of every node class", B+"dictconfig.py, listconfig.py, nodes.py, base.py"), ("deepcopy on set in _set_item_impl", B+"basecontainer.py"), ("merge copies its first argument", B+"omegaconf.py")],
 technique="exhaustive enumeration of copy-then-mutate histories on the real code with full-state snapshots of both sides", level=MC,
 note="Every pair is executed; both object graphs are also checked to share no mutable node."),
dict(id="C12", title="Merging follows the documented semantics for all inputs",
 statement="For all small configs A and B (dicts, lists, values, None, missing, interpolations, nested), merge(A, B) is the documented result: dicts are merged recursively, B's values win over A's, a missing value in B never overwrites A, B's None and interpolations replace, lists are replaced, extended or extended with the new unique items according to the list merge mode, keys keep A's order followed by B's new keys. Merging into structured configs keeps their types, rejects unknown keys and ill-typed values, and merges element-wise into typed dicts.",
 over=["inputs"], quant="all pairs and triples of small trees over a bounded alphabet x list merge modes",
 why="test_merge.py has some 200 hand-picked cases; the combinations of special values at each level are not exhausted.",
 files=[B+"basecontainer.py", B+"omegaconf.py"],
 mech=[("BaseContainer._map_merge/_list_merge", B+"basecontainer.py")],
 technique=EXH+" (a reference merge)", level="exploration",
 note="All pairs of trees up to the size bound are merged and compared with a reference merge written from the documentation."),
dict(id="C13", title="All ways to merge agree and leave their inputs alone",
 statement="For all small configs, OmegaConf.merge(A,B,C) equals merging one at a time, equals merge_with on a copy of A, equals unsafe_merge on copies, is independent of passing dicts, configs or dataclasses of the same content, and modifies none of its inputs; merging a config with itself or with an empty config changes nothing. Explicit flags of later configs override earlier ones in the result, and a read-only first config can be merged but yields a read-only result.",
 over=["inputs"], quant="all pairs and triples of small trees (typed, untyped, flagged) over a bounded alphabet",
 why="Tests compare single calls with expected values.",
 files=[B+"omegaconf.py", B+"basecontainer.py"],
 mech=[("OmegaConf.merge/unsafe_merge/merge_with", B+"omegaconf.py, basecontainer.py")],
 technique="bounded exhaustive enumeration of inputs on the real code with algebraic (differential) oracles", level="exploration",
 note="Metamorphic: no hand-written expected values; compared with C12's reference for meaning."),
dict(id="C14", title="Interpolations evaluate to what the documented rules say",
 statement="For every small config graph, reading a value containing interpolations (absolute, relative with any number of dots, bracketed, through lists, chained, nested in keys, concatenated in strings, resolver calls with interpolated arguments) returns the value of the node named by the documented rules, with its type preserved for a sole interpolation and str() concatenation otherwise; unknown keys, missing targets, cycles and interpolations to an ancestor raise the documented errors rather than returning a value or not terminating.",
 over=["inputs", "programs"], quant="all assignments of expressions from a bounded alphabet to the nodes of small config shapes",
 why="test_interpolation.py has hand-picked graphs; cycles and chains through containers are sampled.",
 files=[B+"base.py", B+"grammar_visitor.py", B+"omegaconf.py", B+"_impl.py"],
 mech=[("Container._resolve_interpolation_from_parse_tree, _select_impl, _resolve_key_and_root", B+"base.py")],
 technique=EXH+" (a reference evaluator)", level="exploration",
 note="All graphs in the bounded space are read node by node on the real code and compared with an independent evaluator."),
dict(id="C15", title="Reading, to_container, resolve and YAML agree on resolved values",
 statement="For every small config, resolving by OmegaConf.resolve in place, converting with to_container(resolve=True), dumping with to_yaml(resolve=True) and reading each value through attribute, item, get, iteration or select give the same values (or all fail); after resolve nothing in the config is an interpolation any more and missing stays missing; resolving again changes nothing. Without resolve, conversion keeps interpolation strings verbatim.",
 over=["inputs", "programs"], quant="all small config graphs over a bounded alphabet of values and expressions, typed and untyped",
 why="Each route is tested on its own with few configs.",
 files=[B+"_impl.py", B+"basecontainer.py", B+"omegaconf.py", B+"base.py"],
 mech=[("_impl._resolve", B+"_impl.py"), ("BaseContainer._to_content", B+"basecontainer.py")],
 technique="bounded exhaustive enumeration of configs on the real code with differential oracles", level="exploration",
 note="Every route is executed on every config of the space."),
dict(id="C16", title="Observing a config never changes it",
 statement="No read operation (attribute and item access, get, in, len, iteration, keys/values/items, ==, hash, str, repr, select, to_container, to_object, to_yaml, missing_keys, is_missing, is_interpolation, get_type, flags, copying, pickling, using it as a merge or update argument, also when the operation raises) changes content, interpolations, types, flags or later answers of the config or of anything else.",
 over=["histories", "inputs"], quant="all pairs of observers in sequence x configs of every node kind",
 why="Tests look at the result of the observer, not at the config afterwards.",
 files=[B+"base.py", B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"omegaconf.py", "pydevd_plugins/extensions/pydevd_plugin_omegaconf.py"],
 mech=[("accessors", B+"*.py")],
 technique="explicit-state exploration of observer histories on the real code with full-state snapshots", level=MC,
 note="All pairs of observers on every config of the list; the second answer must be the answer a fresh config gives."),
dict(id="C17", title="Missing values are never mistaken for values",
 statement="A mandatory-missing value ('???'), at any place and reached in any way (attribute, item, index, interpolation, select, iteration, to_container with throw_on_missing, to_object, string interpolation), raises MissingMandatoryValue or the documented error, or yields the given default (get, select, pop), and is never returned as data by a resolving read; `in` is False for it, is_missing is True, and missing_keys is exactly the set of the full keys of missing nodes.",
 over=["inputs", "programs"], quant="all small typed and untyped trees with missing values at any subset of nodes x all readers",
 why="Tests try single positions and readers.",
 files=[B+"base.py", B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"omegaconf.py", B+"_utils.py"],
 mech=[("_is_missing, throw_on_missing_value", B+"base.py, dictconfig.py, listconfig.py"), ("OmegaConf.missing_keys", B+"omegaconf.py")],
 technique=EXH+" (set of missing paths)", level="exploration",
 note="All subsets of positions in the listed shapes x all readers."),
dict(id="C18", title="Paths address exactly the node they name",
 statement="For every config and path, in dot or bracket notation, OmegaConf.select returns the value at that path (or the default exactly when nothing is there or it is missing), OmegaConf.update changes exactly that node and creates only the intermediate nodes the path names, both notations are equivalent, and everything not under the path is untouched. update with merge merges containers and otherwise replaces; masked_copy keeps exactly the given keys.",
 over=["inputs", "histories"], quant="all small trees x all paths over the key alphabet in every notation x values x merge/force_add flags",
 why="test_select.py and test_update.py list examples; the frame condition is rarely checked.",
 files=[B+"omegaconf.py", B+"_impl.py", B+"_utils.py", B+"base.py"],
 mech=[("OmegaConf.update/select", B+"omegaconf.py, _impl.py"), ("split_key", B+"_utils.py")],
 technique=EXH+" (nested dict/list addressing)", level="exploration",
 note="All paths of length up to 3 over the alphabet in all notations on all trees of the space."),
dict(id="C19", title="YAML round trips every config",
 statement="For every config of supported plain values, OmegaConf.create(OmegaConf.to_yaml(cfg)) equals cfg, with the exact types and values of all keys and values (strings that look like numbers, booleans, nulls, dates, interpolations or missing stay strings; floats, nan and inf, unicode, multi-line and special characters, bytes and key order survive). save followed by load does the same through files and streams, and a scalar or command-line value parses to the documented YAML type.",
 over=["inputs"], quant="all short strings over an alphabet of YAML-significant characters, all numeric-looking spellings up to a length, all small structures",
 why="Tests round-trip a few strings; YAML's implicit typing has many spellings.",
 files=[B+"_utils.py", B+"omegaconf.py"],
 mech=[("get_yaml_loader, get_omega_conf_dumper", B+"_utils.py"), ("OmegaConf.to_yaml/create/save/load", B+"omegaconf.py")],
 technique="bounded exhaustive enumeration of inputs on the real code with a round-trip oracle", level="exploration",
 note="All strings up to length 4-5 over the alphabet as value and key; structures to depth 2."),
dict(id="C20", title="A save that fails does not destroy the existing file",
 statement="If saving a config fails before there is anything to write (an interpolation that cannot be resolved, an unserialisable value), an existing file at the destination keeps its content and no file is created, and a stream receives nothing; a successful save leaves exactly the YAML of the config, with nothing of a longer previous content. Loading never modifies the file and after any failed load or save a following save or load works.",
 over=["fault_sequences", "histories"], quant="all save/load histories to a bound with a fault injected at every operation",
 why="test_serialization.py saves valid configs to new files.",
 files=[B+"omegaconf.py"],
 mech=[("OmegaConf.save, load", B+"omegaconf.py")],
 technique="enumeration of save/load histories with injected failures on the real code in a scratch directory", level="fault_enumeration",
 note="All histories to depth 3-4 over files and streams x failing and succeeding configs."),
dict(id="C21", title="Pickle and copy round trips preserve everything",
 statement="For every config (typed or not, with flags, missing values, interpolations, unions, nested containers) pickling with every protocol and unpickling gives an equal config with the same content, order, declared and runtime types, optionality, flags and parent structure, and it behaves the same afterwards: the same later operations succeed, fail and give the same results as on the original.",
 over=["inputs", "histories", "configurations"], quant="all configs of the list x all pickle protocols x all later operations of the alphabet (differential twin)",
 why="test_serialization.py compares the unpickled value, rarely its later behaviour.",
 files=[B+"base.py", B+"basecontainer.py", B+"nodes.py"],
 mech=[("__getstate__/__setstate__", B+"base.py, basecontainer.py")],
 technique="exhaustive enumeration of (config, protocol, later operation) histories on the real code against an unpickled twin", level=MC,
 note="The restored config is run in lockstep with the original."),
dict(id="C22", title="The interpolation grammar means what its documentation says",
 statement="For every string up to a length over the grammar's alphabet, parsing as a config value or as an element (oc.decode) yields the value or the rejection that the documented grammar prescribes: quoting, escaping of quotes, backslashes and interpolations, unquoted strings and whitespace, numbers, booleans, null, lists, dicts, nested interpolations and resolver arguments. Strings without interpolation are stored and read back verbatim apart from unescaping.",
 over=["inputs", "programs"], quant="all strings up to a length over several alphabets of grammar-significant characters and tokens",
 why="test_grammar.py has a few hundred examples of an infinite language.",
 files=[B+"grammar/OmegaConfGrammarLexer.g4", B+"grammar/OmegaConfGrammarParser.g4", B+"grammar_visitor.py", B+"grammar_parser.py"],
 mech=[("ANTLR grammar", B+"grammar/*.g4"), ("GrammarVisitor", B+"grammar_visitor.py")],
 technique=EXH+" (a hand-written reference lexer and parser)", level="exploration",
 note="All token strings up to the bound are parsed by the real parser and by an independent reference implementation."),
dict(id="C23", title="Parsing does not depend on what was parsed before",
 statement="The value or error for a string, parsed as config value or as element, is the same after any history of earlier successful or failed parses of either kind in the thread, and the quick check that accepts simple interpolations without the full parser never accepts a string the grammar rejects.",
 over=["histories", "inputs"], quant="all histories of up to 3 parses over an alphabet of valid and broken strings in both modes; all strings up to a length for the quick check",
 why="Tests parse each string once in whatever order pytest runs.",
 files=[B+"grammar_parser.py", B+"_utils.py", B+"base.py"],
 mech=[("per-thread cached lexer/parser", B+"grammar_parser.py"), ("SIMPLE_INTERPOLATION_PATTERN", B+"grammar_parser.py")],
 technique="explicit-state exploration of parse histories on the real code against a fresh parser", level=MC,
 note="Every history up to the bound is run on the shared cached parser and compared with a fresh one."),
dict(id="C24", title="Concurrent readers see what a single reader sees",
 statement="Threads that parse interpolation strings, or read, resolve, convert, query flags of or copy the same config at the same time, under every interleaving, obtain the results a single thread obtains, none fails or hangs, and the config is unchanged afterwards.",
 over=["schedules"], quant="all schedules of 2 threads (thorough: also 3) up to a preemption bound, with scheduling points at every executed line of the library",
 why="test_grammar.py has one free-running multi-thread test of the parser; interleavings are left to chance.",
 files=[B+"grammar_parser.py", B+"base.py", B+"dictconfig.py", B+"listconfig.py", B+"vendor/antlr4"],
 mech=[("thread-local parser cache", B+"grammar_parser.py"), ("flags cache", B+"base.py"), ("__deepcopy__", B+"dictconfig.py, listconfig.py, base.py")],
 technique="stateless model checking of the real code under a controlled scheduler with a preemption bound", level=MC,
 note="Every schedule of the harness with at most the stated number of preemptions (lines of library code as scheduling points; the vendored ANTLR runtime included at a coarser grain)."),
dict(id="C25", title="Resolvers and their caches follow the documented state machine",
 statement="After any history of registering (with and without replace and use_cache), clearing and calling resolvers, exactly the registered functions are called with exactly the written arguments; a cached resolver is called once per config and literal argument list until the cache is cleared, caches of different configs are independent and follow copies and copy_cache, an uncached one is called on every access; has_resolver and clear_resolver report the truth, invalid registrations change nothing, and clear_resolvers restores exactly the built-in ones.",
 over=["histories"], quant="all histories up to a bound over register/replace/clear/call/copy/clear_cache operations",
 why="Tests exercise each call once.",
 files=[B+"omegaconf.py", B+"base.py"],
 mech=[("register_new_resolver, clear_resolver(s), get/set/clear/copy_cache", B+"omegaconf.py")],
 technique=BFS+" (registry and cache state machine)", level=MC,
 note="Every history up to the bound runs on the real registry in lockstep with a reference machine."),
dict(id="C26", title="The built-in resolvers do what they document",
 statement="oc.env, oc.select, oc.create, oc.decode, oc.deprecated, oc.dict.keys and oc.dict.values return the documented value for every state of the environment and the config (set, unset, empty, default given or not, missing, relative keys, interpolated arguments), oc.dict.values stays a live view of its source (whose keys can be written in an interpolation), and wrong targets raise the documented errors.",
 over=["inputs", "configurations"], quant="all combinations of environment states, config states, and argument forms over a bounded alphabet",
 why="Tests cover single examples per resolver.",
 files=[B+"resolvers/oc/__init__.py", B+"resolvers/oc/dict.py"],
 mech=[("env, select, create, decode, deprecated", B+"resolvers/oc/__init__.py"), ("keys, values", B+"resolvers/oc/dict.py")],
 technique=EXH+" (a reference for each resolver)", level="exploration",
 note="The full product of the listed environment, config and argument states."),
dict(id="C27", title="Equality is a consistent comparison of resolved content",
 statement="Over all small configs, == is reflexive and symmetric, and transitive where all interpolations resolve (one that cannot be resolved is compared as text with another interpolation and equals nothing else), != is its negation, equal configs of the same type with the same key order have equal hashes, comparison with plain dicts, lists and dataclasses agrees with comparing configs made from them, two configs without missing values or failing interpolations are equal exactly when their resolved contents are equal, and comparing never raises because of an interpolation or missing value.",
 over=["inputs"], quant="all pairs (triples for transitivity) of small trees over a bounded alphabet, typed and untyped",
 why="Tests list equal and unequal examples.",
 files=[B+"basecontainer.py", B+"dictconfig.py", B+"listconfig.py", B+"nodes.py"],
 mech=[("_dict_conf_eq, _list_eq, _item_eq", B+"dictconfig.py, listconfig.py, basecontainer.py")],
 technique="bounded exhaustive enumeration of pairs of configs on the real code against comparison of resolved plain content", level="exploration",
 note="All pairs of the enumerated trees."),
dict(id="C28", title="Structured configs convert faithfully to and from objects",
 statement="For every dataclass or attrs instance x of supported types (nested, Optional, containers, unions, enums, subclass instances, init=False, ignored and defaulted fields), OmegaConf.to_object(OmegaConf.structured(x)) equals x and has x's class at every level, get_type reports the classes, and to_container gives plain dicts, DictConfigs or instances as the SCMode asks. Creating from the class gives its defaults, and creating never changes the class or the instance.",
 over=["inputs", "configurations"], quant="all assignments of small value sets to the fields of a family of dataclasses and attrs classes x SCModes",
 why="test_to_container.py converts a few instances.",
 files=[B+"_utils.py", B+"dictconfig.py", B+"basecontainer.py", B+"omegaconf.py"],
 mech=[("get_structured_config_data, DictConfig._to_object", B+"_utils.py, dictconfig.py"), ("BaseContainer._to_content", B+"basecontainer.py")],
 technique="bounded exhaustive enumeration of instances on the real code with a round-trip oracle", level="exploration",
 note="The full product of field values for every class of the family."),
dict(id="C29", title="Command lines set exactly what they say",
 statement="from_dotlist, from_cli and merge_with_dotlist apply their key=value arguments left to right: each argument sets the node named by the text before the first '=' to the YAML value of the text after it (None without '='), creating parents as needed, later arguments win, '=' in values is kept, nothing else changes, and into a typed or struct config the same conversion and refusals apply as for an assignment.",
 over=["inputs", "histories"], quant="all lists of up to 3 arguments over an alphabet of keys and values, into empty, untyped, struct and typed configs",
 why="test_basic_ops and test_update use a few argument lists.",
 files=[B+"basecontainer.py", B+"omegaconf.py"],
 mech=[("merge_with_dotlist, from_dotlist, from_cli", B+"basecontainer.py, omegaconf.py")],
 technique=EXH+" (nested assignment)", level="exploration",
 note="All argument lists up to the bound."),
]

#!/usr/bin/env python3
"""The property catalogue.  Run it to rewrite properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
CATALOGUE = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=None, state=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(quant.split())}, "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    CATALOGUE.append((d, technique, " ".join(note.split())))


ASAN = "AddressSanitizer and UndefinedBehaviorSanitizer on every access made by the real library; exactly-sized heap buffers; allocation accounting per case"

# ---------------------------------------------------------------- values
P("V01", "Marshalling round trip restores every value of every type",
  """Dumping a value and loading the stream into any live value of the same type restores the source exactly: every data byte, every
  container's length and content, whatever the destination held before, for every combination of layout flags.
  The stream's content is the documented format (raw bytes in order, 64-bit element count before each container's elements).""",
  ["inputs", "configurations"], "all types over numerics, enums, compounds with padding, arrays (zero-size included), nested vectors and strings; all values; all prior destinations; all layout flags",
  "The tests marshal half a dozen fixed structures once; nested containers over dirty destinations and flag combinations are not sampled.",
  ["typelib/value_ops.cc", "typelib/value_ops.hh", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("dump()/load()", "typelib/value_ops.cc"), ("MemLayout::Visitor", "typelib/memory_layout.cc"), ("Vector/String::dump,load", "lang/csupport/containers.cc")],
  "runtime monitoring: differential oracle over recorded dump/load executions, under ASan and UBSan",
  "A reference marshaller computed from the type description alone judges both stream and reloaded value, read natively as C++ objects. " + ASAN, ["typelib/value_ops.hh"])
P("V02", "Every output sink receives the same stream, and a short sink is reported",
  """The bytes a value marshals to are the same through every sink (byte vector, bounded buffer, C++ stream, stdio file, file descriptor, user stream),
  appended where the sink stands, with the size announced beforehand.  A buffer that is too small or a descriptor that fails is reported to the caller, and never written beyond its end.""",
  ["inputs", "fault_sequences"], "all types and values; every buffer size from nothing to more than enough; descriptors failing at any write",
  "Tests use large buffers and the vector sink; no test supplies short buffers of every length or failing descriptors.",
  ["typelib/value_ops.cc", "typelib/value_ops.hh"], [("OutputStream and the dump overloads", "typelib/value_ops.cc"), ("getDumpSize", "typelib/value_ops.cc")],
  "runtime monitoring: sinks recorded and compared, fault injection on the descriptors, under ASan", "Short buffers are exactly sized so that a write beyond the end is caught by ASan. Errors of stdio files and C++ streams are the caller's to check and not covered.")
P("V03", "Damaged streams are refused without memory errors, and never half understood",
  """Loading a stream over a live value accepts exactly the streams that are a value's marshalled form, with that value as the result; any other stream is refused with an exception.
  Whatever the stream holds, nothing outside stream and value is accessed, memory use stays proportional to the stream, and the value can still be used and destroyed.""",
  ["inputs"], "all byte strings, in particular all truncations, extensions, count replacements and byte flips of valid streams", "One truncated stream is tested; hostile element counts, overflow of count times size and nested truncation are not.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc"], [("load() and InputStream bound checks", "typelib/value_ops.cc"), ("Vector::load size checks", "lang/csupport/containers.cc")],
  "runtime monitoring: structure-aware stream mutation with an independent parser as oracle, under ASan, UBSan and an allocation cap", "The parser decides acceptance and value; a cap on single allocations turns memory proportional to a forged count into a failure.")
P("V04", "Values stay alive and independent through any history of lifecycle calls",
  """Through any sequence of init, zero, copy, load and destroy on values of one type, each value holds exactly what was last put into it, independently of all others.
  Nothing leaks and nothing is freed twice once every value is destroyed; freshly initialised values are usable (empty containers, enums set to a declared constant).""",
  ["histories", "inputs"], "all operation sequences over several values of any type, self-copies and copies onto used values included", "Tests run init, one copy and destroy on two structures; leaks and aliasing after longer histories are invisible to them.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc", "typelib/value_ops_details.hh"], [("init/zero/destroy/copy", "typelib/value_ops.cc"), ("Vector::copy/init/destroy", "lang/csupport/containers.cc")],
  "runtime monitoring: histories against a model value per slot, with allocation accounting, under ASan and UBSan", "Every slot is compared with its model after every operation; live heap blocks must return to their count before the case.")
P("V05", "Comparison of values is exactly equality of their content",
  """Two values of a type compare equal exactly when every data byte, enum, pointer and container content is the same: padding, capacity, addresses and the registry of origin play no part.
  The result is symmetric, and comparing modifies nothing.""",
  ["inputs"], "all types and all pairs of values, in particular pairs that differ in a single leaf anywhere", "Tests compare a few structures; single differences in each leaf of nested containers and padding differences are not sampled.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc"], [("compare()", "typelib/value_ops.cc"), ("Vector/String::compare", "lang/csupport/containers.cc")],
  "runtime monitoring: metamorphic and differential oracle on executed comparisons, under ASan and UBSan", "Values are built natively, so equality is known without the library.")
P("V06", "Memory layouts describe every byte of the type once and as what it is",
  """The layout computed for a type covers its bytes exactly once, in order, each as data, padding, array, or container, for every combination of acceptance and padding flags.
  Pointers and opaques are refused, or represented as asked, wherever they are nested; marshalling with any of these layouts loses no data.""",
  ["inputs", "configurations"], "all types, all 16 flag combinations", "Tests compare a handful of fixed operation lists with default flags.",
  ["typelib/memory_layout.cc", "typelib/memory_layout.hh"], [("MemLayout::Visitor and its merge/simplify steps", "typelib/memory_layout.cc")],
  "runtime monitoring: an interpreter of the produced layout as online checker against the type's byte map", "The check judges what the operations cover, not the operation sequence chosen.")
P("V07", "Containers handled through the library behave as the C++ containers they are",
  """Any interleaving of container operations made through type descriptions (push, erase, conditional erase, get, set, clear, count, copy, compare, visit, marshalling) with native operations of the program
  leaves a valid C++ container with exactly the content that the same operations give on an ordinary container.""",
  ["histories", "inputs"], "all operation sequences on std::vector of trivial, nested and string elements and on std::string", "Tests push and erase a few elements in one vector; long mixed histories with reallocation, nested containers and self-insertion are not covered.",
  ["lang/csupport/containers.cc", "typelib/typemodel.hh"], [("Vector", "lang/csupport/containers.cc"), ("String", "lang/csupport/containers.cc")],
  "runtime monitoring: state-machine testing against native containers after every step, under ASan and UBSan", "Operates on real std::vector/std::string objects of the program.")
P("V08", "Visiting, casting and field access reach exactly the leaves of the value",
  """Visiting a value calls back once per leaf, in declaration order, with the leaf's own address and type, descends into arrays, containers, compounds and pointers, and stops when told to.
  Field access by name yields the named field; a cast to a C++ type succeeds exactly when it is the leaf's own type, and gives its value.""",
  ["inputs", "configurations"], "all types and values, all stop positions, all field names, all numeric C++ types", "Tests visit one structure once without early stop.",
  ["typelib/value.cc", "typelib/value.hh", "typelib/value_cast.hh", "typelib/typevisitor.cc"], [("ValueVisitor", "typelib/value.cc"), ("value_cast / value_get_field", "typelib/value_cast.hh")],
  "runtime monitoring: callback traces against a reference traversal, under ASan", "The trace of callbacks is compared with one computed from the type description.")
P("V09", "CSV output has one column per leaf, named and filled alike",
  """For every value without containers the header line names each leaf by its path, and the value line has as many columns, each the text of the leaf that the header names in that place:
  numbers parse back to the same number, enums are their symbol.""",
  ["inputs"], "all types, values and separators", "One structure is printed in the tests.", ["typelib/csvoutput.cc", "typelib/csvoutput.hh"],
  [("CSVOutput", "typelib/csvoutput.cc")], "runtime monitoring: output parsed back and compared leaf by leaf", "Containers are reported unsupported by the library and not covered.")
P("V10", "Byte-order conversion reverses each leaf and nothing else",
  """Converting the byte order of a value, in place or through a compiled conversion applied out of place, reverses the bytes of every number and enum and leaves everything else where it is; converting twice restores the value.
  Types that hold what cannot be converted are refused.""",
  ["inputs"], "all types (nested arrays, padding anywhere) and values, all scalars", "Tests convert one structure whose layout has no trailing padding and no arrays of compounds.",
  ["typelib/endianness.cc", "typelib/endianness.hh", "typelib/endian_swap.hh"], [("EndianSwapVisitor, CompileEndianSwapVisitor", "typelib/endianness.cc"), ("Endian::swap and friends", "typelib/endian_swap.hh")],
  "runtime monitoring: results compared with the reference swap of each leaf, under ASan", "Judged on the bytes of the output, not on the compiled operations.")

# ---------------------------------------------------------------- types
P("T01", "Type equality and castability are structural, over any type graph",
  """Two types are equal exactly when their structures are: categories, sizes, field names and offsets, enum symbols, dimensions and everything they lead to, whatever their names, registry or the way recursion and sharing are laid out (opaque types being equal by name).
  Castability is the weaker relation that ignores unused trailing bytes of compounds and allows enums to gain symbols.  Both answer for every pair, cyclic graphs included, equality symmetrically, and modify nothing.""",
  ["inputs"], "all pairs of type graphs, recursive and shared ones included, within and across registries", "Tests compare a few hand-built pairs without mutual recursion; equality of cyclic graphs is a fixpoint that no sample of pairs settles.",
  ["typelib/typemodel.cc", "typelib/typemodel.hh"], [("Type::isSame/canCastTo, RecursionStack", "typelib/typemodel.cc")],
  "runtime monitoring: executed comparisons judged by a greatest-fixpoint oracle on the model graphs, under ASan and UBSan", "Second graphs are derived by unsharing, unrolling and single edits, so that near-equal pairs dominate.")
P("T02", "An enumeration keeps each symbol's value through any history",
  """After any sequence of declarations, an enumeration answers lookups by name and by value, listings and comparisons as the map of what was declared does.
  Redeclaring a symbol with another value is refused without effect, lookups of what was never declared are refused, and a copy is independent.""",
  ["histories", "inputs"], "all sequences of declarations, lookups and copies; all names and values", "Tests declare one enumeration in order.", ["typelib/typemodel.cc"], [("Enum", "typelib/typemodel.cc")],
  "runtime monitoring: histories against a reference map, under ASan and UBSan", "The value following the largest integer is left open (it does not exist).")
P("T03", "Metadata holds what was added, per type and field, through merges",
  """Metadata of a type or field holds, per key, exactly the set of values given to it, through any sequence of setting, adding, clearing, copying and merging.
  Merging types or registries adds the other side's entries to those of the same name, fields included, and never changes the other side.""",
  ["histories"], "all sequences of operations on the metadata of types and fields of two registries", "Tests set and read one key.", ["typelib/metadata.cc", "typelib/typemodel.cc", "typelib/registry.cc"],
  [("MetaData", "typelib/metadata.cc"), ("mergeMetaData", "typelib/registry.cc")], "runtime monitoring: histories against a model of sets per key, under ASan and UBSan", "Every type and field of both registries is compared after every operation.")
P("T04", "Type names are recognised, split, related and ordered consistently",
  """Well-formed type names (nested templates, pointers, arrays) are accepted and ill-formed ones refused; splitting a name into namespace and basename loses nothing, and namespace membership and relative names agree with the components.
  The minimal path from a namespace to a type leads back to that type when resolved from inside out.  Names have a strict total order in which the members of a namespace come together.""",
  ["inputs"], "all names, namespaces and pairs of them", "Tests check about forty fixed names.", ["typelib/typename.cc", "typelib/registry.cc"],
  [("isValidTypename, splitTypename, getMinimalPathTo", "typelib/typename.cc"), ("nameSort", "typelib/registry.cc")],
  "runtime monitoring: names generated with their components, results judged against them, under ASan and UBSan", "Names that are neither clearly well nor ill formed (empty template arguments, modifiers inside a path) are left open.")
P("T05", "Compounds and derived types account for their parts exactly",
  """However a compound is built (fields in any order, overlapping or apart, explicit sizes, reordering), its size, fields, offsets, trailing padding and dependencies are those of the fields given.
  Arrays and pointers have the size, dimension, name and target that they are built from.""",
  ["inputs", "histories"], "all sequences of fields of any type at any offset", "Tests build a handful of compounds with fields in order.", ["typelib/typemodel.cc"],
  [("Compound::addField, setSize, normalizeFieldOrder, getTrailingPadding", "typelib/typemodel.cc"), ("Array, Pointer", "typelib/typemodel.cc")],
  "runtime monitoring: every query compared with the list of fields after every step, under ASan and UBSan", "Field names are unique.")


# ---------------------------------------------------------------- registries
P("R02", "Merging registries gives the union of both, or refuses without harm",
  """Merging a registry into another adds exactly the missing types and aliases, defined as they were, keeps every type already there, and never changes the registry merged from; it is refused exactly when a shared name has another definition.
  The result stands alone: its types lead only to types of its own, even after a refusal, and after the other registry is destroyed.""",
  ["inputs"], "all pairs of registries, with recursive types, aliases, derived and conflicting types", "Tests merge a few registries of two or three types.",
  ["typelib/registry.cc", "typelib/typemodel.cc"], [("Registry::merge", "typelib/registry.cc"), ("Type::merge, do_merge, try_merge", "typelib/typemodel.cc")],
  "runtime monitoring: contents before and after compared with the union computed from both, under ASan (use after free, leaks) and UBSan",
  "Persistence of types given explicitly is left open; the merged registry is used after the source is destroyed.")

P("R03", "Minimal registries are exactly the closure of what was asked for",
  """The minimal registry of a type, or of what another registry does not have, holds exactly the types that this takes, defined and documented as they were, and the aliases asked for.
  Extraction changes neither registry, refuses unknown names, and its result stands alone after the registry it comes from is destroyed.""",
  ["inputs"], "all registries, recursive and aliased types included, and all choices of what to extract", "Tests extract from two small registries.",
  ["typelib/registry.cc", "typelib/typemodel.cc"], [("Registry::minimal", "typelib/registry.cc")],
  "runtime monitoring: results compared with the model's closure, before and after the original is destroyed, under ASan (use after free, leaks) and UBSan", "Aliases that follow from others are not required to be listed.")
P("R04", "Resizing propagates to all the types that hold the resized ones",
  """Resizing types moves the fields that follow, grows the compounds and arrays that hold them, by the growth of what they hold, and changes nothing else; vectors follow the new definition of their elements.
  It ends for recursive types, and is refused without effect when a name is unknown.""",
  ["inputs", "histories"], "all registries and sets of sizes, repeated", "The tests do not resize (one Ruby test resizes one field).", ["typelib/registry.cc", "typelib/typemodel.cc"],
  [("Registry::resize", "typelib/registry.cc"), ("Type::resize, Compound/Array::do_resize", "typelib/typemodel.cc")],
  "runtime monitoring: sizes and offsets compared with those the model propagates, under ASan and UBSan", "For compounds whose fields are in order, and where a compound is not given a size together with its own parts.")
P("R05", "Removing a type removes exactly what depends on it",
  """Removing a type takes with it exactly the types that lead to it, directly or not, and all their names, and hands them over; everything else stays as it was and refers to nothing that was removed.
  What was removed can be defined again.""",
  ["inputs", "histories"], "all registries, recursive types and aliases included, and sequences of removals", "Tests remove from a chain of three types.", ["typelib/registry.cc"],
  [("Registry::remove, reverseDepends", "typelib/registry.cc")], "runtime monitoring: removed and remaining types compared with the model's reverse closure, then destroyed and used under ASan", "")
P("R01", "Names lead to the types they were given to, through any history",
  """After any sequence of additions, aliases, removals and namespace changes, each absolute name leads to the type it was given to and relative names to the type in the innermost namespace that has one; listings, also by prefix, give each name once, in order, with its flags and source.
  Invalid, repeated and unknown names are refused without effect.""",
  ["histories"], "all sequences of registry operations over any names and namespaces", "Tests look up a few names after fixed sequences.", ["typelib/registry.cc", "typelib/registryiterator.hh", "typelib/typename.cc"],
  [("Registry::add, alias, setDefaultNamespace, importNamespace, removeAlias", "typelib/registry.cc")],
  "runtime monitoring: every name looked up after every operation of random histories, compared with a reference map, under ASan and UBSan",
  "Which type a name leads to is left open where an imported namespace competes with types added or removed later.")
P("R06", "Pointers and arrays are derived from any name, and only from names",
  """A name made of a known type and pointer and array modifiers designates exactly the type so derived, the same one each time, and deriving it defines nothing but that and its intermediate steps.
  Asking whether a name can be derived answers truthfully for any text, without effect, and what is ill-formed is not derived.
  Deriving pointers and outer or inner array dimensions step by step gives the same types.""",
  ["inputs"], "all texts, absolute, relative or aliased bases, any modifiers", "Tests build a handful of names.", ["typelib/registry.cc", "typelib/typebuilder.cc"],
  [("TypeBuilder::parseTypename, build", "typelib/typebuilder.cc"), ("Registry::has, build", "typelib/registry.cc")],
  "runtime monitoring: generated and mutated names judged by an independent parser and model, and random sequences of derivation steps, under ASan and UBSan", "Spaces between modifiers are left open.")
P("R07", "Registries are the same exactly when their contents are",
  """Two registries are said to be the same exactly when they hold the same names, each for a type of the same name and structure; the answer does not depend on the direction, or on the order in which types were defined, and changes nothing.""",
  ["inputs"], "all pairs of registries, with differences anywhere", "Tests compare registries with one difference, in the first type.", ["typelib/registry.cc"], [("Registry::isSame", "typelib/registry.cc")],
  "runtime monitoring: pairs with at most one difference, judged by the model, under ASan and UBSan", "")
P("I01", "What is written to a tlb document is read back from it",
  """Every persistent definition of a registry without recursive types, written to a tlb document and read, is restored: names, structure, sizes, offsets, symbols, aliases, sources and metadata, whatever text they are made of.
  The order of the definitions in the document does not matter; reading what is known already changes nothing, and reading where part is known completes it.""",
  ["inputs", "configurations"], "all registries without recursive types; destinations that are empty, hold part of the same, or the same", "The tests import fixed files and compare a few types; special text and documents over partly known types are not tried.",
  ["lang/tlb/export.cc", "lang/tlb/import.cc", "typelib/exporter.cc", "typelib/importer.cc", "typelib/pluginmanager.cc"], [("TlbExport::save", "lang/tlb/export.cc"), ("Factory::build, load_*", "lang/tlb/import.cc"), ("Exporter::save", "typelib/exporter.cc")],
  "runtime monitoring: every persistent entry read from registries before writing and after reading compared, under ASan and UBSan",
  "Fields are compared in the order of their offsets, which reading establishes. Not claimed: sizes of enums, sources of aliases, arrays and pointers made persistent explicitly, control characters.")
P("I02", "Reading any document is safe and leaves what is known untouched",
  """Whatever a document says, reading it either succeeds or reports an error; types that were known keep their identity, definition and flags, the registry stays consistent and usable for later documents, and nothing is leaked.""",
  ["inputs"], "all documents, well-formed or not, over any registry", "The tests read a handful of correct files and a few broken ones into empty registries.",
  ["lang/tlb/import.cc", "lang/tlb/xmltools.hh", "typelib/importer.cc"], [("Factory, load_*, parse", "lang/tlb/import.cc")],
  "runtime monitoring: structurally and textually damaged documents read under ASan and UBSan with allocation accounting, registries compared before and after", "Sizes and offsets a document declares are taken as they are. Dependency chains deep enough to exhaust the stack are not tried.")
P("I03", "Exporters get every persistent definition once, after what it needs",
  """An exporter is given every persistent entry of a registry exactly once, aliases after their type and types after all they are made of, between one beginning and one end; registries with recursive types are refused.
  An export to a file leaves the complete document there or reports an error, and exporting never changes the registry.""",
  ["inputs", "fault_sequences"], "all registries and namespaces; files that cannot be opened or written to the end", "The tests look at the result of a few exports; the order is not checked, and no write fails.",
  ["typelib/exporter.cc", "typelib/exporter.hh"], [("Exporter::save", "typelib/exporter.cc")],
  "runtime monitoring: a recording exporter's event log checked online against the model of dependencies; file size limits injected; ASan and UBSan", "Non-persistent entries are not exported, and what needs them does not wait for them.")
P("I04", "IDL documents declare what the types call for, or are refused",
  """An exported IDL document is well-formed, declares each persistent compound, enum, sequence and alias once, with the fields, dimensions and symbols of the type and in the module of its namespace (prefix and suffix included), and uses nothing before it is declared.
  What IDL cannot express is refused; selection, blob threshold and opaques-as-any apply exactly as documented.""",
  ["inputs", "configurations"], "all registries without recursive types, all options", "The tests compare four fixed documents (from Ruby, with an importer that is not available).",
  ["lang/idl/export.cc", "lang/idl/export.hh"], [("IDLExport::save, adaptNamespace, generateTypedefs", "lang/idl/export.cc"), ("IDLTypeIdentifierVisitor, IDLExportVisitor", "lang/idl/export.cc")],
  "runtime monitoring: documents parsed by an independent parser and compared, declaration by declaration, with the model, under ASan and UBSan", "Not claimed: names that collide with keywords or with each other once made identifiers, vectors of arrays, arrays of dimension zero, blob thresholds smaller than strings.")

# ---------------------------------------------------------------- programs
P("P01", "Singletons and plugins live exactly as long as they are used",
  """A singleton, the plugin manager included, exists exactly while it is used, is the same for all its users and is created again when used again, whatever the order of uses and even if singletons use others while they are created and destroyed, or fail to be created.
  The plugin manager offers every plugin found in the directories of the search path, unusable entries being skipped, and those added later, the first of a name winning; each is destroyed once, as are importers and exporters after every use, successful or not, and unknown names are refused.""",
  ["histories", "configurations"], "all histories of uses, all search paths, all sequences of registrations, imports and exports, failing ones included", "The tests use one plugin manager, with the directory of the build, and no plugin that fails.",
  ["typelib/pluginmanager.cc", "typelib/plugins.hh", "typelib/utilmm/singleton/server.cc", "typelib/utilmm/singleton/dummy.cc", "typelib/utilmm/singleton/use.hh", "typelib/importer.cc"],
  [("PluginManager", "typelib/pluginmanager.cc"), ("server::attach, detach", "typelib/utilmm/singleton/server.cc"), ("TYPELIB_REGISTER_IO", "typelib/plugins.hh")],
  "runtime monitoring: constructions and destructions of singletons, plugins, importers and exporters counted against a model over random histories and search paths of stub plugins, under ASan and UBSan with allocation accounting",
  "Within one directory the order in which plugins are loaded is not claimed. A plugin refused by the manager stays the caller's.")
P("P02", "Threads that share only what they read do not disturb each other",
  """Threads may at the same time use the plugin manager and other singletons, import and export, work on registries and values of their own, and read shared types, registries and values.
  There is no data race, and each operation gives the result that it gives alone.""",
  ["schedules", "inputs"], "all interleavings of any such operations", "The tests have a single thread.",
  ["typelib/utilmm/singleton/server.cc", "typelib/utilmm/singleton/dummy.cc", "typelib/typemodel.cc", "typelib/registry.cc", "typelib/value_ops.cc", "typelib/memory_layout.cc", "typelib/pluginmanager.cc"],
  [("dummy::attach, detach, instance", "typelib/utilmm/singleton/dummy.cc"), ("const members of Type and Registry", "typelib/typemodel.cc"), ("value operations", "typelib/value_ops.cc")],
  "runtime monitoring: ThreadSanitizer (happens-before) over random tasks in 2 to 6 threads with injected pauses; results compared with those of the same tasks alone",
  "Operations that need registered container kinds are only run in parallel while the plugin manager is held: its creation registers them again.")
P("P03", "Option sets give back what was put into them",
  """After any sequence of insertions, replacements, erasures and additions of sections, an option set gives for every name exactly the values put there, in order and converted to the type asked for, the default where there is none, and its sections in order.
  Text that is not of the type asked for is refused; sections are destroyed with their set.""",
  ["histories", "inputs"], "all sequences of operations, names and values", "The tests pass options to one importer; nothing is removed, repeated or refused.",
  ["typelib/utilmm/configset.cc", "typelib/utilmm/configset.hh"], [("config_set", "typelib/utilmm/configset.cc")],
  "runtime monitoring: all names read in all types after every step and compared with a map of lists, under ASan and UBSan with allocation accounting", "Negative numbers read as unsigned are left open.")
# ---------------------------------------------------------------- Ruby bindings
RB = "bindings/ruby/ext/"
RL = "bindings/ruby/lib/typelib/"
P("B01", "Ruby values of every type are converted exactly, or refused",
  """Writing a Ruby object to a number, boolean, enum, string or character array, by any of the ways the bindings offer, stores exactly that value over the whole domain of the type and nothing outside, and reading it back by any way returns it.
  Objects that are no value of the type, enum values it lacks, too long strings and indexes out of bounds raise an exception and change nothing.""",
  ["inputs", "histories"], "all values of all such types, in structures, arrays, vectors and alone", "The tests write a few small values; none is at the limits of its type.",
  [RB + "value.cc", RB + "convert.cc", RB + "strings.cc", RB + "specialized_types.cc", RL + "compound_type.rb", RL + "standard_convertions.rb"],
  [("RubyGetter, RubySetter", RB + "convert.cc"), ("CompoundType#set, get", RL + "compound_type.rb")],
  "runtime monitoring: values written and read through all ways of access compared with a model and, byte by byte, with the memory, under ASan and UBSan in the Ruby process",
  "Integers out of the range of the type, and floats given for integers, are not claimed. Raw access and memory see a converted field's change once it is applied.")
P("B02", "Ruby structures, arrays and containers behave as the values they show",
  """After any history of assignments, element and container operations at any depth, copies, casts and reloads done from Ruby, reading a value in any way (accessors, enumeration, plain Ruby objects, JSON, CSV, marshalled form, comparison, copy or memory) gives the content that history defines.
  Copies share nothing with what they were made from: changing one never changes the other.""",
  ["inputs", "histories"], "all nestings of structures, arrays, vectors, strings, booleans, enums and numbers, all histories of operations", "The tests do one operation on one value; what was read before, converted and cached is what makes later reads wrong.",
  [RL + "compound_type.rb", RL + "array_type.rb", RL + "container_type.rb", RL + "type.rb", RB + "specialized_types.cc", RB + "value.cc", RB + "memory.cc"],
  [("CompoundType#get, set, apply_changes_from_converted_types", RL + "compound_type.rb"), ("ContainerType#concat, erase, delete_if, handle_container_invalidation", RL + "container_type.rb"), ("Type#handle_invalidation, from_buffer, zero!", RL + "type.rb"), ("memory_wrap", RB + "memory.cc")],
  "runtime monitoring: random histories on random nested types compared after every step with a model through all ways of reading, copies included, under ASan and UBSan in the Ruby process",
  "Links of the Ruby arrays that fields are converted to are claimed for the accessors of the fields only. Hashes put in such arrays become structures when the change is applied. Raw access and memory see converted changes once they are applied.")
P("B03", "Whatever Ruby still refers to stays usable, in any order of garbage collection",
  """Values, their parts, pointers, enumerators, types, metadata, registries and types removed from them that were obtained from Ruby stay usable with their content as long as they are referenced, whatever they were obtained from is forgotten, removed or collected, in any order.
  Nothing that was released is accessed, neither meanwhile nor when the interpreter exits, and every value is released once.""",
  ["histories", "schedules"], "all orders in which objects are obtained from each other, forgotten, collected and used", "The tests keep everything they use alive, and rarely collect garbage; what is freed too early is seen only when it is used after the collection.",
  [RB + "memory.cc", RB + "value.cc", RB + "registry.cc", RB + "metadata.cc", RB + "specialized_types.cc", RL + "type.rb", RL + "registry.rb"],
  [("memory_wrap, memory_allocate, memory_delete", RB + "memory.cc"), ("RbRegistry, type_wrap", RB + "registry.cc"), ("typelib_wrap_metadata", RB + "metadata.cc")],
  "runtime monitoring: random graphs of objects with random forgetting and stressed garbage collection, contents compared with a model, under ASan and UBSan in the Ruby process, exit included",
  "Collection is forced at random points and stressed in a share of the cases; Ruby's own conservative stack scan can keep an object alive longer than the model.")
P("B04", "Objects held from Ruby designate their place, or raise once it is gone",
  """A field or element obtained from Ruby, at any depth, designates its place through every later modification of the values around it: writing it changes that place and reading it gives what is there, and changes made in place do not invalidate it.
  Once its place is gone, because its container was resized, erased, replaced or reloaded, using it raises an exception and neither reads nor writes released memory.""",
  ["histories"], "all histories of obtaining parts, modifying the values around them in all ways, and using the parts", "The tests hold one element over one operation; each way of modification forgets to invalidate in its own way.",
  [RL + "type.rb", RL + "container_type.rb", RL + "compound_type.rb", RL + "array_type.rb", RB + "specialized_types.cc", RB + "value.cc"],
  [("handle_invalidation, invalidate_changes_from_converted_types", RL + "type.rb"), ("handle_container_invalidation", RL + "container_type.rb"), ("value_invalidate", RB + "value.cc")],
  "runtime monitoring: random histories with many held parts, each judged after every step by address and content against a model of the places, under ASan and UBSan in the Ruby process",
  "Unconverted objects; which changes reallocate is read from the addresses. Wrappers that a deletion yields to its block are not tracked.")
P("B05", "Registries edited from Ruby are exactly what the history of edits defines",
  """Whatever history of definitions, aliases, removals, merges, extractions, resizings and metadata changes is done from Ruby, the registries and types that Ruby shows (names, listings, kinds, sizes, fields, elements, dependencies, metadata) are exactly what that history defines.
  What is invalid is refused with an exception and changes nothing.""",
  ["histories"], "all histories of edits of registries from Ruby", "The tests edit a registry once or twice per test; what an edit leaves behind in the wrappers, caches and other registries is only seen by later ones.",
  [RB + "registry.cc", RB + "metadata.cc", RB + "specialized_types.cc", RL + "registry.rb", RL + "type.rb", RL + "compound_type.rb", RL + "enum_type.rb"],
  [("registry_create_*, registry_merge, registry_minimal, registry_remove", RB + "registry.cc"), ("type singleton methods", RB + "specialized_types.cc"), ("create_* blocks", RL + "registry.rb")],
  "runtime monitoring: random histories of edits on several registries, all of what Ruby shows compared with a model after every edit, under ASan and UBSan in the Ruby process",
  "Derived names outliving their alias, and fields of equal names, are left open.")
P("B06", "No call on Ruby values, types and registries can corrupt memory or other values",
  """Whatever operation is called on a value, type, registry or metadata from Ruby, with arguments of whatever kind and number, on valid, frozen and invalidated values, it returns or raises an exception.
  It never ends the interpreter, nor accesses memory outside the values it is called with, nor changes a value that is not involved.""",
  ["inputs", "histories"], "all operations with all kinds of arguments on values in all states", "The tests call operations with the arguments they are made for; wrong ones reach the casts and pointers of the extension unchecked.",
  [RB + "value.cc", RB + "specialized_types.cc", RB + "strings.cc", RB + "convert.cc", RB + "registry.cc", RB + "metadata.cc", RB + "typelib.hh", RL + "type.rb", RL + "container_type.rb", RL + "array_type.rb", "bindings/ruby/lib/typelib.rb"],
  [("rb2cxx::object", RB + "typelib.hh"), ("methods of values and types", RB + "specialized_types.cc"), ("typelib_do_copy, typelib_compare, value_memory_eql_p", RB + "value.cc")],
  "runtime monitoring: random calls of all public operations with fitting and unfitting arguments, contents of all other values compared around each, under ASan and UBSan in the Ruby process",
  "Operations that take raw addresses, internals (do_*), following null or garbage pointers, elements of no size and structures put into themselves are excluded.")
P("B07", "Exporting a registry to Ruby gives each type under its name",
  """After a registry is exported to a Ruby module, each type and alias is reached from the module by the components of its name, as methods with template arguments or as constants with the usual case conversions: as itself, as the Ruby class it converts to, or as what the given filter makes of it, types inside it included.
  Names that lead nowhere, and types that the filter refuses, raise an exception; types defined later are found, whatever was accessed before.""",
  ["histories", "inputs"], "all registries, filters and orders of access", "The tests access one type through one module each, never two in a row: what an access leaves behind in caches, modules and types changes the next ones.",
  [RL + "registry_export.rb", RL + "registry.rb"], [("resolve_call_from_exported_registry, find_type, find_namespace", RL + "registry_export.rb"), ("export_to_ruby", RL + "registry.rb")],
  "runtime monitoring: random paths followed through exported modules over growing registries, each step compared with a model of the names, under ASan and UBSan in the Ruby process",
  "Removing types, exporting one registry twice with different filters, and names that Ruby itself answers are not covered. Aliases need not be found by similar names.")
P("B08", "Declared conversions and methods apply to exactly the types they are for",
  """Conversions between values and Ruby objects, and methods added to values and types, apply to all types that match their declaration (by name, by array element, by kind of container, by regular expression, with conditions, or on the type itself) in any registry, and to no other.
  Whatever way a value is reached, it is given as the declared object; objects of declared classes can be given wherever such a value can be set, and changes made to an object obtained from a field end up in the value when it is copied, compared, marshalled or converted.""",
  ["histories", "inputs"], "all declarations, nested types and accesses", "The tests declare one conversion for one field at a time: nesting in arrays and containers, default conversions and the other ways of access are the combinations where declarations get lost.",
  [RL + "specializations.rb", RL + "type.rb", RL + "compound_type.rb", RL + "container_type.rb", RL + "array_type.rb"], [("RubyMappingCustomization", RL + "specializations.rb"), ("subclass_initialize, convert_to_ruby", RL + "type.rb"), ("extend_for_custom_convertions", RL + "compound_type.rb")],
  "runtime monitoring: random declarations over random nested types, conversion callbacks that check what they are called for, and every access compared with a model, under ASan and UBSan in the Ruby process",
  "Declarations that match a type twice, and changes made to objects that do not come from a field's accessor, are not covered.")
P("B09", "Descriptions, plain forms and accessors give all of what is in a value",
  """The description of a type lists all there is in it, exactly as deep and with as much layout as asked for; the plain and JSON forms of a value hold each of its parts exactly, with special numbers and packed arrays as asked for; forms marshalled with any options are read back as the same value.
  An accessor for the parts of a type that satisfy a condition finds exactly these parts in any value, false and empty ones included, and a path leads to the same parts each time it is resolved.""",
  ["inputs"], "all types, values and combinations of options", "The tests check each option alone on hand-made types; a part that is dropped, misplaced or rounded needs nested types and the values at their bounds.",
  [RL + "type.rb", RL + "compound_type.rb", RL + "array_type.rb", RL + "accessor.rb", RL + "path.rb"], [("to_h, to_simple_value, to_json_value, to_byte_array", RL + "type.rb"), ("find_in_type", RL + "accessor.rb"), ("resolve", RL + "path.rb")],
  "runtime monitoring: random nested types and values, every form and option compared with a model of the type and of the value or decoded back, under ASan and UBSan in the Ruby process",
  "Accessors of types that contain themselves are not covered.")
P("B10", "Importing a C++ header gives its types exactly, or leaves them out",
  """Importing headers gives each type declared in them that can be represented under its full name, with the size, offsets, inherited fields, values and element types that the compiler gave it, its aliases, its documentation and where it was declared; what refers to a type that cannot be represented is left out as a whole, never approximated, without affecting the rest.
  Types declared as opaque stay so; the result depends neither on the order of declarations nor on how many imports run at once; names are never confused with those of other namespaces or templates.
  A failure of the external tool is reported, changes nothing, and returns the job tokens.""",
  ["inputs", "schedules"], "all headers in the form castxml has for them, options, sets of opaques and levels of parallelism", "The tests import a few dozen fixed headers if castxml is there; names, orders of declarations and what cannot be represented combine without end, and a single odd declaration can take the whole file with it.",
  [RL + "gccxml.rb", RL + "cxx.rb", RL + "registry.rb"], [("resolve_type_definition, normalize_type_name, resolve_opaques, parse_cxx_documentation_before, load", RL + "gccxml.rb"), ("parse_template", RL + "cxx.rb"), ("import", RL + "registry.rb")],
  "runtime monitoring: random headers given in castxml's form by a stand-in for castxml and gccxml that records its calls; types, aliases, layouts and metadata of the registry compared with the declarations, in random order of nodes, with jobs counted and failures injected, under ASan and UBSan in the Ruby process",
  "castxml itself is not there: its output format is modelled, what it makes of a header is not covered.")
P("B11", "The names of fields never get in the way of what values do",
  """Whatever names the fields of a structure have - names of methods of Ruby objects, of the library, of conversions, or of each other's accessors included - each field can be read and written by its name, and everything else that can be done with a value (copying, comparing, converting, marshalling, printing, navigating, changing it through any path) behaves exactly as for the same structure whose fields have neutral names.
  A field has an accessor of its own name unless that would replace a public operation that values need.""",
  ["inputs", "histories"], "all names of fields, in pairs of structures of the same layout, and histories of operations on their values", "The tests use a handful of names; each method that values rely on internally is a name that a header may well give to a field.",
  [RL + "compound_type.rb", RL + "type.rb", "bindings/ruby/lib/typelib.rb"], [("specialize, define_method_if_possible, filter_methods_that_should_not_be_defined", "bindings/ruby/lib/typelib.rb"), ("subclass_initialize, set, set_field, to_simple_value, convertion_from_ruby", RL + "compound_type.rb"), ("raw accessors, apply_changes_from_converted_types", RL + "type.rb")],
  "runtime monitoring: the same random types are defined twice, with neutral and with clashing field names, conversions included; one random history is applied to both, and results, exceptions, bytes and accessors compared after each step, under ASan and UBSan in the Ruby process",
  "Names that Ruby itself calls while creating objects (initialize, method_missing, to_str, to_ary) are left out; a field named like a method of every Ruby object may either replace it or not.")
P("B12", "Imports and exports from Ruby do what their options and file kinds say",
  """Importing a file adds exactly its types to the registry, whether its kind is given or follows from its extension, whether its path is absolute or relative, and whatever handler, plugin or external importer does it; handlers and external importers get exactly the file, kind, options, include directories, definitions and opaques that were given, and their results and failures are passed on.
  What cannot be read, is of an unknown kind or contradicts known types is refused with an exception and harms nothing that is there.
  Exports say the same each time, honour each option in every form it can be given in, ignore options they do not know, and read back as the same registry; plugins are loaded exactly once, from everywhere they are looked for.""",
  ["inputs", "histories", "configurations"], "all histories of imports and exports, kinds of files, handlers, forms of options, plugin directories", "The tests import a few sound files with few options; handlers, the clang importer, plugin paths, IDL options from Ruby and failing imports are not tested at all.",
  [RL + "registry.rb", RL + "clang.rb", RL + "cxx.rb", "bindings/ruby/lib/typelib.rb", "bindings/ruby/ext/registry.cc"], [("import, handler_for, guess_type, format_options, export, dup, from_xml", RL + "registry.rb"), ("CLangLoader.load", RL + "clang.rb"), ("CXX.load, loader", RL + "cxx.rb"), ("load_typelib_plugins", "bindings/ruby/lib/typelib.rb"), ("setup_configset_from_option_array, do_import, do_export", "bindings/ruby/ext/registry.cc")],
  "runtime monitoring: random histories of imports (sound, damaged, contradicting, by handlers written in Ruby, by a stand-in for the clang importer that records its calls), exports, copies and plugin directories; registries, documents, IDL declarations, calls and loaded files compared with a model after each step, under ASan and UBSan in the Ruby process",
  "The clang importer itself cannot be built here: only how it is called and what is done with its results is covered. A refused import may have added types that do not contradict.")
P("T06", "Visiting types reaches every part, and displays show what is there",
  """A visit of a type meets its parts, fields included, each in order and until the visitor asks to stop, and stepping into pointers and containers is the visitor's choice.
  The text displayed for a type states its kind, names, sizes, offsets, symbols and dimensions as they are, and listings of a registry show exactly its persistent names that come from the chosen source, as types or as aliases of a type.""",
  ["inputs"], "all registries of types, all points at which to stop, all modes and filters of listings", "Tests visit one type and display none.",
  ["typelib/typevisitor.cc", "typelib/typedisplay.cc", "typelib/registry.cc"],
  [("TypeVisitor::dispatch, visit_", "typelib/typevisitor.cc"), ("TypeDisplayVisitor, type_display, operator <<", "typelib/typedisplay.cc"), ("Registry::dump", "typelib/registry.cc")],
  "runtime monitoring: recorded traces of callbacks compared with a traversal of the model, displayed texts scanned for every fact of the model and for numbers and names that do not belong, under ASan and UBSan",
  "Layout of the text (indentation, punctuation) is open.")

P("T07", "Standard C++ names mean what they mean to the compiler",
  """In a registry given the standard C++ types, every usual spelling of a builtin type (any order of its specifiers that is known, and the fixed width names) has the size, signedness and category that the compiler gives it, and strings and derived types build on it.
  This holds whichever types the registry had before, which keep their meaning, however often the types are added, and when they come by merging.""",
  ["inputs", "histories"], "all spellings of all builtin types, all subsets known before", "Tests look up one name or two in a fresh registry.",
  ["lang/csupport/standard_types.cc", "typelib/registry.cc"], [("CXX::addStandardTypes", "lang/csupport/standard_types.cc"), ("MissingTypes", "lang/csupport/standard_types.cc")],
  "runtime monitoring: size, category and identity of every name compared with the compiler's own types, over generated prior contents of the registry, under ASan (leaks) and UBSan",
  "char and wchar_t have the signedness of the platform; spellings of rare types need not be known, but must not be wrong.")
P("B13", "Memory as Ruby sees it is the memory the types describe",
  """The memory layout that Ruby gets for a type accounts for every byte of it (data, padding, pointers, opaques, containers and their elements) under every combination of options, refuses exactly the types its options exclude, and initializes enums with one of their values; a type is said to be plain memory exactly when it is.
  Values viewed at an address, in a memory zone or in a string show and change exactly those bytes, all views agree, and what is refused (too short, invalid) changes nothing.
  New, zeroed and sized values hold what their constructor says.""",
  ["inputs"], "all types, layout options, views, contents, constructors", "Tests look at three layouts; the options, the views on foreign memory and the sized constructors are hardly used.",
  ["bindings/ruby/ext/value.cc", "bindings/ruby/ext/memory.cc", RL + "type.rb", RL + "container_type.rb", "typelib/memory_layout.cc"],
  [("type_memory_layout, value_zero, value_memory_eql_p", "bindings/ruby/ext/value.cc"), ("memory_wrap, memory_allocate", "bindings/ruby/ext/memory.cc"), ("from_address, from_ffi, from_memory_zone, wrap, memory_layout, compatible_with_memcpy?", RL + "type.rb"), ("of_size, natural_size", RL + "container_type.rb"), ("MemLayout::Visitor", "typelib/memory_layout.cc")],
  "runtime monitoring: layouts interpreted byte by byte against the description of the type, raw memory read around each view and constructor, under ASan and UBSan in the Ruby process",
  "Padding at the end of the last element of an array may stay in layouts; what parts of containers obtained through one view do when another view resizes them is left open.")
P("B14", "What is frozen keeps its content",
  """After a value is frozen, no call on it or on any part reached from it, before or after, changes its memory, whatever was pending when it was frozen counts as part of its content, and every attempt to change it raises TypeError.
  It can still be read, compared, marshalled and copied in every way, copies of it are independent and not frozen, and freezing one part leaves the rest of the value changeable.""",
  ["inputs", "histories"], "all values, ways to reach parts, ways to change them, orders of reaching, changing, freezing", "Tests freeze two structures and try one field.",
  [RL + "type.rb", RL + "compound_type.rb", RL + "array_type.rb", RL + "container_type.rb", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/ext/strings.cc"],
  [("freeze, freeze_children, frozen?", RL + "type.rb"), ("Freezer, custom_convertion_module", RL + "compound_type.rb"), ("freeze_children, insert, erase, clear", RL + "container_type.rb"), ("value_wrap, value_do_from_buffer, typelib_do_copy", "bindings/ruby/ext/value.cc"), ("compound_field_set, array_set, container_clear, vector_raw_memcpy", "bindings/ruby/ext/specialized_types.cc")],
  "runtime monitoring: histories of reads, changes attempted in every way the interface has, copies and changes to objects obtained before; the raw memory and all ways to read it compared with what was frozen after every step, under ASan and UBSan in the Ruby process",
  "Raw memory, pointers to it and casts obtained before freezing can still change it, and so can writing to the part of a value that is itself not frozen.")
P("B15", "Values compare and cast from Ruby as their content and types say",
  """Two values are equal, whichever side is asked and whatever their padding, registry or names of types, exactly when all their leaves and sizes of containers are the same, changes that are still pending included; a value equals a Ruby object exactly when what it converts to does.
  Types cast to each other exactly when their structure allows it, a cast shows and changes the same memory, and comparing, casting or copying between other types raises ArgumentError and changes nothing.""",
  ["inputs"], "all types, contents, single differences of content or of type, pending changes", "Tests compare a handful of structures; differences inside containers, single bits and differing types are not tried.",
  [RL + "type.rb", "bindings/ruby/lib/typelib.rb", "bindings/ruby/ext/value.cc", "typelib/typemodel.cc", "typelib/value_ops.cc"],
  [("==, cast", RL + "type.rb"), ("compare, copy, to_ruby", "bindings/ruby/lib/typelib.rb"), ("typelib_compare, typelib_do_copy, value_do_cast, type_can_cast_to", "bindings/ruby/ext/value.cc"), ("do_compare", "typelib/typemodel.cc"), ("compare", "typelib/value_ops.cc")],
  "runtime monitoring: every value compared in all ways with copies, rebuilt values, values that differ in one leaf and values of types that differ in one node, answers judged by a model of content and types, under ASan and UBSan in the Ruby process",
  "Floats are compared by their bytes. Structures and unconverted containers never equal Ruby objects. What held parts do after containers were changed through a cast is left open.")

def write():
    from props import PROPS
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _t, _n in CATALOGUE:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
        for d, _r in NOT_APPLICABLE:
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "checks": [{"property": d["id"], "quick_cmd": "python3 check.py " + d["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + d["id"],
                     "technique": t, "level": PROPS[d["id"]].get("level", "exploration"), "level_note": n} for d, t, n in CATALOGUE if d["id"] in PROPS],
         "not_applicable": [{"property": d["id"], "reason": r} for d, r in NOT_APPLICABLE]}
    missing = [d["id"] for d, _t, _n in CATALOGUE if d["id"] not in PROPS]
    for i in missing:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()

"""The properties, in one place. gen.py writes properties.jsonl and MANIFEST.json from this list and the registry."""
def P(id, title, statement, over, qtext, why, files, mech, observe, explain=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, explain=explain, na=na)

SAMPLED = 'The unit tests build a few dozen hand written types and values; '
H = 'include/xtypes/'
PROPS = [
P('P01', 'Every part of a value is constructed, copied, moved and destroyed exactly once',
  'Constructing, copying, moving, assigning and destroying a dynamic value constructs, copies, moves and destroys every member, element, key and entry it is made of exactly once, whatever the type nests. A value holding strings, sequences, maps or unions therefore never leaks, never releases something twice and never uses a part that was not constructed.',
  ['inputs', 'histories'], 'for every type that can be described (every nesting of structures, unions, arrays, sequences, maps, pairs, strings, aliases), every size, and every order of the operations',
  SAMPLED + 'the guarantee quantifies over all nestings and all sizes, and a missed or repeated part is silent without a memory checker.',
  [H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'SequenceInstance.hpp', H + 'MapInstance.hpp', H + 'PairType.hpp', H + 'StringType.hpp', H + 'DynamicDataImpl.hpp'],
  [('the six lifecycle operations each type implements for its instances', 'Instanceable overrides in StructType, UnionType, ArrayType, SequenceType, MapType, PairType, StringType, PrimitiveType, AliasType'),
   ('block copies reserved for elements without resources', 'block_size / is_constructed_type branches')],
  ['destructor and copy counts of the elements', 'content of copies']),
P('P02', 'Parts live at disjoint places inside the value and are reached where they were stored',
  'The memory a type asks for covers all its parts, no two parts of a value overlap (alternatives of a union apart), and reaching a part by index, name or iteration yields exactly the place where construction, copy and assignment put it.',
  ['inputs'], 'for every type, every index within range and every member name',
  SAMPLED + 'an offset that is wrong only for a particular nesting or element width corrupts a neighbour and shows up far away.',
  [H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'PairType.hpp', H + 'SequenceInstance.hpp', H + 'MapInstance.hpp', H + 'DynamicDataImpl.hpp'],
  [('offset given to a member when it is added', 'StructType::add_member, UnionType::add_case_member'), ('address computations', 'get_instance_at of the collections, operator[] of the references')],
  ['addresses returned by element access', 'values read back through another access path']),
P('P03', 'Equality of values compares every part',
  'Two values of the same type are equal exactly when all their parts are equal: every member, every element, the number of elements, the keys of a map with what they are mapped to, and the selected alternative of a union with its discriminator. Comparing is symmetric.',
  ['inputs'], 'for every pair of values of every type',
  SAMPLED + 'a part left out of the comparison is seen only by two values that differ exactly there.',
  [H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'SequenceInstance.hpp', H + 'MapInstance.hpp', H + 'PairType.hpp', H + 'PrimitiveType.hpp', H + 'StringType.hpp'],
  [('structural comparison', 'compare_instance of every type'), ('fast path by memory', 'blocks compared with memcmp')],
  ['result of == on values']),
P('P04', 'Equal values have equal hashes and the hash covers every part',
  'The hash of a value is computed from the same parts that equality compares and from nothing else (no address, no capacity, no unused memory), so equal values always have the same hash and can be used as map keys.',
  ['inputs', 'histories'], 'for every value of every type, however it was produced',
  SAMPLED + 'hashing something that equality ignores makes equal keys miss each other only for particular values.',
  [H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'SequenceInstance.hpp', H + 'MapInstance.hpp', H + 'PairType.hpp', H + 'PrimitiveType.hpp', H + 'StringType.hpp', H + 'Instanceable.hpp'],
  [('hash of every type', 'hash in every type')],
  ['hash of two values that compare equal', 'finding a key that was inserted']),
P('P05', 'Copying from a compatible type reads the source as what it is and fills the whole target',
  'When a value is built from a value of a different but compatible type, every part of the result is taken from the corresponding part of the source read with the type, width and place it has in the source; parts the source lacks get their default value, and parts the target lacks are left out. Nothing beyond the source or the target is touched.',
  ['inputs'], 'for every pair of compatible types and every value of the source',
  SAMPLED + 'the pairs of types are quadratic in the kinds and only a handful is exercised.',
  [H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'SequenceType.hpp', H + 'SequenceInstance.hpp', H + 'MapInstance.hpp', H + 'PairType.hpp', H + 'PrimitiveType.hpp', H + 'StringType.hpp', H + 'AliasType.hpp', H + 'EnumeratedType.hpp'],
  [('conversion by kind', 'copy_instance_from_type of every type'), ('number conversions', 'primitive conversions by kind')],
  ['value read from the converted copy']),
P('P06', 'Compatibility of types is judged by every part that matters',
  'Comparing two types reports them equal only when they are, and otherwise reports every relaxation (type, size, sign, bounds, names, order, members left out) needed to treat a value of one as a value of the other; types that cannot be related are reported incompatible. Two types reported compatible can really be converted.',
  ['inputs'], 'for every pair of types, in both directions',
  SAMPLED + 'a verdict depends on the kinds, bounds, names, order and number of members of two types at once.',
  [H + 'TypeConsistency.hpp', H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'SequenceType.hpp', H + 'MapType.hpp', H + 'PairType.hpp', H + 'StringType.hpp', H + 'PrimitiveType.hpp', H + 'EnumerationType.hpp', H + 'AliasType.hpp'],
  [('compatibility per pair of types', 'is_compatible of every type'), ('set of relaxations', 'operators of TypeConsistency')],
  ['result of is_compatible']),
P('P07', 'A value is only accessed as the C++ type that matches its type',
  'Reading, writing, pushing or viewing a dynamic value as a C++ type succeeds exactly when that type is the one of the value (or of its elements), and is otherwise refused before anything is read or written. When it succeeds the bytes read or replaced are those of the value.',
  ['inputs'], 'for every access operation, every C++ type it is instantiated with, and every kind of value',
  SAMPLED + 'the table operation x C++ type x kind has thousands of entries and a wrong one reinterprets memory.',
  [H + 'DynamicData.hpp', H + 'DynamicDataImpl.hpp', H + 'EnumeratedType.hpp'],
  [('kind guards', 'checks at the head of value, operator=, push, as_vector, cast')],
  ['exception raised or value returned']),
P('P08', 'A bad index, key, size, label or bound is refused before any memory is touched',
  'Asking for an element beyond the current size, a member or key that is not there, a discriminator that selects nothing, or for more elements or characters than a bound allows raises an error, and an index within the range is always served.',
  ['inputs'], 'for every index, name, key, discriminator and size, for every type',
  SAMPLED + 'the boundary values per operation and kind are not enumerated, and with assertions compiled out a missing check reads or writes outside.',
  [H + 'DynamicDataImpl.hpp', H + 'SequenceInstance.hpp', H + 'MapInstance.hpp', H + 'MapType.hpp', H + 'AggregationType.hpp', H + 'StringType.hpp', H + 'UnionType.hpp'],
  [('range checks', 'operator[], at, d, resize, push, string copies')],
  ['exception raised']),
P('P09', 'An operation that is refused leaves values and types as they were',
  'When an operation on a value or a type reports an error (wrong kind, bad index, bound exceeded, duplicated or unknown name, unsuitable member), the value or the type is afterwards exactly what it was before.',
  ['inputs', 'fault_sequences'], 'for every operation that can be refused and every state it can be refused in',
  'The tests that provoke an error look at the exception, hardly ever at the state left behind.',
  [H + 'DynamicDataImpl.hpp', H + 'SequenceInstance.hpp', H + 'StructType.hpp', H + 'UnionType.hpp', H + 'AggregationType.hpp', H + 'EnumerationType.hpp', H + 'idl/Module.hpp'],
  [('checks precede changes', 'guards at the head of the modifying operations')],
  ['the object after a caught exception']),
P('P10', 'Read-only operations never change a value or a type',
  'Comparing, hashing, printing, iterating over, converting, and asking a value or a type about itself changes neither it nor anything it refers to, and offers no way to write through it.',
  ['inputs', 'programs'], 'for every operation offered for reading, every value and every program that uses only those operations',
  'A test sees the answer of a query, not the absence of an effect for every type; what must not compile cannot be tested by a test that compiles.',
  [H + 'DynamicData.hpp', H + 'DynamicDataImpl.hpp', H + 'DynamicType.hpp', H + 'Instanceable.hpp', H + 'MapType.hpp', H + 'idl/Module.hpp'],
  [('const interface', 'ReadableDynamicDataRef, const members of the types')],
  ['state before and after a query', 'programs accepted by the compiler']),
P('P11', 'Primitive kinds and C++ types correspond one to one',
  'Every primitive C++ type is described by exactly one kind and a name of its own, its values occupy the size of that C++ type, a freshly constructed value is zero, and asking for the description of the same C++ type always yields the same description.',
  ['inputs'], 'for every primitive type',
  SAMPLED + 'a swapped pair of types of the same width goes unnoticed when both sides use the same table.',
  [H + 'PrimitiveType.hpp', H + 'TypeKind.hpp', H + 'DynamicType.hpp'],
  [('table from C++ type to kind', 'PrimitiveTypeKindTrait'), ('names by kind', 'PrimitiveType')],
  ['kind, name and size of a primitive type']),
P('P12', 'Operators on dynamic values compute what the same operator computes on the C++ values',
  'An arithmetic, logical, relational, bitwise or step operator on dynamic values of a primitive kind gives the result the C++ operator of that name gives on the stored values read as the C++ type of that kind, with both operands in their place; it leaves its operands alone unless it is an assigning form, and it is refused for kinds that have no such operator.',
  ['inputs'], 'for every operator, every primitive kind and every pair of values',
  SAMPLED + 'some twenty operators times fifteen kinds make hundreds of hand written branches, few of which are run.',
  [H + 'DynamicDataImpl.hpp', H + 'DynamicData.hpp'],
  [('one branch per kind in each operator', 'operators of ReadableDynamicDataRef, WritableDynamicDataRef and DynamicData')],
  ['result of the operator']),
P('P13', 'An alias behaves as the type it stands for',
  'A value, member, element, key or discriminator declared with an alias (or an alias of an alias) is constructed, accessed, converted, compared, printed and traversed exactly as one declared with the type the alias finally stands for.',
  ['inputs'], 'for every operation and every chain of aliases',
  SAMPLED + 'aliases are exercised for a few operations; each operation must resolve them by itself.',
  [H + 'AliasType.hpp', H + 'DynamicDataImpl.hpp', H + 'MapType.hpp', H + 'UnionType.hpp', H + 'idl/Module.hpp', H + 'idl/generator.hpp'],
  [('delegation', 'AliasType overrides'), ('resolution', 'AliasType::rget and the constructors of the references')],
  ['behaviour of aliased values']),
P('P14', 'A type used in another type, a value or a module is kept as it was at that moment',
  'Putting a type into a member, an element, an alias, a map, a module or a value captures all it consists of; changing, moving or destroying the original later has no effect, and the captured copy has the same kind, name, parts, labels and bounds and behaves the same way.',
  ['histories'], 'for every type and every later change of the original',
  SAMPLED + 'a field forgotten by a copy is seen only by later operations that depend on it.',
  [H + 'DynamicType.hpp', H + 'StructType.hpp', H + 'UnionType.hpp', H + 'EnumerationType.hpp', H + 'EnumeratedType.hpp', H + 'AliasType.hpp', H + 'Member.hpp', H + 'AggregationType.hpp', H + 'idl/Module.hpp'],
  [('cloning', 'clone of every type, DynamicType::Ptr'), ('copying of aggregates', 'copy constructors and assignment of the types')],
  ['the captured type']),
P('P15', 'The members of a type are unique, ordered and reachable by name and by position',
  'The members of a structure or union keep the order in which they were added, those of the parent first; no name occurs twice; looking a member up by name or by position gives the same member with the type, name, bounds and annotations it was declared with; and asking whether a member exists agrees with looking it up.',
  ['inputs', 'histories'], 'for every sequence of additions and derivations',
  SAMPLED + 'the two lookup structures are updated at several places and must agree after every history.',
  [H + 'AggregationType.hpp', H + 'StructType.hpp', H + 'UnionType.hpp', H + 'Member.hpp'],
  [('list and index kept in step', 'AggregationType::insert_member, the derivation constructor of StructType, UnionType::add_case_member')],
  ['member lookups']),
P('P16', 'A union always holds exactly the alternative its discriminator selects',
  'At any time the discriminator of a union selects the alternative that is constructed in it, or none; labels are unique and belong to one alternative; selecting an alternative stores one of its labels (the reserved one only for a default without labels), releases the old alternative and constructs the new one; a fresh union selects its default alternative, or none; and the discriminator itself can only be set to a label of the selected alternative, or to any label when none is selected. A label given as text stands for the value it spells in the type of the discriminator.',
  ['inputs', 'histories'], 'for every union type, every discriminator type and every sequence of selections and assignments',
  SAMPLED + 'a union declared with a few labels is switched a few times; stale or doubly released alternatives depend on the history.',
  [H + 'UnionType.hpp', H + 'DynamicDataImpl.hpp', H + 'Member.hpp'],
  [('discriminator and label table', 'UnionType')],
  ['selected alternative and discriminator']),
P('P17', 'An enumeration holds only its enumerators',
  'Enumerator names and values are unique, values not given follow the last one, and names and values translate to each other both ways; a value outside the enumeration, or wider than its type, is never accepted.',
  ['inputs', 'histories'], 'for every sequence of enumerator declarations and every value',
  SAMPLED + 'a table out of step or an overflow shows only for particular sequences.',
  [H + 'EnumerationType.hpp', H + 'EnumeratedType.hpp', H + 'DynamicDataImpl.hpp'],
  [('table of enumerators', 'EnumerationType::add_enumerator and its lookups')],
  ['enumerators, accepted values']),
P('P18', 'A map holds each key once and finds what was stored under it',
  'After any sequence of insertions and assignments a map has one entry per distinct key, a lookup by a key gives the value last stored under it, asking whether a key is present agrees with looking it up, and its size is the number of entries.',
  ['inputs', 'histories'], 'for every sequence of operations and every type of key and value',
  SAMPLED + 'entries are kept ordered by hash and moved on growth; only some orders and sizes are tried.',
  [H + 'MapInstance.hpp', H + 'MapType.hpp', H + 'DynamicData.hpp'],
  [('ordered insertion and binary search', 'MapInstance::insert, create_place, move_content, find_place')],
  ['entries found']),
P('P19', 'A sequence keeps its elements through growth and its storage is always large enough',
  'Pushing adds exactly one element at the end and keeps the others with their values; resizing to more elements keeps those present and default-constructs the ones added, and to fewer changes nothing; the storage always has room for the number of elements, and a bounded sequence never exceeds its bound.',
  ['inputs', 'histories'], 'for every sequence of pushes, resizes, copies and assignments, every element type and bound',
  SAMPLED + 'reallocation happens only at particular sizes.',
  [H + 'SequenceInstance.hpp', H + 'SequenceType.hpp'],
  [('growth', 'SequenceInstance::push, resize, realloc')],
  ['elements after the operation']),
P('P20', 'Visiting a type or a value visits every part once, in order, with the right place in the tree',
  'Visiting calls the visitor exactly once for the type or value itself and for every part of it, parents before children and parts in their declared order, with the depth, parent, position and member that belong to the part.',
  ['inputs'], 'for every type and value and every visitor',
  SAMPLED + 'printing depends on it but shows only some node data.',
  [H + 'DynamicType.hpp', H + 'DynamicData.hpp', H + 'DynamicDataImpl.hpp', H + 'Instanceable.hpp', H + 'StructType.hpp', H + 'UnionType.hpp', H + 'ArrayType.hpp', H + 'SequenceType.hpp', H + 'MapType.hpp', H + 'PairType.hpp'],
  [('traversal', 'for_each_type and for_each_instance of every type')],
  ['the nodes a visitor receives']),
P('P21', 'Every value can be shown and every kind is shown from what is stored',
  'Rendering a value shows each primitive, enumeration and string from its stored content read as the C++ type of its kind, each aggregate by the names of its members, and each collection by its positions, and no part is left out or shown as another type.',
  ['inputs'], 'for every value of every type',
  SAMPLED + 'the rendering of most kinds is never compared.',
  [H + 'DynamicDataImpl.hpp', H + 'StringConversion.hpp'],
  [('one branch per kind', 'to_string, cast to string')],
  ['rendered text']),
P('P22', 'A module finds exactly what was declared in it, under one meaning per name',
  'In a module every kind of declaration (structure, union, enumeration, alias, constant, submodule) has at most one entry per name: declaring it twice is refused and keeps the first, unless replacing it was asked for, and touches no other declaration; scoped names cannot be declared. A declared type is known by its scoped name. A plain name is looked for from the module outwards, innermost first; a qualified name is looked for in the module its qualifiers name (the first of them found from the inside outwards) and nowhere else; a name starting with "::" is looked for from the root. The has-queries, the typed lookups and type() agree. Listing types yields every structure, union, alias and enumeration of the module and of all its submodules, under its scoped name when asked for; visiting a module visits it and every submodule once.',
  ['inputs', 'histories'], 'for every sequence of declarations and every name',
  SAMPLED + 'each kind of declaration has a table of its own, every pair of tables must be kept apart, and lookups recurse over an unbounded tree of modules.',
  [H + 'idl/Module.hpp'],
  [('symbol tables', 'Module: structs_, unions_, aliases_, enumerations_32_, constants_, inner_'), ('name resolution', 'Module::resolve_scope'), ('listings', 'fill_all_types, for_each_submodule')],
  ['lookups, refusals, iteration']),
P('P23', 'Generated IDL declares every part of a type with its own spelling',
  'The IDL generated for a module writes every structure, union, alias, enumeration, constant and submodule of it once, each as a declaration of its kind, a submodule inside a frame of its own name, and marks it as written. A structure is written with its name, its parent if it has one, and every member of its own, in order, with name, type and, for an array, every dimension; a union with its discriminator and, for every member, all its labels and "default" exactly for the default member; an enumeration with every enumerator, in order of value; an alias with its name, the aliased type and its dimensions; a constant with its type, name and value, except enumerators. Every type is spelled as its kind is in IDL, with its elements and its bound if it has one. Labels and constants are written as literals of their type: signed numbers with their sign, floating point numbers with all their digits, characters and strings quoted (the wide ones with L), enumeration values by the name of the enumerator.',
  ['inputs', 'histories'], 'for every type and module',
  SAMPLED + 'the text is compared for a few types only and the parser to read it back is not available here.',
  [H + 'idl/generator.hpp', H + 'idl/generator_deptree.hpp'],
  [('one generator per kind', 'generator functions'), ('one node per declaration', 'ModuleDependencyTree::create_module_dep_tree, DependencyNode::generate_idl_sentence')],
  ['generated text']),
P('P24', 'Dynamic values own their content; copies are independent and moves leave a fresh value behind',
  'A dynamic value owns its memory and the type that describes it: copying gives an independent value, moving hands the content over and leaves the source a fresh value that can still be used, assigning releases what was there before, self-assignment changes nothing, and destruction releases everything once, even when the type used to create the value is gone. References own nothing: making, moving or ending one changes no value.',
  ['histories'], 'for every sequence of constructions, copies, moves, assignments and destructions',
  SAMPLED + 'ownership errors need a particular order of operations and a memory checker to be seen.',
  [H + 'DynamicData.hpp', H + 'DynamicDataImpl.hpp', H + 'DynamicType.hpp'],
  [('special members', 'DynamicData, DynamicType::Ptr')],
  ['values after copies and moves']),
P('P25', 'Iterators visit each position of the value exactly once, in order',
  'Iterating over the elements, members or entries of a value yields exactly as many items as its size says, each from its own position in order, and the begin and end of one value always delimit that range.',
  ['inputs'], 'for every value of every iterable type',
  SAMPLED + 'iterators are run over a few collections.',
  [H + 'DynamicData.hpp', H + 'DynamicDataImpl.hpp'],
  [('iterators', 'Iterator, MemberIterator and their values')],
  ['the items seen by a loop']),
P('P26', 'Kinds are classified consistently',
  'Every type reports one kind, the kinds of all types are distinct, and the classifications derived from a kind (primitive, constructed, collection, aggregation, enumerated) hold exactly for the types that are of that class.',
  ['inputs'], 'for every type',
  'All guards in the library rest on the classification, but tests only meet it through particular operations.',
  [H + 'TypeKind.hpp', H + 'DynamicType.hpp'],
  [('bits of the kinds', 'TypeKind and is_*_type')],
  ['kind predicates']),
P('P27', 'The name of a type tells what it is',
  'A type has the name it was declared with; a collection, string or pair type is named after its kind, its bound or dimension where it has one, and the names of the types it is made of, also when a part is set later, so that types differing in one of these are told apart by name, and the same type described in two ways (an array of several dimensions, and nested arrays) has one name.',
  ['inputs'], 'for every type, content and bound',
  'A test compares the names of a few types; the text is put together per constructor and per presence of a bound.',
  [H + 'SequenceType.hpp', H + 'ArrayType.hpp', H + 'MapType.hpp', H + 'PairType.hpp', H + 'StringType.hpp', H + 'DynamicType.hpp'],
  [('names given by the constructors', 'constructors of the collection types')],
  ['DynamicType::name()']),
# not decided by static analysis
P('P90', 'IDL text is parsed into the types it declares', 'Parsing IDL yields exactly the types, constants and modules it declares, and text that is not IDL is refused.',
  ['inputs'], 'for every text', SAMPLED + 'the language is infinite.', [H + 'idl/parser.hpp', H + 'idl/grammar.hpp'], [('grammar and semantic actions', 'idl/parser.hpp')], ['parsed context'],
  na='the parser is an interpreted PEG grammar whose library header (peglib.h) is absent here, so the file cannot even be type checked and no static argument about the meaning of the grammar text is in reach'),
P('P91', 'Generating IDL and parsing it again gives the same types', 'The IDL generated from a module, parsed again, yields types equal to the ones it was generated from.',
  ['inputs'], 'for every module', SAMPLED + 'it relates two programs over all types.', [H + 'idl/generator.hpp', H + 'idl/parser.hpp'], [('generator and parser', 'idl/')], ['types after a round trip'],
  na='relates the text produced at run time to the language accepted by an interpreted grammar (parser not compilable here, see P90); the generator side alone is P23'),
P('P92', 'Parts are suitably aligned', 'Every part of a value lies at an address suitable for its C++ type.',
  ['inputs'], 'for every type', SAMPLED + 'x86 hides misaligned access.', [H + 'StructType.hpp', H + 'UnionType.hpp', H + 'Instanceable.hpp'], [('member offsets', 'StructType')], ['addresses of members'],
  na='the library packs members by design without alignment guarantees (documented as memory-layout trade-off), so the property does not hold and is not promised'),
P('P94', 'Generated IDL declares before it uses', 'The IDL generated for a module declares every type before the first declaration that mentions it.',
  ['inputs', 'histories'], 'for every module', SAMPLED + 'the order depends on which declarations mention which.',
  [H + 'idl/generator_deptree.hpp'], [('dependency search', 'ModuleDependencyTree::generate_idl, DependencyNode::set_dependency')], ['order of the generated text'],
  na='the order is the result of a run-time search over a graph of names built while the text is written (each node is written when its turn in a mutable work list comes); no invariant of single functions implies it, and it is known not to hold: a typedef of a structure of the same module is written before the structure'),
P('P93', 'Operations complete in the promised time', 'Element access takes constant time and map lookup logarithmic time in the number of entries.',
  ['inputs'], 'for every size', 'Tests do not measure growth.', [H + 'MapInstance.hpp', H + 'SequenceInstance.hpp'], [('binary search, direct addressing', 'MapInstance, SequenceInstance')], ['time per operation'],
  na='running time is a quantitative run time property; no analysis installed here bounds the cost of the C++ involved'),
]

#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p('C01', 'Lists act as Python lists of adapted values and stay numbered by position',
  "After any sequence of List operations (append, extend, +=, insert, item and slice assignment, item and slice deletion, pop, remove, reverse, sort, set, set_flat, set_default), given raw values or elements, the List's values are exactly what the same operations give on a plain Python list of the adapted values. "
  "Every member's flattened name, fully-qualified name and el() index carry its current zero-based position. "
  "An operation that fails with an error (index out of range, value not present, size mismatch) leaves the List unchanged.",
  ['histories', 'inputs'], "every history of list operations, every index (negative, out of range), every slice including extended slices, scalar and nested member types",
  "Tests run each mutator once or twice on one or two members; renumbering after arbitrary interleavings, negative/extended slices, nested lists and >10 members is not reached.",
  ['flatland/schema/containers.py'], [('position slots and renumbering', 'containers.List._renumber/_new_slot'), ('sequence overrides', 'containers.Sequence / containers.List mutators')],
  ['value', 'flattened_name()', 'fq_name()', 'el()', 'flatten()'])

p('C02', 'Element trees stay correctly linked',
  "In any element tree, however it was built or mutated (construction, set, set_flat, set_default, sequence and mapping operations), every member reached from a container has that container as its nearest visible ancestor, and parents, path and root follow from that linkage alone. "
  "all_children yields every descendant exactly once, breadth-first, and el(fq_name()) evaluated anywhere in the tree returns that very element.",
  ['histories', 'configurations'], "every tree of nested Dict/SparseDict/List/Array elements and every operation history on it",
  "Tests look at the parent of a few freshly built members; linkage after replacing, inserting or re-setting nested members is only sampled.",
  ['flatland/schema/base.py', 'flatland/schema/containers.py'], [('parent assignment in every mutator', 'containers.Sequence.append/insert/__setitem__, Mapping._reset, SparseDict.__setitem__'), ('traversal', 'base.Element.parents/root/path/all_children/el/fq_name')],
  ['parents', 'root', 'path', 'children', 'all_children', 'el()', 'fq_name()'])

p('C03', 'flatten() and set_flat() are inverse',
  "For any schema whose flattened names are unambiguous and any separator, feeding the pairs of flatten() to set_flat() on a fresh element of the same schema, in any pair order and as a list or a dict, rebuilds an element with the same texts throughout, and the same values wherever the text is not empty and denotes the value. "
  "Exceptions: pruning sequences drop empty members and renumber the rest, and members that contribute no pair (or lie beyond a List's maximum) cannot be restored. "
  "flatten() yields exactly one pair per flattenable element, named by joining the names on its path (list members by their index) and valued by the requested value function.",
  ['inputs', 'configurations'], "all schema trees of named/anonymous scalars, Dicts, SparseDicts, Lists, Arrays, compounds; all member counts; all separators including regex-special ones and names that contain digits or regex-special characters or are prefixes of each other",
  "Tests round-trip a handful of hand-written schemas with '_' and at most three list members.",
  ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/schema/compound.py'], [('flat naming', 'base.Element.flattened_name/flatten'), ('flat parsing', 'containers.List/Array/Mapping._set_flat, scalars.Scalar._set_flat')],
  ['flatten()', 'set_flat()', 'value'])

p('C04', 'set_flat() interprets arbitrary pairs safely',
  "For any sequence of (text, text) pairs set_flat() terminates without error and yields exactly the tree that the naming rules assign to the recognised pairs: unrecognised keys and malformed or non-numeric indexes are ignored, the first value wins for a repeated scalar key, repeats accumulate in order in Arrays, and fields without matching pairs keep their state. "
  "A List never receives more than maximum_set_flat_members members however large or numerous the indexes are; a pruning List ignores empty values and compacts the remaining indexes in numeric order, a non-pruning List keeps each index in its position and fills gaps with blank members.",
  ['inputs', 'histories'], "every list of key/value strings (hostile, duplicated, huge or signed indexes, prefixes, repeated separators, empty keys) against every schema",
  "Tests give well-formed keys with a few missing indexes; hostile keys, prefix-sharing names, duplicates and bound-edge indexes are sampled at single points.",
  ['flatland/schema/containers.py', 'flatland/schema/base.py'], [('list index regex, prune and bound', 'containers.List._set_flat'), ('prefix routing', 'containers.Mapping._set_flat'), ('array accumulation', 'containers.Array._set_flat')],
  ['set_flat()', 'from_flat()', 'value', 'flatten()'])

p('C05', 'Scalar set() adapts, normalises and reports consistently',
  "For every scalar type and every input, set() returns True exactly when the input adapts by that type's documented rules; then value holds the adapted native value and u its canonical text (u'' for None), otherwise value is None, u holds the text of the input unchanged, and raw always holds the input itself. "
  "Numbers strip surrounding whitespace and refuse negatives when unsigned, Booleans accept exactly their declared synonyms, dates and times accept only complete, calendar-valid texts, and Enum/Constrained never hold a value that their constraint refuses. "
  "Setting an element to its own native value again changes neither value nor u.",
  ['inputs', 'histories'], "all inputs (None, text, numbers, other objects) for each scalar class and its options (strip, signed, format, synonyms, child_type, valid_values), in any sequence of set() calls on one element",
  "Tests use tables of a dozen values per type on fresh elements; leftovers from earlier failed sets and option combinations are not enumerated.",
  ['flatland/schema/scalars.py'], [('set/adapt/serialize', 'scalars.Scalar.set, *.adapt, *.serialize'), ('constraint', 'scalars.Constrained.adapt, Enum.valid_value')],
  ['set()', 'value', 'u', 'raw'])

p('C06', 'Validation visits the tree in the documented order with documented outcomes',
  "validate() visits every element once breadth-first going down and the same elements in reverse going up, running container descent validators and scalar validators on the way down and container validators on the way up, stopping an element's chain at the first result that is falsy, None (a failure), Skip (success), SkipAll or SkipAllFalse; the last two on the way down leave all descendants of that element unvisited. "
  "Optional empty elements are valid without calling their validators, elements without validators are valid iff not empty, each element's valid flag and the overall result (true iff nothing visited failed) follow from those results, and all_valid is true iff the element and all its descendants are. "
  "One validator_validated signal is sent per validator call with its result.",
  ['inputs', 'configurations', 'programs'], "every tree shape, every assignment of validators and results (True/False/None/Skip/SkipAll/SkipAllFalse), optional/empty combinations, with and without recursion",
  "Tests walk three or four fixed trees with a few result patterns.",
  ['flatland/schema/base.py', 'flatland/schema/containers.py'], [('traversal', 'base.Element.validate'), ('chain', 'base.validate_element'), ('container down/up', 'containers.Container._validate')],
  ['validate()', 'valid', 'all_valid', 'validator_validated'])

p('C07', 'Path lookups select exactly the addressed elements',
  "find() and el() select exactly the elements addressed by their path, in document order: names, '/' or separator roots, '.', '..' (the visible parent, a no-op at the root), numeric and negative indexes, slices that expand sequences, and backslash escapes. "
  "In strict mode a missing child raises LookupError and single mode rejects multiple matches; in non-strict mode missing branches are skipped. "
  "The result depends only on the path and the tree, never on which or how many paths were looked up before.",
  ['inputs', 'histories'], "all path strings over names, separators, dots, indexes, slices and escapes, on all tree shapes, from any starting element, in any lookup history (including more distinct paths than any internal cache holds)",
  "Tests list some thirty paths on one form and never exceed the expression cache.",
  ['flatland/schema/paths.py', 'flatland/schema/base.py'], [('tokenize/canonicalize', 'paths.tokenize'), ('evaluation', 'paths.PathExpression.__call__'), ('cache', 'paths.pathexpr')],
  ['find()', 'el()'])

p('C08', 'Properties inherit, override and delete like class attributes',
  "An element's or class's properties always read as the overlay of its own settings over those of its ancestors: writing, deleting, popping, clearing or updating on a class is visible to that class, its subclasses and their instances (unless they override the key) and never to its bases or siblings. "
  "Doing so on an instance is visible to that instance only. "
  "Mappings handed in are copied (except those assigned wholesale to an instance), a deleted key stays hidden until it is set again or the overlay is cleared, and lookups, containment, keys, items, values, truth, equality, copies, get, pop and setdefault all agree on the same mapping.",
  ['histories', 'configurations'], "every history of mapping operations over every class hierarchy (cloning, subclassing, multiple inheritance, fresh overlays) and its instances",
  "Tests check one three-level hierarchy with one operation each.",
  ['flatland/schema/properties.py'], [('class frames', 'properties._TypeLookup'), ('instance overlay', 'properties._InstanceLookup'), ('descriptor', 'properties.Properties.__get__')],
  ['Element.properties', 'with_properties()', 'using(properties=)'])

p('C09', 'Schema derivation never alters the originals',
  "named, using, validated_by, including_validators, descent_validated_by, including_descent_validators, of, valued, to and with_properties always return a new subclass that differs from the original only in the requested attributes; the original class, its other derivations, previously created elements and the caller's argument objects never change. "
  "Constructor overrides affect only the new instance. "
  "Unknown attributes raise TypeError and including_*validators splices at the requested position.",
  ['histories', 'programs'], "every chain and interleaving of schema constructors and instantiations over every schema kind",
  "Tests compare one derived class with its parent; sibling and long-chain aliasing (shared lists) is not explored.",
  ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/util/base.py'], [('class cloning', 'util.class_cloner'), ('copy of validators/properties', 'base.Element.using/validated_by/including_validators')],
  ['class attributes', 'instances'])

p('C10', 'Mappings never leave their schema',
  "A Dict always holds exactly its schema's keys and refuses every addition or removal; a SparseDict's keys are always a subset of its schema's keys and, with minimum_fields='required', always include every non-optional field. "
  "Assigning a key sets that field, unknown keys are rejected with KeyError/TypeError, and set() follows its policy: 'strict' requires exactly the schema's keys, 'subset' allows omissions, 'duck' additionally ignores unknown keys. "
  "set() resets fields not mentioned, whereas update() and item assignment leave them alone.",
  ['histories', 'inputs'], "every history of mapping operations (setitem, delitem, pop, popitem, clear, update, setdefault, get, set with each policy, set_flat, set_default) with known, unknown and missing keys",
  "Tests try each refusing method once.",
  ['flatland/schema/containers.py'], [('immutable keys', 'containers.Mapping'), ('policy', 'containers.Dict.set'), ('sparse keys', 'containers.SparseDict')],
  ['keys()', 'value', 'set()', 'exceptions'])

p('C11', 'Object bridging transfers exactly the selected attributes',
  "slice() and update_object() export exactly the fields selected by include or omit, with renamed fields always emitted under their new name, after applying the key function; update_object() sets exactly those attributes on the object and touches no others. "
  "set_by_object()/from_object() set each field from the object attribute of the same name, or of the name renamed to it, under the same include/omit rules, ignore all other attributes, and reset fields for which nothing was selected. "
  "include together with omit is refused with TypeError.",
  ['inputs', 'configurations'], "all combinations of fields, include, omit, rename, key functions and object attributes, and iterables of every kind for the options (lists, tuples, sets, generators)",
  "Tests enumerate a few include/omit/rename combinations on a two-field form.",
  ['flatland/schema/containers.py', 'flatland/util/base.py'], [('selection', 'util.keyslice_pairs'), ('bridge', 'containers.Dict.slice/update_object/set_by_object')],
  ['slice()', 'update_object()', 'set_by_object()', 'from_object()'])

p('C12', 'Arrays, MultiValues and JoinedStrings keep sequence and scalar views consistent',
  "An Array always equals the Python list of its adapted members under every sequence operation, and flattens to one pair per member, all under the same name. "
  "A MultiValue reads as the value and text of its first member (None and '' when empty), writes through to it, and is true iff it has members. "
  "A JoinedString's value and text are always its members' texts joined by the separator, set() splits on the separator or separator_regex and drops empty pieces when pruning, and it flattens as a single pair.",
  ['histories', 'inputs'], "every history of sequence and scalar operations on Array, MultiValue and JoinedString with scalar members, pruning on and off",
  "Tests check single operations on two or three members.",
  ['flatland/schema/containers.py', 'flatland/schema/compound.py'], [('sequence overrides', 'containers.Sequence, containers.Array'), ('scalar view', 'containers.MultiValue'), ('join/split', 'compound.JoinedString')],
  ['value', 'u', 'flatten()', 'sequence operations'])

p('C13', 'Defaults fill the whole tree',
  "set_default() (and from_defaults()) gives every element its default value: default_factory called with the element when present, else default; a scalar without a default becomes None, mappings without a default of their own recurse into their fields, a List with an integer default gets that many members each at its own default, and containers with a value default are set to it, replacing earlier content. "
  "Element default_value reports the same value, and defaults never leak between elements, classes or repeated calls.",
  ['inputs', 'configurations', 'histories'], "every schema tree with defaults, default factories and none, on fresh and on already populated elements",
  "Tests cover one default per kind on fresh elements.",
  ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/schema/scalars.py'], [('default selection', 'base.Element.default_value'), ('default filling', 'set_default of Scalar/Sequence/List/Mapping/SparseDict')],
  ['set_default()', 'from_defaults()', 'default_value', 'value'])

p('C14', 'Compound classes initialise once per configuration; dates agree with parts',
  "For every Compound class configuration the class initialisation hook completes exactly once before any of its instances is constructed, however many threads construct the first instances at the same time, and again exactly once for each set of constructor overrides, which never change the original class. "
  "A DateYYYYMMDD's value is the calendar date denoted by its three parts, or None with u'' when they do not denote one; setting a valid date or text sets the parts, and setting anything else empties them all, and the parts it makes itself are optional exactly when it is.",
  ['schedules', 'histories', 'inputs'], "all interleavings of first constructions from several threads and of subclassing/using; all sequences of part and whole assignments",
  "Tests construct from one thread and set a few dates.",
  ['flatland/schema/compound.py'], [('double-checked class initialisation', 'compound._MetaCompound.__call__, _wrap_compound_init'), ('compose/explode', 'compound.DateYYYYMMDD')],
  ['__compound_init__ calls', 'field_schema', 'value', 'u', 'parts'])

p('C15', 'Refs mirror their targets',
  "A Ref always reads the current value and text of its target element, resolved by its path from the root of the tree, however the target was changed. "
  "Writing to the Ref writes through to the target when writable, is silently ignored when 'ignore' (the default), and raises TypeError leaving the target unchanged when not writable; Refs never appear in flattened output.",
  ['histories', 'configurations'], "every history of writes through the Ref and directly to the target, for every writable mode and target path",
  "Tests check each mode once on one flat form.",
  ['flatland/schema/scalars.py'], [('target resolution and write modes', 'scalars.Ref')],
  ['value', 'u', 'flatten()'])

p('C16', 'Form classes inherit fields predictably',
  "A Form class's fields are, by name, exactly: those declared as attributes on the class, over those in its own field_schema, over those of its bases in left-to-right order; each name occurs once, declared fields are named after their attribute, and declarations disappear from the class attributes. "
  "Creating or deriving a Form never changes its bases or the schemas it was built from.",
  ['configurations', 'programs'], "every Form class hierarchy (multiple bases, Dict bases, overriding, renaming declarations)",
  "Tests build three small hierarchies.",
  ['flatland/schema/forms.py'], [('field collection', 'forms._MetaForm.__new__, _ElementCollection')],
  ['field_schema', 'instances'])

p('C17', 'Markup attributes follow the documented generation rules',
  "For every tag, bound element, given attributes and settings in effect, the generator adds or replaces exactly the attributes its rules call for (name, value/checked/selected, id, for, tabindex, textarea body): only on tags that support them, only when the controlling setting is on, never overriding a given attribute unless forced on in the tag, and never when turned off in the tag; control attributes never appear in the output. "
  "Checkbox, radio and option tags are checked or selected iff their value equals (or, for Arrays, is among) the bound element's, and filters run only when enabled and only for the tags they ask for.",
  ['inputs', 'configurations', 'histories'], "all combinations of tag, element kind, given attributes, setting at context level and at tag level",
  "Tests are a decision-table sample of about a hundred rows.",
  ['flatland/out/generic.py', 'flatland/out/markup.py'], [('transforms', 'generic.transform_*'), ('toggles', 'generic._pop_toggle')],
  ['rendered tag'])

p('C18', 'Markup settings are scoped by begin/end',
  "At any point of any history of begin, set, end and rendered tags, the settings in effect are those given since the innermost unmatched begin over those outside it; end() restores exactly the settings in effect before the matching begin, ending without a begin raises RuntimeError, and unknown settings are rejected without changing anything. "
  "tabindex advances by one per tag that used it within the current scope when positive and stays put otherwise, and an open()ed tag is closed by the matching close().",
  ['histories'], "all histories of begin/set/end/tag/open/close calls on one generator, and any number of independent generators",
  "Tests use at most two nested scopes.",
  ['flatland/out/generic.py', 'flatland/out/markup.py'], [('frame stack', 'generic.Context'), ('scoping API', 'markup.Generator.begin/end/set'), ('tabindex', 'generic.transform_tabindex')],
  ['rendered tags', 'settings', 'exceptions'])

p('C19', 'Generated markup is correctly escaped and well formed',
  "Whatever text the bound element, names or attributes contain, the rendered tag is well formed and parses back to exactly the intended tag name, attributes and textarea text, with markup-significant characters escaped once and pre-escaped (__html__) values inserted as they are. "
  "Empty tags are written self-closed in xhtml, dangling or paired in html as their kind requires, open()+contents+close() gives the same markup as one call, and attributes appear in the documented stable order. "
  "An element's x and xa are its text escaped for use as content and inside double quotes.",
  ['inputs'], "all texts in element names, values and attributes for all tags and both markup styles",
  "Tests escape two or three literal strings.",
  ['flatland/out/markup.py', 'flatland/out/generic.py'], [('escaping', 'markup._attribute_escape, generic._markup_escape'), ('rendering', 'markup.Tag')],
  ['rendered tag', 'Element.x', 'Element.xa'])

p('C20', 'Validation messages are looked up, translated and recorded as documented',
  "A validator's message template is expanded with the first provider that has each name, in order: explicit keyword, state as mapping, state as attribute holder, the validator, then the element; sequences (singular, plural, count) choose the form by the count, which may be a name to expand, and callables yield their template. "
  "Translation uses the first ugettext/ungettext found on the state, then on the element and its ancestors, then the builtins, and is applied to the template before expansion. "
  "Errors and warnings are recorded on the element in order, each message once.",
  ['inputs', 'configurations'], "all combinations of providers, shadowed names, plural tuples, translators at any ancestry level",
  "Tests check each provider level once.",
  ['flatland/validation/base.py', 'flatland/schema/util.py', 'flatland/schema/base.py'], [('expansion', 'validation.base.Validator.expand_message'), ('i18n search', 'schema.util.find_i18n_function')],
  ['errors', 'warnings'])

p('C21', 'Container and value validators accept exactly what they document',
  "HasAtLeast, HasAtMost, HasBetween (which count a sequence's members), NotDuplicated, ValuesEqual, UnisEqual, MapEqual, Present, IsTrue, IsFalse, ValueIn, Converted, ShorterThan, LongerThan, LengthBetween, ValueLessThan, ValueAtMost, ValueGreaterThan, ValueAtLeast and ValueBetween accept an element iff their documented condition holds for its current value or members, at every boundary. "
  "On refusal exactly the documented message is recorded on the documented element with correct counts and labels; on acceptance nothing is recorded.",
  ['inputs'], "all values, member counts, bounds and duplicates for each validator",
  "Tests check one or two points on each side of each boundary.",
  ['flatland/validation/scalars.py', 'flatland/validation/containers.py', 'flatland/validation/number.py'], [('validators', 'validation.containers.*, validation.scalars.*, validation.number.*')],
  ['validate()', 'errors'])

p('C22', 'Text-format validators accept exactly the formats they document',
  "Luhn10, IsEmail, URLValidator, HTTPURLValidator and URLCanonicalizer accept a value iff it has the documented format for their configuration (allowed, required and forbidden URL parts, schemes, local part and domain rules), never raise on any text, and record exactly one message naming the failing part on refusal. "
  "Canonicalisation removes exactly the URL parts it is told to discard, keeps the others, and rewrites only values it accepts.",
  ['inputs', 'configurations'], "all texts over a format's structural characters, for every configuration of the validators",
  "Tests list a few valid and invalid literals.",
  ['flatland/validation/network.py', 'flatland/validation/number.py', 'flatland/ext/creditcard.py'], [('email', 'network.IsEmail'), ('url', 'network.URLValidator/HTTPURLValidator/URLCanonicalizer'), ('checksum', 'util.luhn10')],
  ['validate()', 'errors', 'value'])

p('C25', 'Card and phone numbers are normalised, recognised and refused as documented',
  "A CreditCardNumber adapts exactly the texts of at least fifteen digits, blanks and dashes (and integers), renders 13, 15 and 16 digit numbers in their dashed groups so that the text reads back as the same number, and validates iff its checksum is right and its kind (Visa, MasterCard, American Express, Discover, by prefix and length) is among the accepted ones, otherwise recording exactly the one documented message, which lists the accepted kinds. "
  "NANPphone accepts a value iff it has ten digits, or more where extensions are allowed or stripped, and then rewrites it as (AAA) EEE-NNNN with its extension kept, dropped or refused as configured; a number so written is accepted again unchanged.",
  ['inputs', 'configurations'], "all numbers, ways of writing them, sets of accepted kinds and extension settings",
  "No test covers phone numbers and few card literals are tried.",
  ['flatland/ext/creditcard.py', 'flatland/validation/string.py', 'flatland/validation/number.py'], [('cards', 'ext.creditcard.CreditCardNumber'), ('card kinds', 'ext.creditcard.AcceptedType/_card_type'), ('phones', 'validation.string.NANPphone')],
  ['set()', 'value', 'u', 'validate()', 'errors'])

p('C23', 'Values, texts, emptiness and equality describe one state',
  "At any time a container's value and text are composed from its members' current values and texts, and a scalar is empty iff it has neither value nor text, a mapping never (a SparseDict iff it holds no keys) and a sequence iff it has no members. "
  "Two elements compare equal iff both their value and their text are equal, != is its exact negation, comparison with objects that have no value and text is False, and elements are never hashable.",
  ['histories', 'inputs'], "every pair of elements of any kinds after any operations",
  "Tests compare a few freshly built pairs.",
  ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/schema/scalars.py'], [('composition', 'Sequence/Mapping value and u'), ('comparison', 'base.Element.__eq__'), ('emptiness', 'is_empty of each kind')],
  ['value', 'u', 'is_empty', '==', '!='])

p('C24', 'The Genshi front end applies the same rules as the generator',
  "For the tags, bindings, attributes and settings that both support, a Genshi template with the flatland filter produces the same attributes and contents as the markup generator. "
  "Its form:with and form:set directives scope settings lexically exactly like begin/end and set, control attributes and directives never reach the output, and streams without flatland markup pass through unchanged.",
  ['inputs', 'configurations'], "all combinations of tag, bind, attributes and nested with/set scopes",
  "Tests run the shared transform table plus a dozen templates.",
  ['flatland/out/genshi.py', 'flatland/out/generic.py'], [('stream filter', 'genshi.setup / directives')],
  ['rendered template'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, sort_keys=True) + '\n')

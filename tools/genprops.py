#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data so statements are easy to review)."""
import json, os

B = 'properties/base/base.py'; CT = 'properties/base/containers.py'
IN = 'properties/base/instance.py'; UN = 'properties/base/union.py'
BA = 'properties/basic.py'; HA = 'properties/handlers.py'; LI = 'properties/link.py'
MA = 'properties/math.py'; UT = 'properties/utils.py'; IM = 'properties/images.py'
SI = 'properties/extras/singleton.py'; TA = 'properties/extras/task.py'
UI = 'properties/extras/uid.py'; WE = 'properties/extras/web.py'

P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why, 'anchors': anchors})

prop('C01', 'Only validated values are ever stored',
 "When a declared property is assigned, the stored value changes only after that property's own validation accepted the input, and what is stored is what validation returned, or what a registered validator callback put in its place. A rejected assignment raises and leaves the stored value as it was; assigning the undefined sentinel, or deleting, clears it. Constructor keywords, defaults and deserialized data pass through the same validation; there is no other way into the store.",
 ['inputs', 'histories', 'programs'], 'every declared property of every class, every value, every sequence of assignments, deletions, constructions and deserializations',
 'Tests assign a handful of good and bad values per built-in type; they cannot show that no code path writes the store without validating first.',
 [B, BA], [('property setter validates then sets', BA + ' Property.get_property.fset'), ('single store routine', B + ' HasProperties._set'), ('immutable defaults validated', B + ' PropertyMetaclass.__call__'), ('deserialization of immutables validated', B + ' HasProperties.deserialize')],
 [('_backend', 'stored property values of one instance', B)])

prop('C02', 'Change notifications: order, selection and content',
 "Setting or deleting a property notifies validator callbacks before the stored value changes and observer callbacks after it; a validator callback that raises prevents both the store and the observers. Set observers are notified exactly once per assignment, and change-only observers exactly when the new value differs from the previous one (set versus undefined counts as different, otherwise the property's own equality decides). Every notification carries the property name, the previous value (the undefined sentinel when there was none), the new value, and the mode being delivered, even if an earlier callback tampered with the name, previous value or mode in the notification.",
 ['inputs', 'histories', 'programs'], 'every assignment or deletion, every combination of previous/new value being undefined, equal or different, every set of callbacks',
 'Tests register a few callbacks on integer properties; order, veto and change-only selection must hold for all value combinations and callback behaviours.',
 [B], [('set routine', B + ' HasProperties._set'), ('delivery', B + ' HasProperties._notify')],
 [('change', 'notification dictionary passed to callbacks', B)])

prop('C03', 'Callback registration, delivery and disabling contexts',
 "A callback registered on a class or an instance for one name, several names or every property is called for each change of those properties in its mode, and for no other property or mode. Inside a disabling context exactly the disabled kinds of callback are suppressed (by default all of them; only validators or only observers for the specialised contexts; nested contexts add up). Leaving a context, normally or through an exception, however contexts are nested or reused, restores exactly what was disabled when it was entered.",
 ['inputs', 'histories', 'programs'], 'every nesting and reuse of contexts, every exit kind, every registration form and mode',
 'Tests nest a few fresh contexts with normal exit; restoration must hold for every nesting, including re-entering the same context object and exits by exception.',
 [HA, B], [('context managers', HA + ' listeners_disabled'), ('dispatch filter', HA + ' _get_listeners'), ('registration', HA + ' _set_listener, observer, validator'), ('delivery', B + ' HasProperties._notify')],
 [('_quarantine', 'set of disabled callback kinds', HA), ('_listeners', 'callbacks of one instance by property name and mode', B)])

prop('C04', 'Immutable and dynamic properties cannot be set behind the rules',
 "A read-only property (including unique ids) offers neither assignment nor deletion, and resetting it to a default is refused. A dynamic property's value is computed by its getter on every read and validated before it is returned (None or undefined reads as None), its setter receives only validated values, and without a registered setter or deleter assignment or deletion raises AttributeError. A dynamic property is refused as constructor keyword and its value is never saved on the instance, not even by deserialization.",
 ['inputs', 'histories', 'programs'], 'every read-only or dynamic property, every operation sequence',
 'Tests check one or two classes; nothing shows that no path stores a dynamic value or opens a setter.',
 [BA, B], [('read-only accessor', BA + ' GettableProperty.get_property'), ('dynamic accessor', BA + ' DynamicProperty.get_property'), ('reset refusal', B + ' HasProperties._reset'), ('constructor refusal', B + ' HasProperties.__init__'), ('deserialization', B + ' HasProperties.deserialize')])

prop('C05', 'validate() checks everything before it reports success',
 "Validating an instance runs every registered class validator and checks every declared property: a required property without a value, a stored value its property does not accept unchanged, a value its validator callbacks would alter, or a wrongly sized or nested invalid value each make it raise. Nested instances and container elements are validated recursively. It returns True only if nothing failed.",
 ['inputs', 'programs', 'histories'], 'every class, every combination of stored values, any nesting depth',
 'Tests validate small fixed objects; completeness over all properties, validators, container elements and nesting is universally quantified.',
 [B, BA, IN, CT, UN], [('class validators loop', B + ' HasProperties.validate'), ('property loop', B + ' HasProperties._validate_props'), ('per-property validity', BA + ' GettableProperty.assert_valid, Property.assert_valid'), ('nested instances', IN + ' Instance.assert_valid'), ('containers', CT + ' Tuple.assert_valid, Dictionary.assert_valid'), ('unions', UN + ' Union.assert_valid')])

prop('C06', 'Failures during construction and validation are never swallowed',
 "If any keyword fails during construction, or any property or class validator fails during validation, the call raises: with validation errors present it raises a validation error carrying the details of every one of them, after calling the error hook once with those details; otherwise it re-raises the first other error. An unknown constructor keyword raises. A validator returning False counts as a failure (a property whose own check fails with something that is not a validation error ends that validation at once with that error; the error is still never lost).",
 ['inputs', 'programs'], 'every set of failing keywords, properties and validators, in any order, with any mixture of error types',
 'Tests use two to four failing integer keywords; that no error is dropped must hold for every mixture and order.',
 [B, UT], [('constructor', B + ' HasProperties.__init__'), ('validate', B + ' HasProperties.validate'), ('property loop', B + ' HasProperties._validate_props'), ('error details', UT + ' ValidationError')],
 [('_validation_error_tuples', 'errors gathered so far', B), ('_non_validation_error', 'first other error', B)])

prop('C07', 'Recursion guards protect, and are released on every exit',
 "Operations that may re-enter themselves on the same object through self-references or callbacks (construction, validation, serialization, equality, link updates, recursion-stopped methods) detect the re-entry and end it as documented: validation answers True, serialization raises a self-reference error, equality answers False, a link does nothing, a stopped method yields its backup. Whatever way an outer operation ends, return or any exception, the object is left ready for the next call, and a re-entrant call never clears the outer call's mark.",
 ['inputs', 'histories', 'fault_sequences'], 'every exit of every guarded operation, with an exception possible at every call it makes',
 'Tests cover successful exits and a couple of exceptions; release must hold at every possible raising point.',
 [B, LI, UT], [('construction/validation guard', B + ' HasProperties.__init__, validate'), ('serialization guard', B + ' HasProperties.serialize'), ('equality guard', B + ' equal'), ('link guard', LI + ' directional_link._update'), ('decorator guard', UT + ' stop_recursion_with')])

prop('C08', 'Invalid input is always rejected with a ValueError',
 "Validating any value with any built-in property type either returns a value or raises a ValueError (a validation error naming the property and instance where the type itself rejects); it never silently falls through with no result, and conversion or hashing failures of hostile input (overflow, wrong type, unhashable elements, truncated images) do not escape as other exception types. Reporting an error always raises. Unions and containers therefore fall back or report consistently (what a user-defined constructor of an Instance property's class raises is converted for the usual error types only: ValueError, KeyError, TypeError, AttributeError; file-like input is assumed to have the methods of a file).",
 ['inputs'], 'every property type, every input value',
 'Tests try a few bad values per type; which exceptions can escape on all inputs needs a whole-path exception analysis.',
 [BA, MA, CT, IN, UN, IM, UI, WE], [('validate methods of all property types', 'all property modules'), ('error reporting', BA + ' GettableProperty.error; ' + MA + ' Array.error')])

prop('C09', 'Accepted scalars satisfy their declared constraints',
 "A value accepted by a boolean, integer, float, complex, string, choice, colour, date-time or unique-id property has the declared Python type and satisfies every declared constraint: inclusive numeric bounds on the converted value, conversion within tolerance unless casting was requested, regular-expression match, stripping and case as configured, a declared choice (never an alias), three integer colour components from 0 to 255. Conversely a value meeting the constraints is not rejected (NaN, which compares with nothing, is not covered by the bounds).",
 ['inputs', 'configurations'], 'every value and every keyword configuration of the scalar property types',
 'Tests sample a few values and configurations per type.',
 [BA], [('Boolean/Integer/Float/Complex validate', BA), ('String/StringChoice validate', BA), ('Color/DateTime/Uuid validate', BA), ('bounds', BA + ' _in_bounds')])

prop('C10', 'Containers hold validated copies with the declared element types',
 "A tuple, list, set or dictionary property stores a new container, never the caller's object, of the declared container class (or the caller's subclass of it), in which every element, key and value is the result of validating the corresponding input element with the declared element property, none skipped or added, in the same order. A non-container is rejected unless coercion was requested, in which case containers are converted and other values become a single element. Declared minimum and maximum lengths are inclusive and enforced when the instance is validated.",
 ['inputs', 'configurations'], 'every container property configuration and input, any nesting',
 'Tests use short lists of integers; the element-wise guarantee is universally quantified and aliasing is a whole-path property.',
 [CT], [('sequence validation', CT + ' Tuple.validate, List.validate'), ('dictionary validation', CT + ' Dictionary.validate'), ('length', CT + ' Tuple.assert_valid')])

prop('C11', 'Observed containers announce every mutation',
 "With mutation observing requested, the stored list, set or dictionary intercepts every built-in method that mutates such a container; calling one on the current value applies the mutation to a copy and assigns that copy to the property, so validation and notifications run and a rejected mutation leaves the stored value unchanged. In-place operators yield the mutated copy for reassignment. A container no longer held by a property behaves like a plain one, and non-mutating operators keep the container class.",
 ['inputs', 'histories'], 'every built-in mutator of list, set and dict; every attached or detached container',
 'Tests call some mutators; completeness over the interpreter\'s actual method set and the copy-then-set order on every path need static enumeration.',
 [CT], [('mutator tables', CT + ' MUTATOR_CATEGORIES'), ('wrapping', CT + ' add_properties_callbacks, properties_mutator, properties_operator'), ('attachment', CT + ' observable_copy')])

prop('C12', "The library never modifies the caller's data",
 "Validating, assigning, comparing, serializing, deserializing, filtering, copying or configuring properties leaves the values passed in by the caller unmodified (apart from documented hand-over: files and images are read). Class-level defaults, lookup tables and shared registries are not modified through values handed out (values of plain, untyped properties are stored and defaulted by reference; typed containers, arrays and instances are copied as documented).",
 ['inputs', 'histories'], 'every public operation and every argument',
 'Tests rarely look at their inputs afterwards; absence of mutation over all paths is an effect analysis.',
 [BA, MA, CT, IN, UN, B, SI, UI, UT, IM, WE], [('validate/serialize/deserialize/equal of all property types', 'all property modules'), ('instance-level operations', B), ('keyword setters', BA)])

prop('C13', 'Defaults: precedence, freshness and silence',
 "A new instance starts with, for each property, the class-level default if any class in its ancestry declares one (nearest class wins), otherwise the default given to the property, otherwise the property type's own default; undefined means no value. A callable default is called anew for every instance or reset, and defaults are set before the constructor runs without firing callbacks. A class-level default for an unknown property, or one its property rejects, makes class creation fail.",
 ['programs', 'histories', 'configurations'], 'every class hierarchy, default declaration and instantiation or reset',
 'Tests cover one hierarchy and few defaults.',
 [B, BA, UN], [('instance set-up', B + ' PropertyMetaclass.__call__'), ('reset', B + ' HasProperties._reset'), ('class defaults', B + ' PropertyMetaclass.__new__'), ('property default', BA + ' GettableProperty.default; ' + UN + ' Union.default')])

prop('C14', 'Serialization covers exactly the stored state and honours options',
 "Serializing an instance yields an entry for every property that has a value and none for undefined ones, plus the class name exactly when requested; dynamic and other unsaved properties appear only on request. A registered serializer always takes precedence over the built-in conversion, and None serializes to None otherwise (a registered serializer is asked also for None, and an entry whose serializer answers None may be left out). The options given to the outermost call reach every nested instance and container element and every serializer.",
 ['inputs', 'programs', 'configurations'], 'every property type, option combination and nesting',
 'Tests serialize small objects; option forwarding and serializer precedence must hold at every level for each type.',
 [B, BA, IN, CT, UN, SI, UI], [('instance', B + ' HasProperties.serialize'), ('property types', BA + ' GettableProperty.serialize and overrides'), ('static conversions', 'to_json methods')])

prop('C15', 'Deserialization obeys trust, strictness and validity options',
 "Unless the caller says the data is trusted, the class named in the data never changes which class is constructed; trusted data selects only classes in the registry. In strict mode a differing class name or an unknown key raises, and otherwise unknown keys are ignored. The options reach nested instances at every level, a registered deserializer takes precedence, requested validity checking rejects an invalid result, and non-dictionary input is rejected (a union uses the class name in tagged data only to choose among its own declared members).",
 ['inputs', 'configurations'], 'every input dictionary, option combination, nesting and property type',
 'Tests try a few combinations at one or two levels.',
 [B, IN, CT, UN, BA, MA, SI, UI], [('class selection', B + ' HasProperties._deserialize_class'), ('instance', B + ' HasProperties.deserialize'), ('property types', BA + ' GettableProperty.deserialize and overrides'), ('union strictness', UN + ' Union.deserialize')])

prop('C16', 'Equality compares class and every property, and never fails',
 "Two instances are equal only if they are the same object or of the same class with every property equal by its own rule, both unset counting as equal and one unset as different; values that are not instances compare with ==. Property-level equality is tolerant of representation (floats within tolerance, NaN and infinities equal to themselves, sets regardless of order, sequences and dictionaries element-wise with equal size) and answers False rather than raising for values of unrelated types (plain, untyped properties compare with ==; a comparison that re-enters itself through a cycle answers False).",
 ['inputs'], 'every pair of values of every property type and every pair of instances',
 'Tests compare a few pairs; missing properties, mismatched sizes and special floats are not covered.',
 [B, BA, CT, MA, IN, UN], [('instance equality', B + ' equal'), ('property equality', 'equal methods of property types')])

prop('C17', 'A union behaves as its first applicable member',
 "A union tries its member properties in declaration order; validation returns the first success and raises only if every member rejects, and validity checking, serialization and deserialization likewise use the first member that accepts the value (for tagged dictionaries, the instance member of that class name first). A member's failure of any usual error type moves on to the next member. Two values are equal if any member considers them equal.",
 ['inputs', 'configurations'], 'every list of members and every value',
 'Tests use two or three members and a few values.',
 [UN], [('member iteration', UN + ' Union._try_prop_method'), ('serialize/deserialize', UN), ('equality', UN + ' Union.equal')])

prop('C18', 'Instance properties accept, build or reject consistently',
 "An instance property returns an object of its class unchanged (same object), builds one from a keyword dictionary or a single constructor argument, and otherwise, also when the constructor fails with one of the usual error types (ValueError, KeyError, TypeError, AttributeError), raises a validation error carrying nested details. Serialization and deserialization of instance properties delegate to the instance or its class, and for other classes a value that cannot become JSON raises TypeError rather than being altered. A pointer property additionally keeps a valid unique-id string, or replaces it by the loaded object when loading is on and succeeds, and rejects None.",
 ['inputs', 'configurations'], 'every instance class and value',
 'Tests use a few classes and values.',
 [IN, UI], [('instance validation', IN + ' Instance.validate'), ('conversion', IN + ' Instance.serialize, deserialize, to_json, from_json'), ('pointer', UI + ' Pointer.validate, deserialize')])

prop('C19', 'Arrays and vectors satisfy dtype, shape and length',
 "A value accepted by an array or vector property has an allowed dtype kind and, unless any shape is allowed, matches one of the declared shapes in number of dimensions and in every dimension (a star matches any size). Vector properties accept direction names only from the documented tables, two-dimensional ones never vertical ones, and scale accepted values to the declared length, reporting zero vectors as validation errors (any rejection is a ValueError; components are finite). The direction table maps each name to its unit vector, opposite names to opposite vectors.",
 ['inputs', 'configurations'], 'every array property configuration and every input',
 'Tests sample a few shapes, dtypes and names.',
 [MA], [('array validation', MA + ' Array.validate'), ('vectors', MA + ' BaseVector, Vector2/3, Vector2/3Array'), ('table', MA + ' VECTOR_DIRECTIONS')])

prop('C20', 'File and image properties manage their streams correctly',
 "A file property accepts only open, readable, seekable objects in an allowed mode, opens file names only when a mode is configured, and closes the file when the property is deleted. An image property accepts only PNG data, returns an independent in-memory stream positioned at its start and marked as validated, and closes the file it read; a file the library opened itself is closed also when its content is rejected. Serializing an image covers the whole stream whatever its position and leaves it at the start; deserializing requires the PNG data prefix.",
 ['inputs', 'histories'], 'every file-like input and stream position',
 'Tests use one or two files at position zero.',
 [BA, IM], [('file validation', BA + ' File.validate, get_property'), ('image validation and conversion', IM + ' ImagePNG')])

prop('C21', 'Links propagate changes once and only while linked',
 "A directional link, once its source changes, sets its target to the transformed source value; it does nothing while unlinked and resumes when relinked, and updates at creation only if asked. A link of several items creates a directional link for every ordered pair of distinct items and links and unlinks all of them. Malformed items, linking an item to itself, fewer than two items, a non-callable or multi-argument transform, or a transform on a multi-way link are refused.",
 ['inputs', 'histories', 'configurations'], 'every set of items, every sequence of changes, unlinks and relinks',
 'Tests link two or three objects with a few changes.',
 [LI], [('directional link', LI + ' directional_link'), ('multi-way link', LI + ' link')])

prop('C22', 'Renamed properties are transparent aliases',
 "Getting, setting or deleting through a renamed property acts on the new name and nothing else, and issues a deprecation warning first unless warnings are disabled for it. A renamed property pointing to an unknown property makes class creation fail. Data and constructor keywords using the old name set the new property, where that property can be set.",
 ['inputs', 'programs'], 'every renamed property, every operation',
 'Tests exercise one class.',
 [BA, B, UT], [('accessor', BA + ' Renamed.get_property'), ('class check', B + ' PropertyMetaclass.__new__'), ('old names in data', UT + ' filter_props')])

prop('C23', 'Class construction: inheritance, registry and documentation',
 "A class has exactly the properties, observers and validators it declares or inherits along its method resolution order, those overridden by anything else in the class being gone and the nearest definition winning; each property learns its attribute name. Observing an unknown or immutable name, a non-boolean private-documentation flag, or a documentation order that is not a list of all documented properties, is refused. The class is entered under its name in the nearest registry, and its docstring lists each documented property once, as required, optional, other or private.",
 ['programs'], 'every class hierarchy (diamonds, overrides, mixins) and every declaration',
 'Tests define a few hierarchies.',
 [B], [('collection', B + ' build_from_bases'), ('metaclass', B + ' PropertyMetaclass.__new__')])

prop('C24', 'Singletons: one object per name',
 "Within one singleton registry a name identifies one object for the life of the process: constructing with a known name returns the existing object without re-initialising it, and a new object is registered only once it was built successfully. Serializing records the identifying name even if the name property changed. Deserializing returns the existing object for that identity if there is one, and data without an identity is rejected (deserialization into an already registered object changes nothing of the registry; a deserialization that fails after the object was built leaves it registered).",
 ['inputs', 'histories', 'programs'], 'every sequence of constructions, renames, serializations and deserializations',
 'Tests use two or three names.',
 [SI], [('lookup', SI + ' SingletonMetaclass.__call__'), ('identity in data', SI + ' Singleton.serialize, deserialize')])

prop('C25', 'Unique ids stay unique and flat serialization terminates',
 "Assigning or constructing with an id that another live registration uses is rejected, and every constructed or re-identified object is found by its id. Serializing an object graph with unique ids yields one flat dictionary with a root marker in which every reachable object appears once and references are ids, even for cyclic graphs. Deserializing resolves each id once (shared and cyclic references yield the same object), rejects ids neither in the data nor registered and ids already in use, and never alters the input dictionary (ids an object had earlier stay reserved for it; a pointer left as text keeps the id).",
 ['inputs', 'histories'], 'every object graph, including cycles and sharing',
 'Tests use one self-reference and one chain.',
 [UI], [('uniqueness', UI + ' HasUID._ensure_unique, __init__, _update_instances'), ('flat serialization', UI + ' HasUID.serialize'), ('pointer resolution', UI + ' HasUID.deserialize')],
 [('_INSTANCES', 'objects by id', UI)])

prop('C26', 'Tasks run only on valid input and return only valid output',
 "Calling a task builds and validates its input before the computation runs, and passes that object to it. The result must be a task output object and is validated before it is processed and returned; anything else raises a validation error. A status report is validated before it is shown.",
 ['inputs', 'programs'], 'every task class and every call',
 'Tests run a few tasks.',
 [TA], [('call protocol', TA + ' BaseTask.__call__'), ('status', TA + ' BaseTask.report_status')])

prop('C27', 'URL properties accept only absolute URLs and strip what was asked',
 "A URL property accepts only strings with both a scheme and a network location and rejects everything else (malformed text possibly by the URL parser's own ValueError). The stored URL keeps every component of the input, except that parameters and query are dropped when parameter removal is requested and the fragment when fragment removal is requested, independently. Its description is always available as text.",
 ['inputs', 'configurations'], 'every string and option combination',
 'Tests use a few URLs and forget the description.',
 [WE], [('validation', WE + ' URL.validate'), ('description', WE + ' URL.info')])

prop('C28', 'Property configuration is checked before it takes effect',
 "Every keyword of a property type is checked when set: a value of the wrong type or one that conflicts with another keyword (minimum above maximum, duplicate choices, mode not among valid modes, default the property rejects, as far as the conflicting keyword is already in force) raises and leaves the previous configuration in force. Unknown or private keywords are refused at construction. What was configured is what is read back (the lengths of a default container and the types of bounds are not checked; URL and pointer flags are coerced to boolean-like use; containers given for shape or dtype are kept by reference).",
 ['inputs', 'configurations'], 'every keyword of every property type, every value and order of setting',
 'Tests try some wrong values at construction; the check-before-store order on all paths of all setters is structural.',
 [BA, CT, IN, UN, MA, IM, LI, HA, UI, WE], [('keyword setters', 'all property modules'), ('keyword acceptance', BA + ' GettableProperty.__init__')])

prop('C29', 'JSON writers and readers of each type agree on the format',
 "For each property type with its own JSON form, what its writer can produce is a form its reader understands, and both name the same components: date-times use one format, colours and arrays lists, unique ids and complex numbers their text, non-finite floats their text, images one prefix and encoding, instances of id-carrying and singleton classes the same marker keys (the documented formats carry no microseconds or time zone of a date-time and no shape of an empty array).",
 ['inputs'], 'every property type with its own conversion pair',
 'Tests round-trip a few values; agreement of formats is a fact about two tables in the code.',
 [BA, MA, IM, IN, SI, UI, B], [('to_json/from_json pairs', 'property modules'), ('marker keys', B + ', ' + SI + ', ' + UI)])

prop('C30', 'Copies are rebuilt objects of the same class, defaulting to full fidelity',
 "Copying accepts only property-holding instances and produces its result by serializing and deserializing with the same options on the instance's own class, with class names included and trusted unless the caller says otherwise. It never returns state shared by reference unless a serializer does. The same options are used in both directions.",
 ['inputs', 'configurations'], 'every instance and option combination',
 'Tests copy two or three objects.',
 [B], [('copy', B + ' copy')])

prop('C31', 'Round trip preserves values',
 "Deserializing the serialized form of a valid instance gives an instance equal to it, for every property type whose values are JSON-representable.",
 ['inputs'], 'every valid instance', 'Tests round-trip a few objects.',
 [B, BA, MA, CT], [('serialize/deserialize', B)])

prop('C32', 'Coercion is idempotent',
 "Validating an already validated value returns an equal value, for every property type and configuration.",
 ['inputs', 'configurations'], 'every type, configuration and value', 'Tests re-validate a few values.',
 [BA, MA, CT], [('validate methods', BA)])

prop('C33', 'Linked values converge',
 "After any change to one of several mutually linked properties, all of them hold the same value, whatever the order of links and the coercions of the properties involved.",
 ['histories'], 'every link graph, coercion and change', 'Tests link a few compatible properties.',
 [LI], [('link', LI + ' link')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p, sort_keys=True) + '\n')
    print(len(P), 'properties')

"""Writes ../properties.jsonl (kept as a script so that the list is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['typedload/'+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where='typedload/'+w) for n, w in mech],
            observe_at=list(observe) or ['typedload.load', 'Loader.load'], hook_needed=None)))
L, D, E, T = 'dataloader.py', 'datadumper.py', 'exceptions.py', 'typechecks.py'

p('C01', 'A loaded value always conforms to the requested type',
  'For every supported type and every input value, under any combination of the documented loader settings, loading either raises an exception or returns a value that is an instance of the requested type at every depth: right container class, right element types, right object class with every field of its declared type, an allowed literal, a member of the enum, a member of the union. It is never a partially converted or unconverted value. (A value whose type is a subclass of a basic type, such as True for int, counts as an instance of it inside of a container.)',
  ['inputs', 'configurations'], 'all types of a bounded grammar (depth 2 quick, 3 thorough) x all documents within k edits of a well formed document x casting/extra-field/union-debug settings',
  'The tests load a few dozen hand written (value, type) pairs; the guarantee is over every type the annotations can compose and every malformed document.',
  [L], [('per-type load functions selected by ordered conditions', L), ('fast paths that skip the element loaders for basic types', L)])
p('C02', 'Loading gives exactly the documented result, compositionally',
  'Whether an input is accepted, and the value it produces, are those of the documented rules applied recursively: a container or object is loaded by loading each element with its element type, in order, with no element lost, duplicated, moved or left unconverted, and it is rejected exactly when one of its parts is rejected or its own shape is wrong. A basic value of the wrong type is converted as by calling the basic type when casting is on.',
  ['inputs', 'configurations'], 'all types of a bounded grammar x all documents within k edits of a well formed one x settings, against an independent reference interpreter of the documented rules',
  'Tests check chosen examples of each type separately; nothing checks that the many shortcuts for particular type combinations agree with the plain recursive meaning.',
  [L], [('load functions for every kind of type', L), ('shortcuts for basic element types, unions of basic types, cached handlers', L)])
p('C03', 'What is dumped loads back to an equal value',
  'For every value that is well typed for a supported type, loading its dump with the same type gives back an equal value, whether or not default values are hidden, whatever the name mangling key and the date format, and also when the loader is strict about casts and about extra fields. It holds for NamedTuple, dataclass, attrs and TypedDict objects with defaults, factories, renamed, computed and private fields, nested in any way, as long as a union is not ambiguous for the dumped data.',
  ['inputs', 'configurations'], 'all types of a bounded grammar x all bounded inhabitants x dumper settings x loader settings',
  'The tests round-trip five values; a field kind or nesting whose dump is not loadable is only seen if that exact combination is tried.',
  [L, D], [('dumping of objects, skipping defaults and renaming fields', D), ('loading of objects', L)], observe=['typedload.dump', 'typedload.load'])
p('C04', 'Every failed load raises a typedload exception',
  'Loading any value (plain data of any shape, non-finite or huge numbers, unhashable or odd keys, iterators that fail midway, objects of unrelated classes) into any supported type (short of exhausting the stack of the interpreter) never lets another kind of exception out: it returns or it raises TypedloadException or a subclass. This includes errors raised by constructors, post-init hooks and converters of the loaded classes, at any depth and inside unions, where the remaining alternatives are still tried. The exception can always be rendered as a string.',
  ['inputs', 'fault_sequences'], 'all types of the grammar x hostile values at every position x constructors/converters raising each kind of exception at every call',
  'An AssertionError or raw OverflowError appears only for specific malformed inputs that no example-based test thought of.',
  [L, E], [('translation of exceptions in each load function', L), ('assertion that only typedload exceptions pass', L)])
p('C05', 'Errors point at the data that is wrong',
  'When a load fails, following the annotations of the exception trace from the root of the data leads to a part of the data that really cannot be loaded into the type required there; the exception carries that value and that type, and the field names and indexes appear in the path of its message. When alternatives of a union failed, the nested exceptions locate the failure of each alternative in the same way.',
  ['inputs', 'configurations'], 'all types of the grammar x all documents with one or two defects at every position x settings',
  'Tests check the last annotation for about ten failures; a wrong index or lost trace shows only for particular nestings and positions.',
  [L, E], [('trace items inserted while the exception propagates', L), ('index recovered from a shared counter', L), ('path rendering', E)])
p('C06', 'With casting disabled no basic value is converted',
  'With basiccast disabled, an int, float, bool, str or None is accepted where a basic type is expected only if it already has that type, everywhere in the data: at top level, in containers, dictionary keys and values, object fields, tuple items and union members, and is returned unchanged. Consequently data accepted by the strict loader is accepted by the casting loader with the same result, unless a union could be satisfied in another way. (bool as int inside of a container is unspecified.)',
  ['inputs', 'configurations'], 'all types of the grammar x all documents within k edits, each loaded strictly and leniently',
  'Strictness is tested for a handful of types; each shortcut could forget about it.',
  [L], [('basic type loader and the fast paths around it', L)])
p('C07', 'Required and unknown data are checked at every depth',
  'An object is accepted only if all the fields without a default are present in the data, at any depth. With failonextra, data that would be ignored is an error at any depth: unknown keys of any object kind, Python names of renamed fields, extra items of a fixed size tuple; without it such data changes nothing in the result.',
  ['inputs', 'configurations'], 'all object kinds and field kinds x all subsets of the fields x extra keys (also non-string) at every level x both settings',
  'Tests try one missing and one extra key at top level.',
  [L], [('field set comparison', L), ('name mangling drops python names', L), ('tuple length check', L)])
p('C08', 'Unions select a fitting member and fail only if all members fail',
  'A value of a basic type that is a member of the union is returned unchanged; otherwise the result is the load of the value into one of the members, with basic types considered only if no other member accepts the value, and with the member whose Literal tag matches preferred. The load fails exactly if every member rejects the value, and then the exception lists one nested exception per member. The result does not depend on what the union is nested in.',
  ['inputs', 'configurations'], 'all unions of up to 3 members of a pool with basic types, containers, enums, tagged and untagged objects x documents x settings x nesting contexts',
  'Which member is chosen depends on the combination of members, on the data and on the context; tests cover about ten combinations.',
  [L, T], [('basic type shortcut', L), ('member ordering and literal discriminator', L), ('list of unions of basic types shortcut', L)])
p('C09', 'Union debugging reports exactly the ambiguous loads',
  'With uniondebugconflict enabled, loading into a union data that more than one member accepts fails with a type error, wherever the union is (a member of an enclosing union that fails in this way does not accept the data). A load in which no union is ambiguous gives the same result or error as without the option, and a basic value that is itself a member of the union is not ambiguous.',
  ['inputs', 'configurations'], 'same unions and documents as C08, with the option on and off',
  'The single test checks one ambiguous union at top level.',
  [L], [('counting of the members that load', L)])
p('C10', 'Field renaming is applied consistently in both directions',
  'For dataclass and attrs fields with a name in their metadata, only the mangled name is used in the data: it is the one read when loading and written when dumping, for any mapping including swaps and chains of names, and for any choice of the metadata key. The Python name of a renamed field is then treated as unknown data, and fields with no name for the chosen key keep their own name.',
  ['inputs', 'configurations'], 'all assignments of names from a 4 name pool to 1-3 fields x data with every subset of the pool x mangle keys x extra field setting, load and dump',
  'Tests check one rename and one swap.',
  [L, D], [('renaming before object loading', L), ('renaming while dumping', D)], observe=['typedload.load', 'typedload.dump'])
p('C11', 'Loading does not alter its inputs and shares no mutable data with them',
  'Loading, successful or not, does not modify the data passed, the types passed (their annotations, defaults, enum members), nor the settings of the loader. The result contains no list, dict or set object that belongs to the input data or to a previous result, except below Any.',
  ['inputs', 'histories'], 'all types of the grammar x documents within one edit x settings; snapshots of data, types and settings before and after each load',
  'Tests compare results, not what else changed.',
  [L], [('copying while loading', L), ('type hints taken from the class', L)])
p('C12', 'Dumping yields fresh plain data and does not alter the object',
  'The dump of a well typed value (basic values are of exactly their type) consists only of dict, list and values of the basic types (bytes for a bytes pattern), can be modified without affecting the dumped object, and the object, its class and its class defaults are unchanged. Dumping is deterministic: dumping again gives an equal result.',
  ['inputs', 'configurations'], 'all types of the grammar x inhabitants x dumper settings',
  'Tests compare ten dumps by equality only, which cannot see aliasing or a str subclass.',
  [D], [('iterables of basic types are copied instead of dumped', D)], observe=['typedload.dump', 'Dumper.dump'])
p('C13', 'A reused loader behaves like a new one',
  'The outcome of a load depends only on the value, the type and the settings of the loader: whatever sequence of loads, successful or failed, of the same or of other types, was done before with the same loader, the result or the error is the one a new loader gives. The exception is the documented resolution of forward references by name.',
  ['histories'], 'all histories over an alphabet of loads (colliding class names, equal types, failing loads, all kinds of type), explored breadth first to a fixpoint of the loader state',
  'Tests use new loaders or load once or twice.',
  [L], [('caches of handlers, object fields and discriminators', L)], state=[('loader caches', 'handlers, fields, discriminators and known names per type', 'typedload/dataloader.py Loader')])
p('C14', 'A reused dumper behaves like a new one',
  'The outcome of a dump depends only on the value and the settings of the dumper, whatever was dumped before with the same dumper, successfully or not.',
  ['histories'], 'all histories over an alphabet of dumps (colliding class names, subclasses, defaults, failing dumps), explored breadth first to a fixpoint of the dumper state',
  'Tests use new dumpers or dump few values.',
  [D], [('caches of handlers and of dataclass defaults', D)], state=[('dumper caches', 'handler per class, fields and defaults per dataclass', 'typedload/datadumper.py Dumper')], observe=['Dumper.dump'])
p('C15', 'Loader and dumper objects are independent of each other',
  'Creating, configuring, extending or using one loader or dumper never affects the behaviour of another one, nor of the module level load and dump functions, which behave as a new object with the given settings. This holds for any order of creation and use.',
  ['histories', 'configurations'], 'all interleaved histories over several differently configured loaders and dumpers and the module functions',
  'Tests never use two differently configured objects alternately on the same types.',
  [L, D, '__init__.py'], [('all settings and caches belong to the instance', L), ('all settings and caches belong to the instance', D)], observe=['typedload.load', 'typedload.dump', 'Loader', 'Dumper'])
p('C16', 'A loader or dumper can be shared between threads',
  'When several threads use the same loader or dumper at the same time, each call returns or raises what it would when run alone, for every interleaving of the threads, also when the calls are the first ones for their types.',
  ['schedules'], 'all interleavings of two threads (three in thorough) at line granularity within the library up to a preemption bound',
  'Tests are single threaded.',
  [L, D], [('caches are filled in an order that other threads can observe', L), ('caches are filled in an order that other threads can observe', D)], observe=['Loader.load', 'Dumper.dump'])
p('C17', 'Custom handlers are honoured everywhere and in list order',
  'The first handler in list order whose condition is true for a type (for a value, when dumping) decides, for any list of handlers, and it is used wherever a value of a type that is not basic is loaded and wherever any value is dumped: top level, element, key, value, field, tuple item, union member, enum hint, and from inside other handlers. A condition that raises counts as false if raiseconditionerrors is disabled and otherwise its error is raised; types with no handler are a type error when loading, values with no handler are a value error when dumping.',
  ['configurations', 'inputs'], 'all insertions of up to 2 custom handlers at all positions x contexts of the type x settings, for loaders and dumpers',
  'Tests use a custom handler at top level only.',
  [L, D], [('ordered handler lookup', L), ('ordered handler lookup', D), ('direct use of cached handlers by containers', L)], observe=['Loader.load', 'Dumper.dump', 'index'])
p('C18', 'Equivalent ways to write a type behave the same',
  'Typing aliases and builtin generics, Optional, Union and the | operator, nested and flattened unions, None and its type, class syntax and functional syntax for the same type load any data with the same outcome.',
  ['inputs', 'configurations'], 'all pairs of spellings of the types of the grammar x documents within one edit x settings',
  'Tests use one spelling for most types.',
  [T, L], [('type predicates', T)])
p('C19', 'All iterables load like the list of their items',
  'Loading a list, variable size tuple, set or frozenset from any iterable (list, tuple, generator, iterator, range, deque, dict view, custom iterable) gives the same outcome as from the list of its items, at the same index for errors; so does a fixed size tuple, from anything that also has a length; a one-shot iterator is consumed in order and exactly once, and never beyond the first wrong item. An iterator that raises midway makes the load fail, for any position and any exception.',
  ['inputs', 'fault_sequences'], 'all element types of a pool x item sequences up to length 4 x kinds of iterable x failure point and failure kind',
  'Tests use one generator of three items.',
  [L], [('lazy iteration with a counter', L)])
p('C20', 'Recursive and forward referenced types resolve',
  'A class that refers to itself or to an enclosing class by name can be loaded at any depth of data and wherever the class occurs (top level, item of a container, field of an object, union member), with the same result as the non recursive unrolled type. Names are resolved with the names given by the user first, then with the classes encountered; an unknown name or disabled resolution is a typedload exception.',
  ['inputs', 'histories'], 'all object kinds x shapes of recursion x contexts x documents up to depth 4, and histories of loads',
  'Tests load one recursive class at top level.',
  [L], [('known names dictionary', L)], state=[('frefs', 'names to types', 'typedload/dataloader.py Loader.frefs')])
p('C21', 'Hiding defaults removes exactly the fields equal to their default',
  'When defaults are hidden, a dump contains exactly the fields whose value differs from their default or that have none, at every depth; when they are not hidden it contains all the fields. This is so for plain defaults, factories and factories that take the object, for NamedTuple, dataclass and attrs, and does not depend on previous dumps.',
  ['inputs', 'configurations'], 'all object kinds x default kinds x values equal/different/equal-but-not-identical/falsy for 1-3 fields x setting',
  'Tests check one default of each kind.',
  [D], [('comparison with defaults', D)], observe=['typedload.dump'])
p('C22', 'Absent fields get their own fresh default',
  'A field that is absent from the data takes the default of its class, with factories called once per loaded object and never shared between objects or loads, and default values are passed through without being loaded; a field that is present is never replaced by the default, also if it is None, empty or false. Fields computed by the class are never taken from the data.',
  ['inputs', 'histories'], 'all object kinds x default kinds x all subsets of present fields x values incl. falsy ones x repeated loads',
  'Tests load an empty dictionary once.',
  [L], [('the constructor is called only with the fields that are present', L)])
p('C23', 'Type predicates classify every type correctly',
  'Each public type predicate is true exactly for the types it documents, for every supported type in every spelling and for non-types, and the helper functions return the members of unions, literals and optional keys exactly.',
  ['inputs'], 'all types of the grammar in all spellings plus a pool of non-types x all predicates',
  'Tests check a few positive and negative examples each.',
  [T], [('predicates', T)], observe=['typedload.typechecks'])
p('C24', 'argparse.Namespace is equivalent to a dictionary',
  'Wherever a dictionary is loaded into an object or a Dict, an argparse.Namespace with the same content gives the same outcome, at any depth and with any attribute names, if dictequivalence is enabled, and is rejected if it is disabled.',
  ['inputs', 'configurations'], 'all object kinds and Dicts of the grammar x documents within one edit with every subset of dictionaries replaced x settings',
  'Tests load two flat namespaces.',
  [L], [('conversion before loading', L)])
p('C25', 'Scalar types keep their value through their text or number form',
  'Dates, times, datetimes with or without timezone, timedeltas, paths, IP addresses/networks/interfaces, UUIDs and patterns load from their documented forms to the value that form denotes, and every value dumps to a form that denotes exactly that value; forms that denote no value are rejected. A pattern is accepted only from the text type that its argument requires.',
  ['inputs', 'configurations'], 'boundary values of every component and all single-component variations, plus malformed forms, in every format',
  'Tests check a handful of values each.',
  [L, D], [('date, timedelta, pattern and string constructed loaders', L), ('date, timedelta, pattern and string dumpers', D)], observe=['typedload.load', 'typedload.dump'])
p('C26', 'Type hints used to speed up dumps do not change them',
  'Dumping a well typed value (basic values are of exactly their type) gives the same data with or without the type hint for it, for the top level value and for fields of dataclasses whose annotations are resolvable, forward references, missing or inherited, also when the handler for basic types was replaced.',
  ['inputs', 'configurations'], 'all types of the grammar x inhabitants x with/without hint x dumpers with replaced handlers',
  'Tests never pass the hint.',
  [D], [('shortcut for iterables of basic types', D), ('hints of dataclass fields', D)], observe=['Dumper.dump'])
p('C27', 'attrs converters receive what their signature asks for',
  'For an attrs field with a converter the value is loaded into the type of the parameter of the converter, or passed as is if there is no such type, and then the converter is applied once by the class; the declared type of the field is ignored. This holds for any callable and any set of hints, at any depth, and failures of the converter are load failures.',
  ['inputs', 'programs'], 'all converter kinds (typed, partially typed, untyped functions, classes, builtins, partials, callable objects, pipes) x values x contexts',
  'Tests use three converters.',
  [L], [('inspection of the converter', L)])
p('C28', 'Enums load by value first, then by their declared value types',
  'A value loads into the enum member with that value; failing that, the value is loaded into each of the value types annotated in the enum and the first that gives the value of a member is used; otherwise the load fails. Loading the dump of a member gives that member.',
  ['inputs', 'configurations'], 'enums with all combinations of a pool of values, aliases and hints x all values of a pool x settings x contexts',
  'Tests use three enums.',
  [L, D], [('enum loading', L), ('enum dumping', D)])
p('C29', 'Loading and dumping are uniform in size and position',
  'The outcome for a container or object does not depend on how many elements it has nor where a particular element is: for every length up to the bound and every position of a wrong, convertible or special element, the result, the index reported and the dump are those given by the rules for one element.',
  ['inputs'], 'every container kind x every length up to a bound x every position of the odd element, plus deep nesting and wide objects',
  'Tests use containers of at most 33 elements and two levels.',
  [L, D], [('lazy iteration with a counter', L), ('list copy shortcut', D)], observe=['typedload.load', 'typedload.dump'])
p('C30', 'A failure at any point leaves loader and dumper usable',
  'If user code called during a load or dump (constructor, post-init, converter, factory, handler, condition, iterator, property) raises at any of its calls, however many times, or itself uses the same loader or dumper, or if the operation is interrupted at any point (a signal handler that raises, the stack running out), later and enclosing operations give the same outcome as if that had not happened. (With raiseconditionerrors disabled an error of a condition is not a failure, it means that it does not match.)',
  ['fault_sequences', 'histories'], 'every call of user code in a set of scenarios made to fail (one and two faults, and the same one many times) or to re-enter, and every line of the library interrupted, followed by every scenario again',
  'Tests do not use a loader again after a failure inside of user code.',
  [L, D], [('caches are filled before user code runs', L), ('caches are filled while user code runs', D)], observe=['Loader.load', 'Dumper.dump'])
p('C31', 'Deferred annotations load like evaluated ones with pep563',
  'For module level NamedTuple, dataclass and TypedDict classes whose annotations Python resolves to the same types when they are evaluated later (typing.get_type_hints), defining them with deferred evaluation of annotations and loading with pep563 enabled gives the same outcome as the same classes with evaluated annotations, and they dump equally. (Except which one is taken where more than one member of an union fits.)',
  ['programs', 'inputs'], 'the object types of the grammar generated twice as modules, with and without deferred annotations x documents within one edit x settings',
  'Tests load four values.',
  [L, D], [('type hints evaluated when requested', L)], observe=['typedload.load', 'typedload.dump'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for i in P: f.write(json.dumps(i) + '\n')
print(len(P))

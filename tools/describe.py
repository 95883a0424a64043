#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: seeded search over simulated runs, '

# id: (title, statement, over, quantifier text, why tests can't, files, mechanisms, technique detail, level note)
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, how, note):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, how=how, note=note)


prop('P01', 'A field holds the last valid value assigned, and its watchers hear so',
     'Reading a field of a node gives the last valid value assigned to it, in the canonical form of the field\'s type, or else the field\'s default; a value which is invalid or fails while being converted raises an error, changes nothing and notifies nobody. '
     'Every assignment through the attribute (or with notification asked for) notifies each watcher of that field of that node exactly once, with the stored value, after it has been stored; deleting a value brings the default back and notifies likewise, and reading or assigning without notification notifies nobody. '
     'This holds whatever order assignments, deletions, failing conversions, failing watchers and assignments made by watchers come in, for every field type and in the accelerated and the pure implementation alike.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'all histories of assignments, deletions, reads and watcher registrations over nodes of every field type, with conversions failing at any element, watchers raising or assigning in turn, in both implementations',
     'The tests assign a handful of values once and read them back; none has a conversion fail half way, a watcher fail or assign in turn, or runs the same history on both implementations.',
     ['vrml/field.py', 'vrml/fieldtypes.py', 'accelerate/src/fieldaccel2.pyx', 'vrml/protofunctions.py', 'vrml/node.py', 'vrml/csscolors.py'],
     [('convert, store, then notify', 'BaseField._set/__set__/fset/_del in field.py and fieldaccel2.pyx'), ('canonical forms', 'coerce methods in fieldtypes.py')],
     'histories of field operations against a reference model of the fields',
     'Sampled histories, not all; half of the runs use the accelerated implementation, half the pure one.')
prop('P02', 'A field\'s value belongs to that field of that node alone',
     'Changing in place an object which was assigned to a field, or a value read from another node, another field, a copy or the type\'s default, never changes what a field holds, and two nodes never come to share a stored mutable value, whether through defaults, assignment, copying or routes. (Arrays of an explicitly structured dtype are stored as given, by design.) '
     'A mutable default is always the declared one for each new node, whatever was done in place to the values other nodes got from it.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'all histories of assignments of shared objects, in-place changes to them, to read values and to defaults, of copies and of routed values, in both implementations',
     'Aliasing shows only when objects are shared and then changed in place; the tests use fresh literals and never change a value afterwards.',
     ['vrml/field.py', 'vrml/fieldtypes.py', 'vrml/node.py', 'vrml/copier.py', 'vrml/route.py', 'accelerate/src/fieldaccel2.pyx'],
     [('coercion copies what it is given', 'coerce methods in fieldtypes.py'), ('defaults are converted anew for each node', 'getDefault in field.py and fieldaccel2.pyx'), ('copyValue', 'fieldtypes.py')],
     'histories of aliasing and in-place changes against a reference model holding private copies',
     'Sampled histories; values of node-valued fields are shared by design and are out of scope.')
prop('P03', 'An observable list is a list, and announces what enters and leaves',
     'After any history of operations an observable list holds exactly what a plain list would after the same operations, with the same results and errors, also when an iterator it is given fails in the middle or an index is out of range. '
     'Each item which is added by an append, insert, extend, item or slice assignment is announced as new and each which is removed as deleted, to watchers of that list alone; watchers are told of a change made after it is made, and operations that fail or change nothing in the contents announce nothing that did not happen. '
     'This holds when watchers change the list in turn, fail, or the object the announcements are sent for has been collected.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of list operations including ones made from within announcements, with failing iterators and watchers and collection of the sender; repeated items within one slice assignment, and sorting, are exempt from the announcement rule',
     'The tests append and remove a few items; they never change the list from a watcher, fail an iterator, or use slices with steps.',
     ['vrml/olist.py'],
     [('announce on every mutator', 'OList methods'), ('sender held weakly, change signal', '_changeSender in olist.py')],
     'histories of list operations against a plain list and a log of announcements',
     'Sampled histories.')
prop('P04', 'Who watches a child list always knows the current children',
     'A watcher of a child-list field of a node that rebuilds its view from the field whenever it is notified always has the current children once each operation is over, however the list is changed (through the list, by assignment of any acceptable form, or by deletion of the value), and however the list came to be the field\'s value. '
     'A child that enters or leaves by itself is notified of once. A notification is only ever given for the field and node whose list changed, carrying the current list, never for another field of the node, for a list that outlived its node, or for a later node at the same address. '
     'An assignment which is rejected or fails in the middle leaves the children as they were and notifies nobody.',
     ['histories', 'fault_sequences', 'schedules'],
     'all histories of list operations, assignments, deletions, node deaths and address reuse, with watchers which change the list, raise or run the collector; the order of children rearranged within one slice assignment, and sorting, may go unannounced',
     'The tests look at one list of one node which stays alive; address reuse, list replacement and reentrant watchers depend on history and on the collector.',
     ['vrml/node.py', 'vrml/olist.py', 'vrml/field.py'],
     [('list changes are passed on as changes of the field', 'MFNode in node.py'), ('sender and field wiring', '_changeSender in olist.py')],
     'histories of child-list changes with collector runs and simulated address reuse, mirrors compared after every operation',
     'Sampled histories; addresses as id() answers them are simulated in the Python code and the extension modules.')
prop('P05', 'A routed event reaches all its destinations, and cascades end in cycles too',
     'When a field or event which is the source of routes is set, every field reachable through routes whose values its destinations accept holds the (converted) value afterwards, those reached by routes alone notify their watchers of the arrival, and the cascade terminates even if the routes form cycles, delivering to any destination at most once for each route which leaves that source. '
     'A destination which rejects the value keeps its old value, does not pass anything on and does not stop the delivery to others; a route which no longer exists, or whose ends were never complete, delivers nothing. '
     'Independent cascades, also ones started by a watcher within another cascade, do not suppress one another.',
     ['programs', 'histories', 'fault_sequences', 'schedules'],
     'all route graphs (chains of up to fifty steps, as far as the stack allows, fans, diamonds, cycles, fields and events) and all histories of settings, additions and removals of routes, with rejected values and watchers that set further fields; delivery into lists of nodes may be repeated',
     'The tests have a few routes in a row; cycles, diamonds, failing conversions within a fan and nested cascades depend on the graph and on the order of delivery.',
     ['vrml/route.py', 'vrml/event.py', 'vrml/field.py', 'vrml/vrml97/scenegraph.py'],
     [('visited destinations are remembered per cascade', 'ROUTE._forward and Event.visited'), ('scene graph keeps routes alive', 'SceneGraph.routes and addRoute')],
     'random route graphs and cascades against reachability computed on the graph',
     'Sampled graphs of up to a dozen fields.')
prop('P06', 'A cached value is never served stale, nor to another client',
     'Asking the cache for the data of a client under a key gives what was last stored for that client and key, unless one of its dependencies (a field of a node set, deleted or routed to, or a node it needs which died) has changed since, in which case it gives nothing; it never gives data that was stored for another client, key or cache, or for an object that has died, even when a new object has the address of the dead one. '
     'When a client dies its entries leave the cache, and invalidation affects precisely the entries which depend on what changed.',
     ['histories', 'schedules', 'fault_sequences'],
     'all histories of storing, depending, changing fields, dropping clients, dependencies and caches, collector runs at any point and reuse of addresses',
     'Address reuse and the moment of collection are up to the allocator and the collector in a test; here the simulator decides both.',
     ['vrml/cache.py'],
     [('clients are held weakly, cleaned from the cache on death', 'CacheHolder, cleaner'), ('dispatcher connections clear the data', 'CacheHolder.depend/clear/__call__')],
     'histories of cache use with collector runs and simulated address reuse against a model keyed by identity',
     'Sampled histories; addresses are simulated.')
prop('P07', 'The matrix of a path always reflects the current transforms along it',
     'The matrix a path gives, forward or inverse and with any selection of translation, scale and rotation, always equals the product of the transforms as the fields of the nodes along the path are at that moment, and the inverse is its inverse, whatever was asked before, by whatever other paths through the same nodes. '
     'This holds after any history of setting, deleting and routing transform fields, extending, sharing and dropping paths and collecting garbage, and after a computation that failed in the middle: asking again gives the right matrix. '
     'The functions which make the matrices of such values directly agree with it.',
     ['histories', 'inputs', 'fault_sequences', 'schedules', 'configurations'],
     'all histories of field changes, path extensions and queries with all flag combinations, with failures injected at any line of the matrix computation, collector runs, and address reuse; zero scales and zero rotation axes are exempt',
     'Stale caches need a particular order of queries and changes; the tests compute a few matrices on fresh nodes.',
     ['vrml/vrml97/nodepath.py', 'vrml/vrml97/transformmatrix.py', 'vrml/vrml97/_transformmatrix.py', 'vrml/vrml97/_transformmatrix_accel.py', 'accelerate/src/tmatrixaccel.pyx', 'vrml/vrml97/nodetypes.py', 'vrml/cache.py'],
     [('cached per path and per node with dependencies on the fields', 'transformMatrix in nodepath.py, localMatrices in nodetypes.py')],
     'histories of queries and changes with injected computation failures against independently computed matrices',
     'Sampled histories; comparison within a tolerance of 1e-4 relative, well above rounding in 32 bits.')
prop('P08', 'Weak containers hold what is alive, in order, and nothing else',
     'A weak list holds exactly those of the items put into it which are still alive, in list order, and behaves as a plain list of them under every operation, whenever the collector runs in between or within an operation; it never keeps an item alive, never gives a dead one, and a death never removes another item. '
     'A weak tuple gives its items while all are alive and raises a reference error once one it touches has died, and the weak-key dictionary maps exactly its living keys.',
     ['histories', 'schedules'],
     'all histories of container operations interleaved with deaths of items and collector runs at any line of the operations',
     'When a weak reference dies is up to the reference counts and collector; the tests never let an item die within an operation.',
     ['vrml/weaklist.py', 'vrml/weaktuple.py', 'vrml/weakkeydictfix.py', 'vrml/nodepath.py'],
     [('dead references remove themselves', 'WeakList wrap/remover'), ('checked dereference', 'WeakTuple.unwrap')],
     'histories of container operations with items dying at chosen points, against plain containers of the living items',
     'Sampled histories and collection points.')
prop('P09', 'Instances of a prototype are independent, and IS works both ways',
     'Each instance of a prototype has an implementation of its own, so that changing a field of an instance changes the mapped fields of the nodes in its own implementation, and setting such a mapped inner field changes the instance\'s field, with no effect on any other instance, on the prototype or on its later instances. '
     'A new instance has the declared defaults, both in its own fields and in the mapped inner fields, at every level of nesting of prototypes, and routes within the implementation work within each instance. What an instance gives as its rendered children are the nodes of its own implementation, or those of the types asked for.',
     ['programs', 'histories', 'schedules'],
     'all prototype declarations (nested, several mappings of one field, inner routes) and histories of creating, changing, copying and dropping instances',
     'Interference shows only between several instances after several changes; the tests make one instance of a few prototypes.',
     ['vrml/node.py', 'vrml/route.py', 'vrml/copier.py', 'vrml/protofunctions.py', 'vrml/vrml97/parseprocessor.py'],
     [('each instance copies the template and binds its own IS routes', 'PrototypedNode.instantiate'), ('two-way forwarding', 'IS.forward')],
     'random prototypes, built directly and by parsing, under histories of changes against a model of each instance',
     'Sampled programs and histories.')
prop('P10', 'A saved scene reads back as the same scene, whatever was edited before',
     'Writing a scene as text and reading the text back gives an equal scene: the same nodes, names, field values, sharing of nodes by USE, routes between them, prototypes with their fields, events, defaults, implementations and mappings, and scripts, and writing it again gives an equal scene once more. '
     'This holds for scenes reached by any history of parsing, building, editing, copying and deleting, and for single nodes; writing a scene does not change it, beyond giving names to nodes which its routes need, also when the writing fails.',
     ['programs', 'histories', 'inputs'],
     'all scenes whose names are unique and whose values the text format can express, after any history of edits; formatting options included',
     'The tests read a few files and write a few nodes; round trips depend on combinations of node types, values, names and edits.',
     ['vrml/vrml97/linearise.py', 'vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/fieldtypes.py', 'vrml/field.py', 'vrml/vrml97/scenegraph.py', 'vrml/vrml97/script.py'],
     [('writes each node once with DEF, then USE', 'Lineariser in linearise.py'), ('grammar and its processor', 'parser.py, parseprocessor.py')],
     'histories of edits with save and reload as crash and restart: only the text survives, then the scene is compared with the model and edited on',
     'Sampled scenes and histories; types without a text form are exempt.')
prop('P11', 'Reading and writing sessions do not disturb one another',
     'Scenes parsed and written at the same time, in any number of threads interleaved in any way, give the same scenes and the same texts as when each is done alone, whatever their prototypes, names and formatting options are. '
     'A session which fails or is abandoned at any point (a malformed text, a text cut short, an output that fails or accepts only part) leaves no trace in any other session, before, meanwhile or after.',
     ['schedules', 'crash_points', 'fault_sequences', 'programs'],
     'all interleavings of parsing, writing and resolving prototypes in several threads at line granularity, with failures injected at any line and at any write',
     'The interleaving of threads is up to the operating system in a test; none runs two sessions at once or fails one in the middle.',
     ['vrml/vrml97/linearise.py', 'vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/protonamespace.py', 'vrml/vrml97/basenamespaces.py', 'vrml/node.py'],
     [('state per processor and per lineariser', 'ParseProcessor and Lineariser instances')],
     'simulated threads switched at every line by a seeded scheduler, with failures at chosen lines and writes, against each session run alone',
     'Real threads of which precisely one runs at a time, switched at lines of the library; the parser library\'s own C code is not preempted.')
prop('P12', 'Names in a scene find the node which carries them',
     'Looking up a DEF name in a scene gives the node that last registered it as long as it is alive, and nothing for a name that was never given; nodes parsed in or added under the scene by assigning to their fields register their names, and a name never finds a node of another scene unless it was added to both. '
     'Registering, renaming and dropping nodes, in any order and with the collector running at any point, never makes a lookup fail with another error or give a dead or unrelated node.',
     ['histories', 'schedules', 'programs'],
     'all histories of parsing, registering, renaming, assigning and dropping nodes with collector runs',
     'The tests look up one name in a fresh scene.',
     ['vrml/vrml97/scenegraph.py', 'vrml/node.py', 'vrml/protofunctions.py', 'vrml/vrml97/parseprocessor.py'],
     [('registry of names', 'SceneGraph.regDefName/getDEF'), ('registration on joining a scene', 'RootScenegraphNode.fset')],
     'histories of registrations against a model of the registry',
     'Sampled histories.')
prop('P13', 'A copy equals its original, and shares nothing with it',
     'Copying a node copies every node reachable through its fields exactly once, so that the copy has the same values, names, sharing, cycles and inner routes as the original while no node of it is a node of the original (but the NULL node), and copying leaves the original unchanged. '
     'Afterwards no change to either side, through fields, child lists, in-place changes or routes, is seen on the other.',
     ['programs', 'histories', 'fault_sequences'],
     'all node graphs with sharing, cycles, prototypes, routes and NULL, and all histories of changes to original and copy',
     'The tests copy a few single nodes; sharing, cycles and routes matter only in larger graphs and after later changes.',
     ['vrml/node.py', 'vrml/copier.py', 'vrml/route.py', 'vrml/field.py', 'vrml/fieldtypes.py', 'vrml/vrml97/scenegraph.py'],
     [('memo of copied nodes', 'Copier'), ('copyValue of each field type', 'field.py, fieldtypes.py, node.py')],
     'random graphs and histories of changes on both sides against a model, with failures injected while copying',
     'Sampled graphs and histories.')
prop('P14', 'The accelerated and the pure implementations behave the same',
     'The same history of operations gives the same results, notifications, stored values and errors of the same kind whether the accelerated extensions are installed or not, for field storage and conversion, transform matrices and projection matrices of non-degenerate volumes.',
     ['configurations', 'histories', 'inputs'],
     'all histories of operations run in lock step on both implementations, floating point results compared within rounding',
     'The tests run with whichever implementation is installed, so never compare the two.',
     ['accelerate/src/fieldaccel2.pyx', 'accelerate/src/tmatrixaccel.pyx', 'vrml/field.py', 'vrml/fieldtypes.py', 'vrml/vrml97/_transformmatrix.py', 'vrml/vrml97/_transformmatrix_accel.py', 'vrml/arrays.py'],
     [('two implementations of one interface', 'field.py and fieldaccel2.pyx, _transformmatrix.py and _transformmatrix_accel.py/tmatrixaccel.pyx')],
     'two worlds in one process, with and without the extensions, driven by one schedule and compared event by event',
     'Sampled histories; neither implementation is taken as right, so a fault both share is left to the other properties.')
prop('P15', 'Invalidating a path breaks it and all that extends it, and nothing else',
     'When a path is invalidated, it and every living path which extends it, at whatever depth, is marked broken, and every other path stays as it is. '
     'The children a path enumerates are exactly the living paths made by extending it, each once and in order, its descendants are at least these and theirs and only ever paths which extend it, whatever was dropped and collected before or in the middle of the enumeration, and neither extending a path nor enumerating keeps those alive which extend it.',
     ['histories', 'schedules'],
     'all trees of paths and histories of extending, invalidating, dropping and enumerating with collections at any step',
     'Depth and the moment of collection matter; the tests invalidate one path of one child.',
     ['vrml/vrml97/nodepath.py', 'vrml/nodepath.py'],
     [('weakly held children', '_NodePath.__add__/iterchildren/iterdescendents/invalidate')],
     'histories of path operations with collections placed within them, against a model tree',
     'Sampled histories.')
prop('P16', 'Nodes know the scene they belong to, and do not keep it alive',
     'Assigning a node with a subtree to a field of a node that belongs to a scene makes every node of the subtree that had no scene belong to it and registers its names there, while assigning a node that is in a living scene already leaves that scene as its own, for its subtree too. '
     'Belonging to a scene keeps no scene alive: once it is dropped and collected its nodes have no scene, remain usable, and can join another; nor are nodes kept alive which only their having belonged to a scene could hold.',
     ['histories', 'schedules', 'programs'],
     'all histories of building acyclic scenes by assignment, dropping and collecting scenes and nodes',
     'Scenes dying under their nodes never happens in the tests.',
     ['vrml/node.py', 'vrml/field.py', 'vrml/vrml97/scenegraph.py'],
     [('weak root pointer set recursively', 'RootScenegraphNode.fset, _SFNode.fset, MFNode.fset, WeakField')],
     'histories of assignments, drops and collections against a model of membership',
     'Sampled histories; nodes appended directly to child lists are not propagated to, by design of the code.')
prop('P17', 'A text cut short is never read as something it did not say',
     'Reading a saved text of which only a beginning survived either fails or gives a scene made of leading items of the saved scene only, each complete and unchanged; nothing in it has a value, a name, a child or a prototype which was not so in the saved scene. '
     'The failure leaves no trace: the complete text reads as before afterwards.',
     ['crash_points', 'programs'],
     'all saved scenes and every position at which the text may be cut; a name or number at the very end that is itself cut counts as the last item',
     'The tests never read damaged texts; whether a cut is noticed depends on the position.',
     ['vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/linearise.py'],
     [('grammar requires balanced items', 'vrml/vrml97/parser.py')],
     'torn and lost writes of saved scenes, each cut text read and compared with the model of the saved scene',
     'Sampled scenes; for each, sampled cut positions in the quick tier.')

prop('P21', 'A path is the sequence of its nodes, strong or weak',
     'A path of any kind holds exactly the nodes it was made of, in order; a weak one those which are still alive, and keeps none alive. '
     'Extending by a node, a list or a path, taking slices and the common beginning with another path or list give new paths of the same kind with exactly the nodes which that means, and change neither operand; paths are equal just when they have the same nodes, == and != agreeing; the transforming nodes of a path and its text are those of its nodes in order. '
     'This holds in every history, whichever nodes die between or, where the collector strikes, in the middle of operations (each is answered for the nodes before or those after), and after operations whose allocations failed.',
     ['histories', 'schedules', 'fault_sequences'],
     'all histories of making, extending, slicing, comparing, matching and changing paths of all four kinds, with nodes dying between and within operations and allocations failing within',
     'The tests compare a few strong paths and slice none; nodes dying in the middle of an operation happens when the collector pleases.',
     ['vrml/nodepath.py', 'vrml/vrml97/nodepath.py', 'vrml/weaklist.py'],
     [('list operations giving paths', 'NodePath.common/__add__/__getitem__/__eq__'), ('weakly held nodes', 'WeakNodePath, WeakList.get'), ('transforming nodes', '_NodePath.transformChildren')],
     'histories of path operations with nodes dying within them, against a model of lists',
     'Sampled histories.')
prop('P22', 'A name means what the nearest scope around it says',
     'A node type in a text is the prototype of that name declared last before it in the scope it is in, or else in the nearest scope around that, or else the standard node; DEF, USE and ROUTE find the last node so named in their own scope only, prototypes being scopes of their own; a text which uses a name that means nothing where it stands is refused. '
     'Looking a prototype up in a scene gives its own one, or else what the scene it is within gives at that time, while that lives, which it does not depend on; copies of scenes resolve every name as the scene does. '
     'Nothing read, made, added, dropped, cut short or failed before or meanwhile changes what a name means in any other scene or text, nor the namespace which a text is read with.',
     ['programs', 'histories', 'fault_sequences', 'schedules'],
     'all texts of nested prototypes and names, and all histories of reading them, making scenes below others, adding prototypes and names, copying and dropping scenes, with collections, failing allocations and cut texts',
     'The tests read texts without shadowing, and each on its own.',
     ['vrml/vrml97/scenegraph.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/parser.py', 'vrml/protonamespace.py', 'vrml/vrml97/basenamespaces.py', 'vrml/node.py'],
     [('chain of scopes', 'SceneGraph.getProto, weak SceneGraph.root'), ('scopes of a text', 'ParseProcessor.vrmlScene/Proto/Node/USE/ROUTE'), ('names of copies', 'SceneGraph.copy')],
     'histories of texts and scenes against a model of their scopes, in which each declaration is marked',
     'Sampled texts and histories; scopes nest up to four deep.')
prop('P23', 'A text is read as what it says, however it is laid out',
     'Reading a well-formed text gives just the scene it says: its nodes in order, with their names, the values of their fields (the last one given) and the declared defaults of the others (for the standard node types the fields, events, types and defaults which VRML97 gives them), its prototypes, scripts, mappings and routes, in every layout of spaces, commas, comments and line ends and every notation which the language has for numbers, strings and lists. '
     'A text which is not well-formed, through an unbalanced bracket, a field or type which is not declared or a value of another kind than its field takes, is refused. '
     'Neither depends on what the same or another reader read before, refused or failed to read, nor on collections or failed allocations meanwhile.',
     ['programs', 'histories', 'fault_sequences'],
     'all texts of the constructs and types which the reader knows, in all their notations and layouts, and those with one thing wrong; all histories of reading them with collections and failing allocations within',
     'The tests read a few texts in one style each; what other writers put into texts, and what was read before, they leave alone.',
     ['vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/scenegraph.py', 'vrml/vrml97/script.py', 'vrml/fieldtypes.py'],
     [('grammar of the notations', 'parser.grammar'), ('conversion of the parts of a value', 'ParseProcessor.Field/SF*/MF*'), ('declarations', 'ParseProcessor.Proto/Script/*Decl')],
     'texts generated from what they say in all notations, read one after the other under faults and compared with it',
     'Sampled texts; notations which the language does not have are not judged, nor NULL within lists of nodes and defaults with a wrong number of components.')
prop('P24', 'A prototype has precisely the fields declared for it, and those it extends',
     'The fields and events of a prototype are those declared for it and for what it extends, of which the nearest of a name counts, as they are declared at that time: getFields() lists just those, getField() finds each of them by the name it is declared under, by its own name or, where nothing else has that name, with set_ before or _changed after it, raises AttributeError for a name which means nothing, and nodes accept just the fields as keywords and have the declared defaults. '
     'Adding or removing a field or event concerns that prototype and those which extend it, no other, and neither lists given before nor any other definition; removing what a prototype does not declare itself is refused and changes nothing. A definition keeps its name, type, exposure or direction and default, and a copy of one has the same and is a separate one. The names, locations and implementation scenes of prototypes are those last given, until they are deleted; namespaces of prototypes and their copies have just what was put into each. '
     'This holds in every history, also when several threads add, remove, list and find fields and make nodes at once (what nobody touches is found, what nobody declared is not), and after operations which were refused or whose allocations failed.',
     ['histories', 'schedules', 'fault_sequences'],
     'all histories of making, extending, changing and forgetting prototypes and of using their fields, from one or several threads under all interleavings of their lines, with collections and failing allocations within',
     'The tests look up a few fields of a few prototypes which never change, from one thread.',
     ['vrml/protofunctions.py', 'vrml/node.py', 'vrml/field.py', 'vrml/protonamespace.py'],
     [('declared fields are class attributes', 'node.prototype, addField/removeField/getField/getFields'), ('keywords of nodes', 'Node.__init__'), ('copies of definitions', 'Field.copy, Event.clone'), ('types by name', 'field.newField/newEvent'), ('attributes of prototypes', 'setSceneGraph, setExternalURL and the others')],
     'histories of prototypes under a seeded scheduler of threads, against a tree of plain classes with the declarations',
     'Sampled histories and interleavings; fields are not hidden by attributes which are no fields, nor by events.')

NA = {}


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, reason=reason)


na('P18', 'Converting a canonical value again changes nothing',
   'For every field type, converting a value gives a canonical value of the type, and converting that again gives an equal value.',
   ['inputs'], 'all acceptable values of all field types', 'A pure function over an unbounded domain; the tests convert a few values.',
   ['vrml/fieldtypes.py'], [('coerce of each type', 'fieldtypes.py')],
   'A pure function of its argument: no schedule, clock, I/O or history for a simulation to vary; the deciding question is one of inputs alone. What it means for stored values within histories is decided under P01 and P14.')
na('P19', 'Projection matrices and their inverses multiply to the identity',
   'For every non-degenerate view volume the perspective matrix times its inverse is the identity, and the orthographic matrix maps the volume to the unit cube.',
   ['inputs'], 'all non-degenerate parameters', 'A numeric identity over an unbounded domain.',
   ['vrml/vrml97/_transformmatrix.py', 'accelerate/src/tmatrixaccel.pyx'], [('closed formulas', 'perspectiveMatrix, orthoMatrix')],
   'A closed formula of its arguments, without state, time, I/O or concurrency; simulation has nothing to schedule or fail. The agreement of both implementations is part of P14.')
na('P20', 'Frustum culling never discards what is visible',
   'A bounding volume with a point within the frustum is never culled.',
   ['inputs'], 'all frustums and bounding volumes', 'A geometric fact over an unbounded domain.',
   ['accelerate/src/frustcullaccel.pyx'], [('plane tests', 'frustcullaccel.pyx')],
   'A pure function of two arrays, without state, time, I/O or concurrency, whose pure counterpart is not in this repository.')
IMPLEMENTED = [p for p in P if os.path.exists(os.path.join(HERE, 'vsim', 'props', p.lower() + '.py'))]


def line(id, p):
    return {
        'id': id, 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]},
    }


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for id, p in list(P.items()) + list(NA.items()):
            assert len(p['title']) <= 80, id
            f.write(json.dumps(line(id, p)) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'sh tools/setup.sh',
        'checks': [
            {
                'property': id,
                'quick_cmd': './check %s --tier quick' % id,
                'thorough_cmd': './check %s --tier thorough' % id,
                'technique': TECH + P[id]['how'],
                'level': 'exploration',
                'level_note': P[id]['note'],
            }
            for id in IMPLEMENTED
        ],
        'not_applicable': [{'property': id, 'reason': p['reason']} for id, p in NA.items()]
        + [{'property': id, 'reason': 'Simulation applies; its check is not built yet.'} for id in P if id not in IMPLEMENTED],
        'notes': 'One command per property, vsim/ is the simulator; DESIGN.md says how each property is decided.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

"""What each check is: sizes, and what its evidence says about it

Kept apart from the properties' code, which needs the code under test.
"""

FIELDS = ['vrml.field', 'vrml.fieldtypes', 'vrml_accelerate.fieldaccel2 (in half of the runs)', 'pydispatch']

SPECS = {
    'P01': {
        'runs': {'quick': 6000, 'thorough': 300000},
        'lists': ('ops',),
        'rule': 'random histories of assignments, deletions, readings and '
        'constructions over 1-8 nodes of random field types with observers; '
        'non-trivial: at least one fault took effect and a value was stored',
        'measure': 'distinct assignments of values to the fields of the run',
        'faults': [
            'conversion-ValueError', 'conversion-TypeError', 'conversion-MemoryError',
            'conversion-RuntimeError', 'conversion-SimFault', 'invalid-value',
            'observer-raises', 'observer-leaves-while-notified',
            'assigned-within-notification', 'deleted-within-notification', 'gc',
        ],
        'real': FIELDS + ['vrml.node', 'vrml.protofunctions', 'vrml.csscolors'],
        'stub': ['the garbage collector runs only when the simulator says'],
    },
    'P02': {
        'runs': {'quick': 6000, 'thorough': 300000},
        'lists': ('ops', 'points'),
        'rule': 'random histories of assignments which share objects, of changes '
        'in place to the shared objects, to stored values and to defaults, of '
        'copies and routes; non-trivial: something was changed in place',
        'measure': 'distinct assignments of values to the fields of the run',
        'faults': [
            'source-changed-in-place', 'value-changed-in-place', 'assignment-failed', 'gc',
        ],
        'real': FIELDS + ['vrml.node', 'vrml.route', 'vrml.copier'],
        'stub': ['the garbage collector runs only when the simulator says'],
    },
}
SPECS['P03'] = {
    'runs': {'quick': 6000, 'thorough': 300000},
    'lists': ('ops', 'reactions', 'start'),
    'rule': 'random histories of list operations with observers which react by '
    'operating on the list, failing or collecting at numbered announcements; '
    'non-trivial: the list had more than two different contents',
    'measure': 'distinct contents of the list',
    'faults': [
        'iterator-fails', 'observer-raises', 'changed-within-announcement',
        'sender-collected', 'gc',
    ],
    'real': ['vrml.olist', 'pydispatch'],
    'stub': ['the garbage collector runs only when the simulator says'],
}
SPECS['P04'] = {
    'runs': {'quick': 6000, 'thorough': 300000},
    'lists': ('ops', 'kinds'),
    'rule': 'random histories of list operations on, assignments to and deaths '
    'of nodes with child lists, under observers which mirror, change or fail; '
    'non-trivial: more than two different states and at least one observer',
    'measure': 'distinct contents of all the lists of the run',
    'faults': [
        'observer-raises', 'changed-within-notification', 'node-collected',
        'address-reused', 'list-outlives-its-node', 'assignment-rejected',
        'iterator-fails', 'gc',
    ],
    'real': ['vrml.node', 'vrml.olist', 'vrml.field', 'vrml.vrml97.basenodes', 'pydispatch'],
    'stub': [
        'the garbage collector runs only when the simulator says',
        'object addresses, as id() gives them, are the simulator\'s',
    ],
}
SPECS['P05'] = {
    'runs': {'quick': 3000, 'thorough': 300000},
    'lists': ('ops', 'routes'),
    'rule': 'random graphs of up to 12 routes over up to 20 fields and events of '
    '1-5 nodes, and histories of settings, reroutings and failures; non-trivial: '
    'at least one value was delivered by a route',
    'measure': 'distinct pairs of the sets of ports a cascade may and must reach',
    'faults': [
        'destination-rejects', 'source-rejects', 'handler-rejects', 'watcher-raises',
        'set-within-cascade', 'incomplete-route', 'route-removed', 'allocation-failed', 'gc',
    ],
    'real': ['vrml.route', 'vrml.event', 'vrml.node', 'vrml.vrml97.scenegraph', 'vrml.vrml97.parseprocessor', 'pydispatch'] + FIELDS[:3],
    'stub': [
        'the garbage collector runs only when the simulator says',
        'object addresses, as id() gives them, are the simulator\'s',
    ],
}
SPECS['P06'] = {
    'runs': {'quick': 3000, 'thorough': 300000},
    'lists': ('ops',),
    'rule': 'random histories of storing in three caches, depending, changing and '
    'dying of up to six clients at a time; non-trivial: more than two different states',
    'measure': 'distinct sets of entries with their numbers of dependencies',
    'faults': [
        'client-died', 'address-reused', 'cache-dropped', 'gc-within-operation',
        'allocation-failed', 'gc',
    ],
    'real': ['vrml.cache', 'vrml.node', 'vrml.route', 'pydispatch'] + FIELDS[:3],
    'stub': [
        'the garbage collector runs only when the simulator says',
        'object addresses, as id() gives them, are the simulator\'s',
    ],
}
SPECS['P07'] = {
    'runs': {'quick': 3000, 'thorough': 300000},
    'lists': ('ops', 'start', 'paths'),
    'rule': 'random histories of queries of up to eight paths with all flags, between '
    'changes of the transforms along them; non-trivial: queried, in more than two states',
    'measure': 'distinct pairs of all the transforms\' fields and the paths through them',
    'faults': [
        'computation-failed', 'node-died', 'path-dropped', 'address-reused', 'routed',
        'assignment-rejected', 'asked-within-notification', 'gc',
    ],
    'real': ['vrml.vrml97.nodepath', 'vrml.vrml97.basenodes', 'vrml.vrml97.transformmatrix',
             'vrml_accelerate.tmatrixaccel (in half of the runs)', 'vrml.cache', 'vrml.route', 'pydispatch'] + FIELDS[:3],
    'stub': [
        'the garbage collector runs only when the simulator says',
        'object addresses, as id() gives them, are the simulator\'s',
    ],
}
SPECS['P08'] = {
    'runs': {'quick': 6000, 'thorough': 400000},
    'lists': ('ops',),
    'rule': 'random histories of operations on a weak list or path, weak tuples and a '
    'weak-key dictionary while items die; non-trivial: more than two different states',
    'measure': 'distinct sequences of the living items of the containers',
    'faults': [
        'item-died', 'item-died-later', 'item-died-within-operation', 'gc-within-operation',
        'allocation-failed', 'gc',
    ],
    'real': ['vrml.weaklist', 'vrml.weaktuple', 'vrml.weakkeydictfix', 'vrml.nodepath', 'vrml.vrml97.nodepath'],
    'stub': ['the garbage collector runs only when the simulator says'],
}
SPECS['P09'] = {
    'runs': {'quick': 2000, 'thorough': 200000},
    'lists': ('ops',),
    'rule': 'random prototypes (up to three, nested) and histories of up to six of their '
    'instances; non-trivial: at least two instances, and a change reached a mapped field',
    'measure': 'distinct contents of all fields of all instances with their implementations',
    'faults': [
        'instance-dropped', 'assignment-rejected', 'allocation-failed', 'gc-within-operation', 'gc',
    ],
    'real': ['vrml.node', 'vrml.route', 'vrml.copier', 'vrml.protofunctions', 'vrml.vrml97.parseprocessor',
             'vrml.vrml97.parser', 'vrml.vrml97.scenegraph', 'simpleparse', 'pydispatch'] + FIELDS[:3],
    'stub': [
        'the garbage collector runs only when the simulator says',
        'object addresses, as id() gives them, are the simulator\'s',
    ],
}
SPECS['P10'] = {
    'runs': {'quick': 1200, 'thorough': 60000},
    'lists': ('ops',),
    'rule': 'random histories of building, reading, editing, copying, saving and losing a scene '
    'of all node types with prototypes, scripts, routes and sharing; non-trivial: more than two nodes saved',
    'measure': 'distinct descriptions of scenes saved and read back',
    'faults': ['allocation-failed', 'crash', 'gc'],
    'real': ['vrml.vrml97.linearise', 'vrml.vrml97.parser', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.scenegraph',
             'vrml.vrml97.script', 'vrml.vrml97.basenodes', 'vrml.node', 'vrml.route', 'vrml.copier', 'simpleparse', 'pydispatch'] + FIELDS[:3],
    'stub': [
        'the garbage collector runs only when the simulator says',
        'object addresses, as id() gives them, are the simulator\'s',
    ],
}
SPECS['P11'] = {
    'runs': {'quick': 1000, 'thorough': 60000},
    'lists': ('schedule', 'gc'),
    'rule': 'two to four sessions which read, write, build, copy, read broken texts or write to failing outputs, '
    'interleaved at random lines of the code; non-trivial: switched more often than there are sessions',
    'measure': 'distinct numbers of switches and of lines executed by each session',
    'faults': ['switched', 'abandoned', 'allocation-failed', 'broken-text', 'output-failed', 'output-accepted-part', 'gc'],
    'real': ['vrml.vrml97.parser', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.linearise', 'vrml.vrml97.scenegraph',
             'vrml.vrml97.script', 'vrml.node', 'vrml.route', 'vrml.copier', 'simpleparse', 'pydispatch'] + FIELDS[:2] + FIELDS[2:3],
    'stub': ['threads are switched at lines only, and only when the simulator says', 'outputs are in memory and fail when the simulator says',
             'the garbage collector runs only when the simulator says', "object addresses, as id() gives them, are the simulator's"],
}
_ROOTED = {
    'runs': {'quick': 3000, 'thorough': 200000},
    'lists': ('ops',),
    'rule': 'random histories of making, assigning, appending, naming, copying, parsing, dropping and collecting nodes and scenes, with instances of prototypes; '
    'non-trivial: a node was assigned',
    'measure': 'distinct assignments of nodes to scenes and of names to nodes',
    'faults': ['node-dropped', 'scene-dropped', 'gc'],
    'real': ['vrml.node', 'vrml.vrml97.scenegraph', 'vrml.vrml97.parseprocessor', 'vrml.copier', 'vrml.route', 'vrml.olist', 'vrml.weakkeydictfix', 'simpleparse'] + FIELDS,
    'stub': ['the garbage collector runs only when the simulator says', "object addresses, as id() gives them, are the simulator's"],
}
SPECS['P12'] = _ROOTED
SPECS['P16'] = _ROOTED
SPECS['P13'] = {
    'runs': {'quick': 600, 'thorough': 100000},
    'lists': ('ops',),
    'rule': 'random histories of building, editing, copying and dropping scenes and loose nodes of all types, with instances, scripts, routes, sharing and cycles; '
    'non-trivial: something of more than two nodes was copied',
    'measure': 'distinct descriptions of what was copied',
    'faults': ['allocation-failed', 'world-dropped', 'gc'],
    'real': ['vrml.copier', 'vrml.node', 'vrml.route', 'vrml.vrml97.scenegraph', 'vrml.vrml97.script', 'vrml.vrml97.basenodes', 'vrml.olist', 'vrml.vrml97.parser', 'pydispatch'] + FIELDS,
    'stub': ['the garbage collector runs only when the simulator says', "object addresses, as id() gives them, are the simulator's"],
}
SPECS['P14'] = {
    'runs': {'quick': 3000, 'thorough': 300000},
    'configs': ['accel'],
    'lists': ('ops',),
    'rule': 'random histories of declaring, setting, reading, deleting, converting and observing fields of all types in every way there is, of matrices and paths, '
    'and random histories of other properties, on both implementations in lock step; non-trivial: something was set or a matrix calculated',
    'measure': 'distinct notifications and stored values after a step',
    'faults': ['observer-raise', 'observer-set', 'observer-del', 'gc'],
    'real': ['vrml_accelerate.fieldaccel2', 'vrml_accelerate.tmatrixaccel', 'vrml.vrml97.transformmatrix', 'vrml.vrml97._transformmatrix', 'vrml.vrml97._transformmatrix_accel',
             'vrml.vrml97.nodepath', 'vrml.node', 'vrml.route', 'vrml.cache', 'pydispatch'] + FIELDS,
    'stub': ['the garbage collector runs only when the simulator says', "object addresses, as id() gives them, are the simulator's"],
}
SPECS['P15'] = {
    'runs': {'quick': 6000, 'thorough': 600000},
    'configs': ['pure'],
    'lists': ('ops',),
    'rule': 'random histories of making, extending, dropping, invalidating and enumerating paths of all kinds, with several enumerations under way; '
    'non-trivial: a path with extensions was invalidated or enumerated',
    'measure': 'distinct trees of living and broken paths with the enumerations under way',
    'faults': ['gc', 'dropped', 'dropped-within', 'extended-within', 'enumerated-within', 'allocation-failed', 'node-dropped'],
    'real': ['vrml.vrml97.nodepath', 'vrml.nodepath', 'vrml.weaklist', 'vrml.cache', 'vrml.vrml97.transformmatrix', 'vrml.node'] + FIELDS[:2],
    'stub': ['the garbage collector runs only when the simulator says', "object addresses, as id() gives them, are the simulator's"],
}
SPECS['P17'] = {
    'runs': {'quick': 1500, 'thorough': 200000},
    'configs': ['pure'],
    'lists': ('cuts',),
    'rule': 'random scenes of all kinds, saved in random styles and by an independent writer, each cut at up to thirty places and read; '
    'non-trivial: what survived was read as something',
    'measure': 'distinct numbers of items which survived, by the kind of the place of the cut',
    'faults': ['write-torn', 'rest-zeroed', 'allocation-failed', 'gc'],
    'real': ['vrml.vrml97.parser', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.linearise', 'vrml.vrml97.scenegraph', 'vrml.vrml97.script', 'vrml.node', 'vrml.route', 'simpleparse'] + FIELDS[:2],
    'stub': ['texts are in memory and get cut when the simulator says', 'the garbage collector runs only when the simulator says', "object addresses, as id() gives them, are the simulator's"],
}
SPECS['P21'] = {
    'runs': {'quick': 6000, 'thorough': 600000},
    'configs': ['pure'],
    'lists': ('ops', 'kinds'),
    'rule': 'random histories of making, extending, slicing, comparing and matching paths of all kinds with paths and lists, while nodes of weak paths die; '
    'non-trivial: there were more than two paths',
    'measure': 'distinct sets of paths by the numbers of their nodes',
    'faults': ['gc', 'gc-within-operation', 'node-died', 'node-dies-later', 'allocation-failed'],
    'real': ['vrml.nodepath', 'vrml.vrml97.nodepath', 'vrml.weaklist', 'vrml.node'] + FIELDS[:2],
    'stub': ['the garbage collector runs only when the simulator says'],
}

SPECS['P22'] = {
    'runs': {'quick': 2500, 'thorough': 200000},
    'configs': ['pure'],
    'lists': ('ops',),
    'rule': 'random histories of reading texts of nested and shadowing prototypes and names, making scenes below others, adding prototypes and names, copying and dropping scenes; '
    'non-trivial: a text was read',
    'measure': 'distinct sets of scopes, by the declarations and names which each has',
    'faults': ['gc', 'gc-within-operation', 'allocation-failed', 'write-torn', 'scene-dropped'],
    'real': ['vrml.vrml97.scenegraph', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.parser', 'vrml.protonamespace', 'vrml.protofunctions', 'vrml.node', 'simpleparse'] + FIELDS[:2],
    'stub': ['the garbage collector runs only when the simulator says'],
}
SPECS['P23'] = {
    'runs': {'quick': 4000, 'thorough': 200000},
    'configs': ['pure'],
    'lists': ('ops',),
    'rule': 'random texts of all constructs of the language in all the notations it has, with one thing wrong in a third of them, read one after the other; '
    'non-trivial: a text of more than two nodes was read',
    'measure': 'distinct texts, by their lengths in characters and tokens',
    'faults': ['malformed-text', 'gc', 'gc-within-operation', 'allocation-failed'],
    'real': ['vrml.vrml97.parser', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.scenegraph', 'vrml.vrml97.script', 'vrml.vrml97.basenodes', 'vrml.node', 'vrml.route', 'vrml.copier', 'simpleparse'] + FIELDS[:2],
    'stub': ['the garbage collector runs only when the simulator says'],
}
SPECS['P24'] = {
    'runs': {'quick': 5000, 'thorough': 400000},
    'lists': ('ops',),
    'rule': 'random histories of making and extending prototypes, of adding, removing, finding, listing and copying their fields and events, and of making nodes of them, by several threads in part; '
    'non-trivial: there were two prototypes, and a field declared for one',
    'measure': 'distinct sets of prototypes by the names declared for and available in each',
    'faults': ['gc', 'gc-within-operation', 'allocation-failed', 'switched', 'prototype-dropped', 'unknown-name', 'nothing-to-remove', 'keyword-refused', 'value-refused', 'unknown-type', 'bases-refused'],
    'real': ['vrml.protofunctions', 'vrml.node', 'vrml.protonamespace', 'vrml.copier', 'vrml.vrml97.basenodes', 'vrml.vrml97.scenegraph'] + FIELDS[:3],
    'stub': ['the garbage collector runs only when the simulator says', 'threads are simulated: one runs at a time, switched at lines as the schedule says'],
}

PROPS = {
    'DIFF': ('hist', {'view': 'all'}),
    'P01': ('saves', {}),
    'P02': ('saves', {}),
    'P03': ('modes', {}),
    'P04': ('atomic', {}),
    'P05': ('crash', {}),
    'P06': ('conc', {}),
    'P07': ('ro', {}),
    'P08': ('hist', {}),
    'P09': ('hist', {}),
    'P10': ('hist', {}),
    'P11': ('hist', {}),
    'P12': ('hist', {}),
    'P13': ('disagg', {}),
    'P14': ('transl', {}),
    'P15': ('temps', {}),
    'P16': ('migr', {}),
    'P17': ('cli', {}),
    'P18': ('iters', {}),
    'P19': ('hist', {}),
    'P20': ('hist', {}),
    'P21': ('maps', {}),
    'P22': ('hist', {}),
    'P23': ('leaks', {}),
}
# property -> ((deciding method, level note), level)
NOTES = {
    'P01': (('kill at every file operation of seeded saves, and drawn power-loss states with lost, reordered and torn writes; reconstructed disks compared with the old and new content',
             'Within each generated case every operation boundary is a kill point; power-loss states are drawn by seed. The file system is modelled (process crash: all issued operations survive; power loss: unsynced data lost or torn).'), 'fault_enumeration'),
    'P02': (('one seeded fault (system-call error, short write, full disk, SQLite interrupt, failing allocation, SIGINT) per simulated save, from a snapshot, over all injection points by seed',
             'Fault points are drawn by seed, with complete sweeps of one fault kind in part of the cases.'), 'exploration'),
    'P03': (('one seeded history in lockstep on copies in all storage modes, one of them moved between modes through saved files again and again, with faults on some copies; acceptance, content, ids and public listings compared after every operation',
             'Histories, moves and faults are sampled by seed; the copies are compared with each other, not with a model.'), 'exploration'),
    'P04': (('one seeded fault per simulated run of one operation from a snapshot (system-call errors, full disk, statement interrupts, failing allocations, SIGINT, raising iterators, malformed rows); state compared with before/after, then retried',
             'Fault points are drawn by seed over all counted injection points, with complete sweeps of one kind in part of the cases.'), 'exploration'),
    'P05': (('kill at every file operation and drawn power-loss states (lost, reordered, torn writes) of seeded operation sequences on a bound file; every reconstructed disk is recovered by the real code and compared with the states before and after',
             'Every operation boundary of a generated case is a kill point; power-loss states and inputs are drawn by seed. The file system is modelled; no torn write is assumed to be prevented by the device.'), 'fault_enumeration'),
    'P06': (('seeded scheduler over real client threads (every file operation, SQLite step and sleep is a scheduling point), stalled clients and storage faults; each history is explained by a one-at-a-time order re-executed on the real code, or is a violation',
             'Schedules are sampled by seed; clients are threads of one process; recorded context switches are replayed and minimised.'), 'exploration'),
    'P07': (('seeded histories with faults on read-only bindings and read copies of one file; bytes, inode, permissions, directory and recorded file operations compared after every step',
             'Histories, faults, permissions and names are sampled by seed.'), 'exploration'),
    'P08': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (index records, ids and fingerprints)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P09': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (weight groups)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P10': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (links, shares and fingerprints)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P11': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (deletion and cascades)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P12': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (partition structure and data acceptance)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P13': (('seeded spaces and histories in every storage mode, selected with seeded options, faults during the selection and another user under the seeded scheduler; rows compared with an independent model of spreading',
             'Spaces, options, faults and schedules are sampled by seed; the model is written from the property, over the content read straight from the tables.'), 'exploration'),
    'P14': (('seeded chains of spaces with links, selectors, stale and incomplete links, faults during translation and another user under the seeded scheduler; rows compared with an independent model of applying shares',
             'Spaces, links, options, faults and schedules are sampled by seed; the model is written from the property, over the content read straight from the tables.'), 'exploration'),
    'P15': (('seeded lifetimes of cached spaces, readers and saves with faults during creation, use and cleanup; the temporary directory compared with the owners still alive after every step, and after process exit',
             'Lifetimes and fault points are sampled by seed; the removal of a file itself is never made to fail.'), 'exploration'),
    'P16': (('seeded contents of old-format files opened every way, upgraded under faults, killed at every file operation and at drawn power-loss states, and by two clients under the seeded scheduler; files compared with the old and the upgraded content',
             'Old-format files are made by writing the old schema; contents, faults and schedules are sampled by seed.'), 'fault_enumeration'),
    'P17': (('seeded command lines run by the real entry point on generated files, with seeded faults, failing standard streams, kills at file operations and power loss; files compared with before, with the same edit through the API, and with backups; exports loaded again',
             'Commands, contents and fault points are sampled by seed; the process boundary is simulated (same interpreter, substituted standard streams).'), 'exploration'),
    'P18': (('seeded interleavings of several row-by-row readings, ended by exhaustion, closing, dropping or injected faults, with operations, saves and feeds in between; rows, acceptance and content compared with private copies on which the same is done in one piece',
             'Interleavings, ends and faults are sampled by seed; readings are dropped deterministically (reference counts and explicit collection).'), 'exploration'),
    'P19': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (quantity loading)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P20': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (label columns, attributes and ordering)',
             'Histories, inputs and fault points are sampled by seed; the model leaves a few malformed inputs unspecified.'), 'exploration'),
    'P21': (('seeded mapping files loaded into seeded pairs of spaces in every storage mode, with options and faults; stored mappings, refusals, warnings and listings compared with an independent model of matching and sharing',
             'Spaces, files, options and faults are sampled by seed; the order of partitions with equal granularity is unspecified.'), 'exploration'),
    'P22': (('seeded histories with faults, kills, reloads and moves between storage modes, each step compared with an executable reference model and invariants (well-formed and malformed metadata)',
             'Histories, inputs and fault points are sampled by seed; empty lists and objects are not told apart from missing ones.'), 'exploration'),
    'P23': (('one call per simulated run from a snapshot, with one seeded fault (system-call errors, full disk, statement interrupts, failing allocations, SIGINT); locks, transactions and descriptors examined from outside while the exception is held and after it is dropped',
             'Calls, contents and fault points are sampled by seed, with complete sweeps of one kind in part of the cases.'), 'exploration'),
}

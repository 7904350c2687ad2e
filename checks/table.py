"""Which sources each check is built from."""
HI = ['hardware_interface/src/' + x for x in (
    'component_parser.cpp', 'hardware_component.cpp', 'hardware_component_interface.cpp', 'lexical_casts.cpp',
    'resource_manager.cpp')]
JL = ['joint_limits/src/' + x for x in (
    'joint_limits_helpers.cpp', 'joint_limiter_interface.cpp', 'joint_range_limiter.cpp',
    'joint_soft_limiter.cpp', 'joint_saturation_limiter.cpp')]
GS = ['hardware_interface/src/mock_components/generic_system.cpp']
CI = ['controller_interface/src/' + x for x in (
    'controller_interface.cpp', 'chainable_controller_interface.cpp', 'controller_interface_base.cpp')]
TL = ['transmission_interface/src/' + x + '_transmission_loader.cpp' for x in ('simple', 'differential', 'four_bar_linkage')]
CM = ['controller_manager/src/controller_manager.cpp']


def REPO_SRC(c):
    return c.get('repo', [])


CHECKS = {
    'C11': dict(src=['lexical.cpp'], repo=['hardware_interface/src/lexical_casts.cpp'], locale=True,
                technique='property-based testing: grammar-based text generation against a reference converter',
                note='Millions of generated texts per run under three locales, compared with an independent grammar and '
                     'the C library in the C locale. Trusts strtod; leading blanks of integers are left unspecified.'),
    'C02': dict(src=['handles.cpp'], repo=['hardware_interface/src/lexical_casts.cpp'],
                technique='stateful property-based testing: histories of writes, reads, copies and moves against a reference model',
                note='Histories over a pool of interfaces of all nine types are compared bit for bit with a model after every '
                     'step, under ASan/UBSan. Lock contention is provoked with a holder thread; free-running threads sample schedules only.'),
    'C30': dict(src=['stats.cpp'], repo=[],
                technique='stateful property-based testing: sample/reset/publish histories against a two-pass reference',
                note='Random histories of samples, resets and publications compared with a two-pass long double computation after every step.'),
    'C33': dict(src=['helpers.cpp'], repo=['hardware_interface/src/lexical_casts.cpp'],
                technique='property-based testing against the definitions (sets, sequences, text)',
                note='Random contents over small alphabets, so that matches, duplicates and empty cases are frequent.'),
    'C17': dict(src=['trans.cpp', 'trans_simple.cpp', 'trans_diff.cpp', 'trans_fb.cpp'], repo=TL + ['hardware_interface/src/lexical_casts.cpp'], cflags='-Wl,--allow-multiple-definition',
                technique='property-based testing: formulas in extended precision, round trip, power balance',
                note='Random reductions, offsets, values and handle sets; error bounds come from the magnitude of the terms. '
                     'Values are kept away from overflow.'),
    'C18': dict(src=['trans.cpp', 'trans_simple.cpp', 'trans_diff.cpp', 'trans_fb.cpp'], repo=TL + ['hardware_interface/src/lexical_casts.cpp'], cflags='-Wl,--allow-multiple-definition',
                technique='property-based testing: generated descriptions and handle sets against an acceptance predicate',
                note='Accept/refuse decisions compared with an independent predicate; loaded transmissions are also checked against the formulas.'),
    'C13': dict(src=['limiter.cpp'], repo=JL,
                technique='stateful property-based testing: command/state histories against an interval model and safety invariants',
                note='Histories of commands and measured states (values concentrated on limits, tolerances and non-finite numbers) are '
                     'compared with an interval model written from the documentation; hard safety bounds are checked separately.'),
    'C14': dict(src=['limiter.cpp'], repo=JL,
                technique='stateful property-based testing: command/state histories against an interval model and safety invariants',
                note='As C13 for the soft limiter, with soft ranges inside, across and outside of the hard range.'),
    'C15': dict(src=['trajlim.cpp'], repo=JL,
                technique='property-based testing: generated multi-joint points against invariants and a per-joint model',
                note='Points, states and limits of several joints, consistent and inconsistent ones, with missing and wrongly sized '
                     'fields. Decisions closer than 1e-9 to a threshold are only checked against the invariants.'),
    'C12': dict(src=['limsrc.cpp'], repo=['hardware_interface/src/component_parser.cpp', 'hardware_interface/src/lexical_casts.cpp'],
                technique='stateful property-based testing: generated limit sources and update histories against a reference model',
                note='Generated joints, parameter sets, update sequences and descriptions, compared with an independent model of what each source gives.'),
    'C09': dict(src=['parser.cpp'], repo=['hardware_interface/src/component_parser.cpp', 'hardware_interface/src/lexical_casts.cpp'],
                technique='property-based testing: round trip of generated descriptions under meaning-preserving reformatting',
                note='A structured generator produces the hardware list together with the document; two renderings of it are parsed and compared field by field.'),
    'C10': dict(src=['parser.cpp'], repo=['hardware_interface/src/component_parser.cpp', 'hardware_interface/src/lexical_casts.cpp'],
                technique='fuzzing: grammar-based documents broken in one documented way, mutated, truncated or assembled from tokens, under sanitizers',
                note='Documents broken in exactly one documented way have to be refused; every other text has to end in a result or a standard exception under ASan/UBSan within a time bound.'),
    'C03': dict(src=['component.cpp'], repo=[x for x in HI if 'resource_manager' not in x],
                technique='stateful property-based testing: request/read/write histories with scripted callback outcomes against the life cycle model',
                note='Actuators, sensors and systems are driven directly with every outcome of every callback; the calls, the states '
                     'and the returned states are compared with the managed life cycle after every step.'),
    'C01': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C01'}, tag='rm',
                technique='stateful property-based testing: claim/move/release histories over changing hardware against an ownership model',
                note='Histories over generated robots with scripted hardware; who holds what is compared with a model after every step.'),
    'C04': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C04'}, tag='rm',
                technique='stateful property-based testing: component state histories with failing transitions against an availability model',
                note='After every request, cycle and switch the lists of existing and available interfaces are compared with those that follow from the states of the components.'),
    'C05': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C05'}, tag='rm',
                technique='stateful property-based testing: injected read/write errors, exceptions and deactivations over groups against a model',
                note='Errors are injected in random components and cycles; reports, states and values of every component are compared with the model.'),
    'C06': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C06'}, tag='rm',
                technique='property-based testing: generated rates and jittered clocks against a timing oracle',
                note='The clock is simulated: regular, jittered and interrupted cycles. Decisions within 1e-7 s of the threshold are left open.'),
    'C07': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C07'}, tag='rm',
                technique='stateful property-based testing: generated mode switches against a routing model',
                note='Start and stop sets over several components in every state, with refusals and exceptions.'),
    'C08': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C08'}, tag='rm',
                technique='stateful property-based testing: sequences of valid and broken descriptions against the declared content',
                note='Sequences of imports into one resource manager, broken ones of eight kinds at a random component; after a valid one the wiring of every interface is checked.'),
    'C16': dict(src=['rm.cpp'], repo=HI + JL, env={'PBT_PROPERTY': 'C16'}, tag='rm',
                technique='stateful property-based testing: command histories on generated robots against the declared limits',
                note='Commands are taken where the hardware receives them. Bounds are absolute limits; reachability within a period is left to C13-C15.'),
    'C19': dict(src=['gensys.cpp'], repo=HI + JL + GS,
                technique='stateful property-based testing: generated mock configurations and command histories against a model of the documentation',
                note='The mock system is run by a resource manager; every state is compared after every step. Infinite commands, repeated configuring and chains of mimic joints are left out.'),
    'C20': dict(src=['semantic.cpp'], repo=HI + JL,
                technique='stateful property-based testing: generated component kinds, offered interfaces and value histories against a table of fields',
                note='Every component kind, any order and subset of offered interfaces, busy interfaces and repeated binding; values read from unbound components are left out.'),
    'C21': dict(src=['ctrl.cpp'], repo=HI + JL + CI,
                technique='stateful property-based testing: life cycle, chained mode, export and update histories with scripted callbacks against a model',
                note='Plain and chainable controllers are driven directly with every outcome of every callback; update rates of zero and prefixes of which the name is only a part of a word are left out.'),
    'C34': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C34'}, tag='cm',
                technique='stateful property-based testing: generated schedules of the worker against request and cycle histories, compared with a model',
                note='The test owns the schedule of the asynchronous worker (a stand-in for realtime_tools), so that every order of cycles and requests is reached; a smaller part runs on real threads. The detached policy and exceptions of asynchronous hardware are left out.'),
    'C22': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C22'}, tag='cm',
                technique='stateful property-based testing: generated switch histories over controllers sharing interfaces against a transaction model',
                note='Valid, slightly broken and random requests, strict and best effort, direct and through the service, beside running cycles, with refusing hardware and failing callbacks. Switches whose outcome the documentation leaves open are only checked against the invariants.'),
    'C23': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C23'}, tag='cm',
                technique='stateful property-based testing: generated chain topologies and switch histories against an order and chained-mode model',
                note='Acyclic topologies over up to five controllers in every loading order; after failures the chained mode is judged again from the next successful switch on.'),
    'C24': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C24'}, tag='cm',
                technique='stateful property-based testing: generated rates and jittered clocks against a timing oracle',
                note='Simulated clock with regular, jittered and interrupted cycles; decisions within 1e-7 s of the threshold are left open.'),
    'C25': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C25'}, tag='cm',
                technique='stateful property-based testing: injected update errors and exceptions over chains and fallbacks against a model',
                note='Failures in random cycles, alone and several at once, with failing fallbacks, and while a request for unrelated controllers is pending. Failures racing with a request for the same controllers are excluded.'),
    'C26': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C26'}, tag='cm',
                technique='stateful property-based testing: injected hardware errors and deactivations against a dependency model',
                note='Failures of reads and writes of up to three components, grouped and not, under generated assignments of interfaces and chains.'),
    'C27': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C27'}, tag='cm',
                technique='stateful property-based testing: life cycle request histories with scripted callback outcomes against the life cycle model',
                note='Every request in every state with every callback outcome, direct and through the services, also reloading of the libraries; the callbacks run and everything else is compared.'),
    'C29': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C29'}, tag='cm',
                technique='property-based testing: generated start-up configurations and request histories with failing transitions against the life cycle model',
                note='Robots of up to four components in groups, descriptions at construction or later, also after refused ones; requests through the service by id and by label.'),
    'C28': dict(src=['cm.cpp', 'async.cpp'], repo=HI + JL + CI + CM, env={'PBT_PROPERTY': 'C28'}, tag='cm',
                technique='stateful property-based testing: the answers of the services after every step of generated histories against the model',
                note='All four list services after switches, failures, life cycle and hardware requests; interfaces of kind individual only.'),
    'C31': dict(src=['tools.py'], kind='py',
                technique='property-based testing: generated command lines, manager states, failures, lost answers and kills against a reference model of the tools',
                note='The real Python tools run against stand-ins of the ROS packages and a model of the controller manager. Left out: the exit code of the hardware spawner after failures, unknown arguments in the advanced syntax, and values of --controller-ros-args that begin with a dash.'),
    'C32': dict(src=['tools.py'], kind='py',
                technique='property-based testing: generated parameter files and launch dictionaries against a reference lookup, launch helpers end to end with the spawner',
                note='Left open: files that name a controller without its namespace, several own sections of one controller in a file, and a wildcard of a later against an own section of an earlier file; quoting of arguments with blanks by the shell.'),
    'C35': dict(src=['tools.py'], kind='py',
                technique='property-based testing: generated command lines and manager contents against a reference of requests and listings',
                note='All thirteen verbs of ros2controlcli run against stand-ins of the ROS packages. The rqt plugin is not covered.'),
}

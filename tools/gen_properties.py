#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

HI='hardware_interface/'; CM='controller_manager/'; CI='controller_interface/'; JL='joint_limits/'; TI='transmission_interface/'
RM=HI+'src/resource_manager.cpp'; CMC=CM+'src/controller_manager.cpp'

p('C01','A command interface has at most one owner at any time',
  'A command interface is handed out only while it exists, is available and nobody else holds it; any other request for it is refused and changes nothing. While the loan is alive the interface is reported as claimed, and as soon as the loan ends (destroyed or replaced by assignment) it is reported as not claimed and can be claimed again. Moving a loan moves the ownership and never releases or duplicates it.',
  ['histories'],'every history of claims, loan moves, loan destructions and hardware state changes',
  'Unit tests claim one or two interfaces once; exclusivity is a statement about every interleaving of claims, releases, moves and component state changes.',
  [RM,HI+'include/hardware_interface/loaned_command_interface.hpp',CMC],
  [('claim/release bookkeeping','ResourceManager::claim_command_interface, release_command_interface'),('RAII release','LoanedCommandInterface destructor/move')])

p('C02','An interface value reads back exactly as written, in its declared type',
  'After a successful write of a value in the declared data type of an interface every later read returns exactly that value (bit for bit, including NaN and infinities) until the next successful write, and a read or write that names another data type is refused without changing the stored value (booleans may be read as 0 or 1), as is an access while somebody else holds the interface. Copies are independent of the original and start with its name, type and value; a moved or move-assigned interface carries name, type and value along and stays valid after the source is gone.',
  ['inputs','histories'],'every data type, every value of it and every history of writes, reads, copies, moves, assignments and self-assignments',
  'Tests use one or two hand-written doubles and a single copy; type and value combinations and sequences of moves are never explored.',
  [HI+'include/hardware_interface/handle.hpp',HI+'include/hardware_interface/hardware_info.hpp'],
  [('typed storage','Handle value_/value_ptr_'),('copy/move','Handle copy, swap and move')])

p('C03','Hardware components follow the lifecycle and are only driven when they may be',
  'Every lifecycle request moves a hardware component exactly as the managed-node life cycle prescribes for the outcome its callback reported (success, failure or error; a throwing callback leaves it where it was), never runs a callback that is illegal in the current state, and returns the state the component is in. Its read is run only while it is inactive or active, its write only while it is active (a sensor is never written), both with the time and period they were called with, and an error from either takes it through error handling into unconfigured or finalized. Nothing leaves finalized.',
  ['histories','fault_sequences'],'every sequence of lifecycle requests, reads and writes for actuators, sensors and systems, with every outcome of every callback, also exceptions',
  'Tests walk a few fixed paths with callbacks that succeed; the outcome combinations of callbacks along arbitrary request sequences are not covered.',
  [HI+'src/hardware_component.cpp',HI+'src/hardware_component_interface.cpp',HI+'include/hardware_interface/lifecycle_helpers.hpp'],
  [('transition table','HardwareComponent::initialize/configure/cleanup/shutdown/activate/deactivate/error'),('gating','HardwareComponent::read/write')])

p('C04','An interface is offered as available exactly while its hardware can serve it',
  'The state interfaces of a hardware component are available while it is inactive or active and its command interfaces likewise, and none of them is available in any other state, whatever path led there. Availability never changes which interfaces exist, and the interfaces of one component never change because of a state change of another. Using an unknown or unavailable interface is refused.',
  ['histories','fault_sequences'],'every history of component state requests, failing transitions, read/write errors and description imports over several components',
  'Tests check the availability lists after a handful of scripted transitions; failing transitions and errors in the middle of a history are not.',
  [RM],[('availability lists','ResourceStorage configure/activate/deactivate/cleanup/shutdown, remove_all_hardware_interfaces_from_available_list'),('state changes','ResourceManager::set_component_state')])

p('C05','A failing hardware component takes down only itself and its group',
  'When a component reports an error from reading or writing (or throws, or asks for deactivation while reading), that cycle is an error and reports it by name, it goes through its error handling and its interfaces stop being available; the members of its hardware group follow in that cycle or the next one. All other components are still read and written in that cycle and in later ones with unchanged values and states. A component that asks to be deactivated during writing affects only itself: it is deactivated, and the cycle says so unless there was an error.',
  ['fault_sequences','histories'],'every pattern of read/write errors, deactivation requests and exceptions over cycles, for every partition of components into groups',
  'Tests inject one error into a fixed pair of components; combinations over cycles, groups and component kinds are not explored.',
  [RM,HI+'src/hardware_component.cpp'],[('error handling','ResourceManager::read / write'),('groups','HardwareGroupStateStorage / hw_group_state_')])

p('C06','Each hardware component is read and written at its own rate',
  'A component with a read/write rate lower than the manager is read and written in the cycle closest to the end of each of its own periods (the first time at once), and one without a rate, or with one not below that of the manager, in every cycle; it is never starved and never run faster. The period it is given is the time that passed since its previous run of the same kind (the period of the manager if it runs in every cycle). Components do not influence the cadence of each other.',
  ['schedules','configurations'],'every rate assignment to components and every sequence of cycle times, regular and jittered',
  'Tests use one or two fixed rates with perfectly regular cycles.',
  [RM],[('decimation','ResourceManager::read / write, rw_rate branch')])

p('C07','A command mode switch reaches exactly the hardware concerned',
  'On a command mode switch every inactive or active actuator or system that is concerned by a started or stopped interface is asked to prepare and, later, to perform it and is given exactly the interfaces it owns; components that are not concerned are not called. If any component refuses or throws, or when preparing an interface is unknown or unavailable (or one to be started belongs to inactive hardware, unless that is allowed), the switch is reported as failed.',
  ['inputs','fault_sequences'],'every set of start and stop interfaces over several components in every lifecycle state and every refusal pattern',
  'Tests try a fixed table of requests against two fixed components.',
  [RM,HI+'src/hardware_component.cpp'],[('mode switch','ResourceManager::prepare_command_mode_switch / perform_command_mode_switch')])

p('C08','A robot description is loaded completely or not at all',
  'Importing a valid robot description creates exactly the hardware components it declares with exactly the declared interfaces, each existing once, with everything unclaimed. A description that is malformed, names an unknown plugin or type, duplicates a component or command interface name, or whose component fails or throws while initialising or exporting its interfaces is refused (a malformed one with a standard exception, the others without) and leaves the resource manager with no component or interface of it; a later valid import then works.',
  ['inputs','histories','fault_sequences'],'every generated description, valid or corrupted in one place, in every sequence of imports',
  'Tests import fixed URDF strings, a few of them broken, once each into a fresh manager.',
  [RM,HI+'src/component_parser.cpp'],[('import','ResourceManager::load_and_initialize_components, validate_storage, ResourceStorage::load_and_initialize_*')])

p('C09','Parsing a ros2_control description preserves everything it declares',
  'For every well-formed robot description the parsed hardware list has the same components in the same order with the same names, types, plugins, rates, groups, parameters, joints, sensors, GPIOs, transmissions, mimic relations and interfaces with their limits, initial values, data types and sizes as the document declares, with documented defaults for what is left out. Formatting that carries no meaning (order of attributes, whitespace, comments, unrelated elements) does not change the result.',
  ['inputs'],'every well-formed description from a structured generator and every meaning-preserving rewriting of it',
  'Tests parse a fixed set of hand-written URDF files.',
  [HI+'src/component_parser.cpp',HI+'include/hardware_interface/hardware_info.hpp'],[('parser','parse_control_resources_from_urdf and parse_* helpers')])

p('C10','No robot description can crash the parser',
  'For every byte string given as a robot description parsing ends, in reasonable time, either with a result or with a standard exception that reports the problem, and never with a crash or undefined behaviour. A description that violates a documented requirement (missing mandatory attribute or plugin, invalid rate, size, priority or boolean, unknown tag, joint or transmission reference) is rejected and never silently accepted.',
  ['inputs'],'arbitrary bytes, mutated descriptions and well-formed descriptions broken in exactly one documented way',
  'Tests hold about thirty broken documents; the input space is all strings.',
  [HI+'src/component_parser.cpp',HI+'src/lexical_casts.cpp'],[('parser','parse_control_resources_from_urdf'),('attribute parsing','parse_size_attribute, parse_rw_rate_attribute, parse_is_async_attribute, parse_thread_priority_attribute')])

p('C11','Numbers and booleans in text are converted exactly or refused',
  'Text is converted to a floating-point number, boolean, unsigned integer or list of such values exactly when the whole text spells one of the documented form that fits the type, independent of the global locale, and the result is the value it spells. Any other text raises a standard exception and never yields a truncated, wrapped or partial value.',
  ['inputs'],'every string, printed values of every number, and their mutations, under several locales',
  'Tests convert a few dozen literals.',
  [HI+'src/lexical_casts.cpp',HI+'include/hardware_interface/lexical_casts.hpp'],[('conversions','stod, stoui8..stoui64, parse_bool, parse_array, parse_string_array, parse_double_array...')])

p('C12','Joint limits are taken from their sources faithfully',
  'Limits read from a robot model, from node parameters or from the interfaces of a hardware description carry exactly the numbers given there, and a limit is switched on only if it was given and is valid for the joint. Values that a source does not give stay as they were. A runtime parameter update is applied exactly to the limits it names, is reported as a change whenever a limit value really changes, and never switches on a limit without a valid value.',
  ['inputs','histories'],'every joint type and limit block, every subset of parameters and every sequence of updates',
  'Tests use one model and one parameter file.',
  [JL+'include/joint_limits/joint_limits_urdf.hpp',JL+'include/joint_limits/joint_limits_rosparam.hpp',HI+'src/component_parser.cpp'],
  [('URDF','getJointLimits, getSoftJointLimits'),('parameters','declare_parameters, get_joint_limits, check_for_limits_update'),('hardware description','update_interface_limits / retrieve limits in component_parser')])

p('C13','A limited joint command never exceeds the joint limits',
  'For every command, actual state and limit set, the commands coming out of limit enforcement lie inside the position, velocity, acceleration, jerk and effort limits that are switched on and change no faster than these allow within one control period, and a position command is refused by an exception if the joint is measured outside its position limits by more than the tolerance, and a command that already satisfies all limits comes out unchanged. Enforcement reports that it limited exactly when it changed a command, never adds a command that was not given, and handles a non-finite command or state without ever emitting a non-finite command for a finite one.',
  ['inputs','histories'],'every limit set, every sequence of desired and actual states and every positive control period',
  'Tests check a few dozen hand-computed steps for one joint.',
  [JL+'src/joint_range_limiter.cpp',JL+'src/joint_limits_helpers.cpp'],[('range limiter','JointSaturationLimiter<JointControlInterfacesData>::on_enforce'),('bounds','compute_position_limits, compute_velocity_limits, compute_effort_limits, compute_acceleration_limits')])

p('C14','Soft limits keep a joint inside its soft range as well as its hard limits',
  'With soft limits given, commands coming out of enforcement respect the hard limits and additionally: position commands stay in the soft range when the joint is inside it, velocity commands towards a soft bound are reduced proportionally to the remaining distance and never push further out of the soft range, and effort commands are bounded by the soft velocity range. A command that satisfies hard and soft bounds comes out unchanged, and enforcement reports that it limited exactly when it changed a command.',
  ['inputs','histories'],'every hard and soft limit set, every gain and every sequence of desired and actual states',
  'Tests check hand-computed steps for a few parameter choices.',
  [JL+'src/joint_soft_limiter.cpp',JL+'include/joint_limits/joint_soft_limiter.hpp'],[('soft limiter','JointSoftLimiter::on_enforce')])

p('C15','Limiting a multi-joint trajectory point yields a point inside all limits',
  'For every multi-joint current state, desired point and limits, the point that comes out satisfies the switched-on position, velocity and acceleration limits of each joint as far as they are compatible and reachable in one period and has one value per joint; effort is limited likewise. A desired point that satisfies the limits comes out unchanged and is reported as not limited (a zero velocity or acceleration counts as not given where it can be derived). Malformed points (wrong sizes, non-positive period) are refused without being changed or crashing.',
  ['inputs'],'every number of joints, limit set, state and desired point, including missing fields',
  'Tests check hand-computed points for one joint.',
  [JL+'src/joint_saturation_limiter.cpp'],[('trajectory limiter','JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enforce')])

p('C16','Hardware never receives a command outside its limits when enforcement is on',
  'With command limit enforcement switched on, after the enforcement step of a control cycle every claimed command that the hardware is about to receive lies within the limits that the robot description gives for that joint (the model and the interfaces together, the tightest counting), and a command inside the limits and reachable is passed on unchanged. Values of interfaces and joints without limits are never touched, and the step reports whether any command of any component had to be limited.',
  ['inputs','histories','configurations'],'every robot description with limits, every command history and every distribution of joints over components',
  'Tests drive one fixed robot with a few commands.',
  [RM,JL+'src/joint_range_limiter.cpp'],[('enforcement','ResourceManager::enforce_command_limits, import_joint_limiters')])

p('C17','Transmissions are exact, invertible and power preserving',
  'For every valid transmission, mapping actuator values to joint space follows its documented formula for every interface kind, and mapping the result back yields the original values up to rounding. Mechanical power is the same on both sides. Interfaces that are absent, unpaired or belong to another kind are left untouched.',
  ['inputs'],'every reduction, offset and value vector, and every set and order of attached interfaces',
  'Tests use a handful of reductions and inputs.',
  [TI+'include/transmission_interface/simple_transmission.hpp',TI+'include/transmission_interface/differential_transmission.hpp',TI+'include/transmission_interface/four_bar_linkage_transmission.hpp'],
  [('maps','actuator_to_joint / joint_to_actuator')])

p('C18','Badly configured transmissions are refused, valid ones accepted',
  'Constructing or configuring a transmission with a zero reduction, a wrong number of reductions, offsets, joints or actuators, no handles, or without a complete set of handles of one kind on both sides is refused with the documented exception, and a description with too few joints or actuators or a zero reduction loads as no transmission. Every valid configuration is accepted, whatever order the handles come in. A transmission built from a description uses exactly the reductions and offsets given there.',
  ['inputs','configurations'],'every transmission description and every set of handles',
  'Tests try a list of broken inputs.',
  [TI+'src/simple_transmission_loader.cpp',TI+'src/differential_transmission_loader.cpp',TI+'src/four_bar_linkage_transmission_loader.cpp',TI+'include/transmission_interface/accessor.hpp'],
  [('validation','constructors, configure'),('loaders','TransmissionLoader::load')])

p('C19','The mock hardware mirrors commands to states as configured',
  'After a write and read cycle of the mock system every state interface that has a command of the same name equals it (plus the configured offset for position, unless redirected by a custom mapping), mimicking joints follow their mimicked joint by multiplier and offset, and every other state keeps its value. Initial values come from the description. With dynamics enabled position, velocity and acceleration follow the integration of the active command mode, and with commands disabled states do not change, otherwise an infinite command that is to be mirrored makes the read fail.',
  ['configurations','histories'],'every generated mock configuration (joints, GPIOs, sensors, mimic, offsets, names sharing prefixes) and command history',
  'Tests use fixed joint names and one or two command steps per option.',
  [HI+'src/mock_components/generic_system.cpp'],[('mirroring','GenericSystem::read'),('modes','prepare_command_mode_switch / perform_command_mode_switch')])

p('C20','Semantic components bind each field to the interface it names',
  'A semantic component binds to its interfaces by name, whatever order and among whatever other interfaces they are offered, and reports success exactly if all are present. Each field of its values and message then equals the current value of the interface documented for it, axes that are not configured are NaN (force/torque), other fields of the message stay untouched, an interface in use by another thread leaves its field as it was or unknown, and after release nothing is bound. Commands written through it reach exactly the named interfaces, and a value set of the wrong size or range changes nothing.',
  ['inputs','histories'],'every component kind, subset and permutation of interfaces and every value history',
  'Tests offer the interfaces in one order with one set of values.',
  [CI+'include/semantic_components/semantic_component_interface.hpp',CI+'include/semantic_components/force_torque_sensor.hpp',CI+'include/semantic_components/imu_sensor.hpp',CI+'include/semantic_components/gps_sensor.hpp',CI+'include/semantic_components/pose_sensor.hpp',CI+'include/controller_interface/helpers.hpp'],
  [('binding','get_ordered_interfaces, assign_loaned_state_interfaces'),('conversion','get_values_as_message / set_values_from_message')])

p('C21','Controllers expose and follow their lifecycle and chained interfaces correctly',
  'A controller is configured, activated, deactivated and cleaned up only through legal transitions and is left in the state that the callback outcome prescribes, and its effective update rate is the configured one, or a next one that whole cycles of the manager allow, and never above that of the manager. A chainable controller exports exactly its declared reference and state interfaces under its own name, can be put into chained mode only when it is not active, and in chained mode takes its references from the exported interfaces while outside it takes them from its own subscribers before each update.',
  ['histories','configurations'],'every sequence of lifecycle requests with every callback outcome, chained-mode requests and every set of exported interfaces',
  'Tests walk one or two fixed paths with fixed controllers.',
  [CI+'src/controller_interface_base.cpp',CI+'src/chainable_controller_interface.cpp'],[('lifecycle','ControllerInterfaceBase::init/configure'),('chained interfaces','ChainableControllerInterface::export_reference_interfaces/export_state_interfaces/set_chained_mode/update')])

p('C22','A strict controller switch happens completely or not at all',
  'A strict switch request that cannot be satisfied (unknown, not configured, already active or inactive controllers, controllers whose chain partners would be missing, missing or busy interfaces, hardware refusal) is answered as failed and leaves every controller in its state and every interface with its owner; one that was accepted but in which an activation fails leaves none of its controllers activated and is answered as failed. A switch answered as successful leaves exactly the requested controllers activated, holding the command interfaces they asked for, and deactivated, where best effort leaves out the controllers that cannot be switched (missing or busy interfaces still refuse it as a whole). Controllers that are not part of a request never change state through it, except those stopped because a controller they need failed to activate.',
  ['histories','schedules','fault_sequences'],'every history of loads, configurations and switch requests over several controllers sharing interfaces, with hardware refusals and failing activations',
  'Tests run fixed scenarios of two or three controllers.',
  [CMC],[('switch','ControllerManager::switch_controller_cb, check_following_controllers_for_activate, check_preceeding_controllers_for_deactivate, manage_switch')])

p('C23','Chained controllers run in dependency order and never dangle',
  'In every cycle a controller that writes the reference of another active controller is updated before it, and a controller whose exported states are used by another is updated before its consumer, for every loading order. After every successful switch a chainable controller is in chained mode exactly if it is active and some active controller claims its references, and its exported interfaces are available exactly while it is active. No request leaves an active controller that uses interfaces of a controller that is not active.',
  ['histories','configurations'],'every acyclic chain topology, loading and configuration order, and switch history',
  'Tests use three fixed chains in fixed orders.',
  [CMC],[('ordering','controller_sorting, update_list_with_controller_chain'),('chained mode','propagate_deactivation_of_chained_mode, switch_chained_mode')])

p('C24','Each active controller is updated at its own rate with the true period',
  'While active, a controller whose update rate is not set or not below that of the manager is updated exactly once in every cycle, one with a lower rate once per its own period (to the nearest manager cycle), and an inactive one never; the effective rate is the configured one or the closest the manager can reach, never above its own. The period handed to it is the time since its previous update (for the first one its nominal period, or that of the manager at full rate), and its time never goes backwards. Other controllers do not change its cadence.',
  ['schedules','configurations'],'every combination of manager and controller rates, cycle jitter and (de)activation instants',
  'Tests measure a few fixed rates.',
  [CMC,CI+'src/controller_interface_base.cpp'],[('decimation','ControllerManager::update')])

p('C25','A failing controller is stopped and its fallback takes over',
  'When an active controller returns an error or throws during update (and no request switches the same controllers at that moment) it is deactivated within that cycle, its interfaces are released, and its fallback controllers are activated in the same cycle if they can be. Controllers that need its interfaces stop with it, and controllers that hold command interfaces its fallbacks need may have to. All active controllers that are not connected to it are updated as usual in that and later cycles, also while a request for other controllers is pending.',
  ['fault_sequences','histories','configurations'],'every pattern of failing updates over cycles, chain topologies and fallback lists',
  'Tests fail one controller in fixed setups.',
  [CMC],[('error handling','ControllerManager::update, fallback_controllers')])

p('C26','A hardware failure stops exactly the controllers that depend on it',
  'When a hardware component fails during reading or writing, every active controller that uses one of its interfaces (directly or through controllers chained to it) is inactive after that call with its interfaces released, and every other active controller stays active and keeps being updated. A component that asks for deactivation becomes inactive and takes the controllers with it that command it. Fallback controllers started in place of others count like any other active controller.',
  ['fault_sequences','histories','configurations'],'every assignment of interfaces to controllers, chain topology and pattern of hardware failures',
  'Tests fail one component in one fixed setup.',
  [CMC,RM],[('propagation','ControllerManager::read / write, ResourceManager cached controllers')])

p('C27','Controllers can be loaded, configured and removed only in legal order',
  'Loading is refused for a name already loaded or an unknown type, configuring, cleaning up and unloading are refused for an unknown or active controller, and a refused request changes nothing. A successful one leaves the controller in the corresponding state, a failing callback leaves it in the state the life cycle prescribes, and neither ever affects another controller. An unloaded controller can be loaded again as if it had never existed.',
  ['histories','fault_sequences'],'every history of load, configure, cleanup, unload and switch requests with every callback outcome',
  'Tests run fixed sequences.',
  [CMC],[('lifecycle services','ControllerManager::load_controller, configure_controller, cleanup_controller, unload_controller')])

p('C28','What the introspection services report is what is the case',
  'At every moment the lists of controllers, hardware components and hardware interfaces contain exactly the loaded controllers, the components and the interfaces that exist, with the state, type, rate, claimed and required interfaces, chain relations, availability and ownership they really have. Querying changes nothing.',
  ['histories'],'every history of controller and hardware operations, queried at every point',
  'Tests query once or twice in fixed situations.',
  [CMC,RM],[('services','list_controllers_srv_cb, list_hardware_components_srv_cb, list_hardware_interfaces_srv_cb')])

p('C29','Hardware reaches the lifecycle state that was asked for',
  'At start-up every hardware component is brought to the state configured for it (active by default), where a failing or unknown component does not hinder the ones outside of its group, no member of a group is active if another could not be started with it, and the start is aborted if that was asked for. A description that arrives later, also after refused ones, is treated the same way. A later request by number or name of the state brings a component there along the legal path, answers with the state reached and with success only if that is the requested one, is refused for unknown components and states, and does not touch other components.',
  ['configurations','histories','fault_sequences'],'every initial-state configuration and every history of state requests with failing transitions',
  'Tests try a few configurations.',
  [CMC,RM],[('start-up','ControllerManager::init_resource_manager / hardware_components_initial_state'),('requests','set_hardware_component_state_srv_cb, ResourceManager::set_component_state')])

p('C30','Statistics describe exactly the samples since the last reset',
  'After any sequence of samples and resets the reported count, minimum, maximum, mean and standard deviation are those of the finite samples observed since the last reset (up to rounding), and the current value is the last one. Samples that are not finite numbers do not change them.',
  ['inputs','histories'],'every sequence of samples, resets and reads',
  'Tests cover statistics only through their use.',
  [HI+'include/hardware_interface/types/statistics_types.hpp',HI+'include/hardware_interface/introspection.hpp'],[('moving statistics','MovingAverageStatistics, MovingAverageStatisticsData')])

p('C31','The spawner tools bring controllers to the requested state and tell the truth',
  'For every valid command line and every pattern of service answers the spawner loads (unless already loaded), configures and activates exactly the named controllers, with their own options, in the given order and as far as requested, stops at the first failure and exits successfully exactly if everything it had to do succeeded. Killed with the unload option it deactivates and unloads what it started. The unspawner deactivates and unloads exactly the named controllers, and the hardware spawner requests exactly the given state for the named components that exist.',
  ['inputs','fault_sequences'],'every command line in both syntaxes, every set of loaded controllers and every pattern of failing services',
  'Tests need a running ROS graph and try fixed command lines.',
  [CM+'controller_manager/spawner.py',CM+'controller_manager/unspawner.py',CM+'controller_manager/hardware_spawner.py'],[('main','spawner.main, parse_args_advanced, parse_native_args')])

p('C32','Parameter files and launch descriptions are resolved to the right controller',
  'From any list of parameter files exactly those are handed to a controller that hold parameters for it (by name, namespaced name or wildcard as documented), in the given order and without duplicates, and the type and fallback controllers are those that the files give it: a later file overrides an earlier one, and within a file its own section overrides the wildcard for all nodes. Launch helpers pass each controller exactly the arguments given for it, never leak arguments between calls, and refuse malformed dictionaries.',
  ['inputs'],'every set of generated parameter files, namespaces and controller names, and every launch dictionary',
  'Tests use fixed files.',
  [CM+'controller_manager/controller_manager_services.py',CM+'controller_manager/launch_utils.py'],[('lookup','get_params_files_with_controller_parameters, get_parameter_from_param_files'),('launch','generate_*_launch_description')])

p('C35','The ros2 control verbs do what they are asked and report it truthfully',
  'Every verb sends exactly the request that its arguments describe (names, strictness, timeout, target state) to the given controller manager, with an exit code of success exactly if the manager carried it out, and refuses impossible transitions without a request. The listings show exactly the controllers, types, components, interfaces and their states that the manager reports, and the diagram of chains joins exactly the connected ports.',
  ['inputs','fault_sequences'],'every command line of the thirteen verbs and every content and failure of the manager',
  'Tests cover one diagram only.',
  ['ros2controlcli/ros2controlcli/verb/'+v+'.py' for v in ('switch_controllers','set_controller_state','load_controller','list_controllers','list_hardware_components','view_controller_chains','view_hardware_status')],[('verbs','main() of the verbs in ros2controlcli/ros2controlcli/verb')])

p('C33','Name and container helpers are correct for all inputs',
  'The transform prefix is empty for an empty prefix and otherwise the prefix with the first tilde replaced by the namespace, without leading slashes and ending in a slash (empty if nothing else is left). The container helpers find, add, remove and compare items as sets or sequences prescribe for every content, text stripping removes exactly the surrounding white space, and ordering interfaces by name returns exactly the matching ones in the order of the names and tells whether all were found.',
  ['inputs'],'every string and every container content',
  'Tests use a few literals.',
  [CI+'include/controller_interface/tf_prefix.hpp',HI+'include/hardware_interface/helpers.hpp',CI+'include/controller_interface/helpers.hpp'],[('prefix','resolve_tf_prefix'),('containers','has_item, add_item, remove_item, is_unique, strip'),('ordering','get_ordered_interfaces')])

p('C34','Asynchronous hardware and controllers never run twice at once or out of state',
  'A component or controller that runs asynchronously never executes two of its callbacks at the same time, runs at most once per trigger with the time and period it was triggered with, and never runs in a state it must not run in, while or after it is deactivated, or after it was removed. Every error of such a cycle is reported by a later read, write or update of the same activation, and none is reported that did not happen. The control loop does not run these cycles itself, and a controller whose deactivation was abandoned goes on being updated.',
  ['schedules','fault_sequences'],'every schedule of the worker threads relative to the cycle and every outcome of the asynchronous callbacks',
  'Tests run real threads with sleeps, so they see one schedule.',
  [HI+'src/hardware_component_interface.cpp',CI+'src/controller_interface_base.cpp',CMC],[('hardware','trigger_read / trigger_write'),('controllers','ControllerInterfaceBase::trigger_update, prepare_for_deactivation')])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x['title'])<=80, x['id']
    import re
    n=len(re.findall(r'[.](?:\s|$)', x['statement'])); assert n<=3, (x['id'], n)
out.write_text(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept here so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe, hook_needed=hook)))

HI='hardware_interface/'; CM='controller_manager/'; CI='controller_interface/'
RM=HI+'src/resource_manager.cpp'; HC=HI+'src/hardware_component.cpp'; HCI=HI+'src/hardware_component_interface.cpp'
CMC=CM+'src/controller_manager.cpp'
NOTBUILT="The 20 tests that run here only cover string/limit parsing helpers; upstream's own tests of this part sample a handful of scripted sequences. "

p('H01','Hardware components follow the managed lifecycle exactly',
 "For every sequence of state requests and every outcome reported by the driver's own callbacks, a hardware component only moves along the documented lifecycle: configure, activate, deactivate, cleanup, shutdown and error handling each run only from the states that allow them and end in the state that the callback's outcome dictates. Its read is called only while the component is inactive or active, its write only while it is active and not a sensor, and a finalized component never leaves the finalized state. A request to bring a component to a target state reports success only if the component is in that state afterwards, and always if no callback refused or failed; it only runs the transitions lying on the path to it.",
 ['histories','fault_sequences'],"all sequences of lifecycle requests, read/write cycles and callback outcomes (success, failure, error, exception)",
 NOTBUILT+"The claim is over all histories of requests mixed with faults.",
 [HC,HCI,RM,HI+'include/hardware_interface/lifecycle_helpers.hpp'],
 [('component state machine',HC),('path of transitions to a requested state','resource_manager.cpp set_component_state')],
 ['driver callbacks received','reported component state','return value of the state request'],
 [('lifecycle state','state of each component',HC)])

p('H02','Interfaces are on offer exactly while their hardware can serve them',
 "A state or command interface of a hardware component is available if and only if the component is configured (inactive or active), whatever history of successful, failed and erroneous transitions and read/write cycles led there. An interface that is not available can be neither claimed nor used in a command mode switch, and one component changing state never alters the availability of another component's interfaces.",
 ['histories','fault_sequences'],"all histories of lifecycle requests, cycle errors and controller exports over several components",
 NOTBUILT+"Availability must agree with the lifecycle after every history, including ones where a transition fails half-way.",
 [RM],[('available interface lists','resource_manager.cpp ResourceStorage'),('removal on error','resource_manager.cpp read/write')],
 ['availability and existence queries','claim outcomes'],[('available interfaces','names that may be claimed',RM)])

p('H03','A command interface has at most one owner',
 "At every moment each command interface is lent to at most one holder; it is reported claimed exactly while a loan of it is alive and it is available, and destroying or moving-from the loan is the only thing that gives it back. A claim that cannot be granted is refused with an error and changes nothing, and state interfaces can be lent to any number of holders at once.",
 ['histories','schedules'],"all sequences of claims, moves and releases of loans interleaved with lifecycle changes, from any number of holders and threads",
 NOTBUILT+"Exclusivity is a statement about every interleaving of claims and releases.",
 [RM,HI+'include/hardware_interface/loaned_command_interface.hpp',HI+'include/hardware_interface/loaned_state_interface.hpp'],
 [('claimed flag and release on loan destruction',RM)],['claim/release results','claimed and available queries'],
 [('claimed map','claimed flag per command interface',RM)])

p('H04','A failing hardware component is contained',
 "When reading or writing a component reports an error or throws, in that same cycle its error handling runs, it ends unconfigured or finalized, it is named in the cycle's result together with exactly the other components that failed, and the result of the cycle is an error; a component whose write asks to be deactivated ends that cycle inactive. Members of the same group are taken into error handling as well, and all other components keep being read and written with their states and interfaces untouched.",
 ['histories','fault_sequences','configurations'],"all combinations of simultaneous faults, groups, component kinds and prior states over many cycles",
 NOTBUILT+"The combination of faults of several components in one cycle is not sampled.",
 [RM,HC],[('read/write loops, group state','resource_manager.cpp read, write'),('error()',HC)],
 ['cycle result and failed names','component states','driver callbacks'],[('group state','worst result of a group',RM)])

p('H05','Every component is read and written at its configured rate',
 "A component configured with its own read/write rate is read (and written) on just those control cycles that keep it closest to that rate, never more often than the control loop runs and never starved, and the period handed to it is the time elapsed since its previous read (write). A component whose rate is unset, zero or above the loop rate runs on every cycle.",
 ['configurations','schedules'],"all rate combinations and all patterns of cycle times (jitter, missed cycles)",
 NOTBUILT+"Upstream tests check a few fixed rates with ideal timing.",
 [RM,HC],[('rate decimation','resource_manager.cpp read/write')],['times and periods of the read/write calls seen by the driver'])

p('H06','Command mode switches reach hardware completely or are refused',
 "A command mode switch is accepted only if all named interfaces exist and are available, none is to be both started on hardware that is not active (unless explicitly allowed) nor left unconfirmed by a component that was asked; every available component of a kind that has command modes that is inactive or active is asked to prepare and to perform with the same lists, and one refusing or throwing makes the whole request fail. A request with nothing to start or stop succeeds without asking anyone.",
 ['inputs','histories','fault_sequences'],"all start/stop lists, component states and answers",
 NOTBUILT+"All answers, states and list combinations matter.",
 [RM,HC],[('prepare and perform command mode switch',RM)],['result of prepare/perform','driver callbacks with their arguments'])

p('H07','Loading a robot description is all-or-nothing',
 "Loading a robot description either succeeds, with exactly the described components present, initialised and unconfigured, every declared interface existing under its full name, or fails and leaves no component and no interface behind. Descriptions with duplicated component names, with a driver that fails or throws while initialising, or whose drivers do not provide every declared interface are refused, and a failed attempt does not prevent a later successful one.",
 ['inputs','fault_sequences','histories'],"all descriptions built from the vocabulary of component kinds and interfaces, and all init outcomes",
 NOTBUILT+"The space of descriptions and init faults is not enumerated.",
 [RM,HI+'src/component_parser.cpp'],[('load_and_initialize_components, validate_storage',RM)],['load result','component list and interface names'])

p('H08','Start-up brings hardware to the requested initial states',
 "After the manager receives a valid robot description, components listed as initially unconfigured are unconfigured, those listed as inactive are inactive and all others active, unless a driver's own callback refused, in which case only that component (and, for activation, its group, which is then held inactive) is affected. If shutting down on initial failure is requested, any component missing its initial state makes start-up fail loudly instead of running on.",
 ['configurations','fault_sequences'],"all assignments of components to the initial-state lists and groups with all callback outcomes",
 NOTBUILT+"Configurations times faults.",
 [CMC,RM],[('set_initial_hardware_components_state',CMC)],['component states after start-up','exception on start-up failure'])

p('H09','Asynchronous hardware never runs concurrently with itself',
 "For a component run asynchronously, the control cycle never waits for it (other than to stop it in failure handling) and never starts a new read/write while the previous one is still running; the outcome of a finished run is reported to the manager on a later cycle (unless the component has been activated or cleaned up in between), an error leads to the same error handling as for synchronous hardware, and a write never runs unless the component is active. A change of the lifecycle state lets a running read/write finish first, and once a component has been configured or activated anew no stale outcome of an earlier life is reported as a new fault.",
 ['schedules','fault_sequences'],"all interleavings of control cycles with the run of the component's own thread, with faults",
 NOTBUILT+"Overlap depends on thread schedules.",
 [HCI,HC],[('trigger_read/trigger_write and async handler',HCI)],['begin/end of driver read and write','reported results'])

p('M01','Controllers follow their lifecycle through the manager services',
 "A controller can be loaded once per name, configured only from unconfigured or inactive, cleaned up only from inactive (cleaning up an unconfigured controller succeeds without effect), and unloaded only when unconfigured or inactive; every other request is refused and changes nothing. A request is reported successful exactly when the controller ends in the promised state, and after an unload the name, its parameters of the manager's view and the interfaces it exported are gone and the name can be loaded again.",
 ['histories','fault_sequences'],"all sequences of load, configure, cleanup, switch and unload requests with all callback outcomes",
 NOTBUILT+"All histories of requests with faults.",
 [CMC,CI+'src/controller_interface_base.cpp'],[('load/configure/cleanup/unload',CMC)],['service responses','controller list'],
 [('controller list','loaded controllers and states',CMC)])

p('M02','A strict switch request is atomic',
 "A strict switch request names only controllers that can be switched; if any of them is unknown, in the wrong state, in conflict with another request, lacks an available interface, or the hardware refuses the mode switch, the request is refused and no controller is started, stopped or chained differently and no interface changes hands. If every check passes but some activation fails, every controller activated by this request is stopped again, and success is reported exactly when all requested changes took effect.",
 ['histories','inputs','fault_sequences'],"all requests, prior states and callback/hardware outcomes",
 NOTBUILT+"Atomicity quantifies over every request and fault.",
 [CMC],[('switch_controller_cb, manage_switch',CMC)],['switch response','controller states','interface claims'])

p('M03','A best-effort switch does exactly what is possible',
 "A best-effort switch skips the named controllers that cannot be switched and carries out all the others, and never touches a controller that was not named (other than to restart it for a change of chaining). If every name of a list is unknown the whole request is refused. Interfaces of skipped controllers stay as they were, and after the request no switch is left pending.",
 ['histories','inputs','fault_sequences'],"all requests, prior states and callback outcomes",
 NOTBUILT+"All requests and histories.",
 [CMC],[('switch_controller_cb',CMC)],['switch response','controller states'])

p('M04','Active controllers own just the interfaces they require',
 "At every point between control cycles and requests, an active controller holds exactly the command and state interfaces its configuration asks for, in the configured order, and an inactive, unconfigured or finalized controller holds none; the claims reported by the services are the same. No command interface is required by two active controllers.",
 ['histories','fault_sequences'],"all histories of requests, cycles, controller and hardware faults",
 NOTBUILT+"Invariant over all histories.",
 [CMC,CI+'src/controller_interface_base.cpp',RM],[('activate_controllers/deactivate_controllers',CMC)],['interfaces assigned to controllers','list services'])

p('M05','Controller chains stay consistent',
 "While a controller is active, every controller whose exported interfaces it specifically asks for is active too (a controller asking for all, matching or available interfaces depends on none in particular), unless that one's own callbacks refused or failed outside the control loop's failure handling; a controller enters chained mode exactly when a switch gives its reference interfaces to an active controller and leaves it in the switch that takes the last one away, and chained mode only changes while the controller is not active. Exported reference interfaces can be claimed only while their controller is active (or being activated in the same switch), and switch requests that would break this are refused or reduced.",
 ['histories','configurations','fault_sequences'],"all chain topologies, all histories of switch requests and faults",
 NOTBUILT+"Upstream tests use two fixed topologies.",
 [CMC,CI+'src/chainable_controller_interface.cpp'],[('chain checks of a switch request',CMC)],['controller states and chained flags','claims of reference interfaces'])

p('M06','Controllers run in data-flow order',
 "In every control cycle a controller that writes another controller's reference interfaces is updated before it, and a controller that exports state interfaces is updated before the controllers that read them, for every chain topology without cycles and every order in which the controllers were loaded and configured. The order never omits or duplicates a controller.",
 ['configurations','histories'],"all acyclic chain topologies and all orders of load, configure, unload",
 NOTBUILT+"Orders and topologies are combinatorial.",
 [CMC],[('controller sorting at configure',CMC)],['order of update calls'],)

p('M07','Each cycle updates exactly the active controllers at their rates',
 "Each control cycle updates every active synchronous controller that is due exactly once and no controller that is not active; a controller with its own rate is updated on those cycles that keep it closest to that rate, with the period since its previous update, and one at the manager's rate on every cycle. The rate of a controller is the one it was configured with, never above the manager's and rounded to an achievable one.",
 ['histories','configurations','schedules'],"all mixes of rates, cycle timings and switch histories",
 NOTBUILT+"A few fixed rates are sampled upstream.",
 [CMC,CI+'src/controller_interface_base.cpp'],[('update loop',CMC),('rate computation at configure',CI+'src/controller_interface_base.cpp')],['update calls with time and period'])

p('M08','A controller that fails in update is stopped and replaced',
 "When a controller's update returns an error or throws, in the same cycle that controller and the controllers chained with it are deactivated, their interfaces released and, if fallback controllers are configured, these are activated after any other controller occupying the interfaces they need has been stopped. Controllers not connected with it keep running, and the control loop itself goes on.",
 ['histories','fault_sequences','configurations'],"all combinations of failing controllers, chains and fallback lists",
 NOTBUILT+"Faults in combination with topologies.",
 [CMC],[('failure handling in update',CMC)],['controller states after the cycle','claims'])

p('M09','Controllers of failed hardware are stopped in the same cycle',
 "When a hardware component fails in read or write, all active controllers that use, or have used since start-up, any of its interfaces are deactivated in that cycle, together with the controllers chained behind them, and all others keep running; when a component's write asks for deactivation (and none fails in that cycle), the controllers holding its command interfaces are deactivated and those only reading it continue. Several components failing in one cycle are each handled this way.",
 ['histories','fault_sequences'],"all sets of components failing or deactivating together with all controller assignments",
 NOTBUILT+"Combined faults of several components are not sampled.",
 [CMC,RM],[('read/write of the manager, controllers cached per hardware',CMC)],['controller and component states after the cycle'])

p('M10','Requests and the control loop never corrupt each other',
 "With requests served concurrently to a running control loop, no controller is updated while it is being activated or deactivated, a controller is never updated after its deactivation or unload was reported, at most once per cycle, and never by two threads at once. Every request eventually returns, and a switch that the loop does not carry out within its timeout is reported as failed and is not carried out afterwards.",
 ['schedules'],"all interleavings of requests with a running (or stalled) control loop",
 NOTBUILT+"Interleavings cannot be sampled exhaustively.",
 [CMC,CM+'include/controller_manager/controller_manager.hpp'],[('double-buffered controller list, switch parameters',CMC)],['begin/end of controller callbacks','request returns'])

p('M11','Reported state is the true state',
 "The controller and hardware listings and the published activity always show the actual name, type, lifecycle state, chaining, claims and availability of every loaded controller and component, and nothing that is not loaded. A change of any controller's or component's state is followed by a publication that shows it.",
 ['histories'],"all histories of requests, cycles and faults",
 NOTBUILT+"Agreement after every history.",
 [CMC],[('list services, activity publisher',CMC)],['service responses and activity messages'])

p('C01','Chainable controllers export and consume references correctly',
 "A chainable controller takes references from its own inputs exactly when it is not in chained mode and writes its outputs only if that step succeeded, chained mode cannot change while it is active, and exported interfaces are unique, carry the controller's name as prefix and share storage with the controller. Exports violating naming, count or uniqueness make configuration fail and leave nothing exported.",
 ['inputs','histories'],"all export lists and all histories of mode changes, lifecycle changes and update results",
 "All export lists and histories.",
 [CI+'src/chainable_controller_interface.cpp',CMC],[('export and update',CI+'src/chainable_controller_interface.cpp')],['update path taken','exported interfaces'])

p('C02','Asynchronous controllers never overlap and stop when told',
 "An asynchronous controller's update is never run while its previous run is unfinished, the control loop does not wait for it (other than to stop it in failure handling), and once its deactivation has begun no further run starts and the deactivation callback runs only after the last run ended. A result of a run is reported on a later cycle, and an error then leads to the same handling as for a synchronous controller.",
 ['schedules'],"all interleavings of control cycles, runs of the controller's thread and lifecycle requests",
 NOTBUILT+"Depends on thread schedules.",
 [CI+'src/controller_interface_base.cpp',CMC],[('trigger_update, prepare_for_deactivation',CI+'src/controller_interface_base.cpp')],['begin/end of update and lifecycle callbacks'])

p('C03','Controllers are configured as asked and let go of what they held',
 "A controller configured from unconfigured gets the update rate it asks for if that divides the controller manager's rate, otherwise the rate of the nearest whole number of control cycles, and never more than the controller manager's rate, whatever its rate was before; a negative rate is refused without running the configure callback, and at no other time does the rate change. Each lifecycle transition runs its callback once and the error handling exactly after an error or exception, the reported state is the state reached, and loaned interfaces are given back whenever the controller is shut down or goes through error handling.",
 ['inputs','histories'],"all rates and all histories of parameter changes, transitions and callback outcomes",
 "All rates and histories.",
 [CI+'src/controller_interface_base.cpp'],[('configure, transitions',CI+'src/controller_interface_base.cpp')],['update rate','lifecycle state','callbacks','loans'])

p('D01','Interface values are never lost, mixed up or torn',
 "A value written through any holder of an interface is the value every other holder of that interface reads next, for every supported data type, and a write to one interface never changes another. Copies keep their own value, moved or lent handles keep referring to the same value, reading or writing with the wrong type is refused without effect, and concurrent reads and writes never yield a value nobody wrote.",
 ['inputs','histories','schedules'],"all sequences and interleavings of set, get, copy, move and lend over all data types",
 "Sequences and schedules.",
 [HI+'include/hardware_interface/handle.hpp'],[('Handle',HI+'include/hardware_interface/handle.hpp')],['values read'])

p('L01','Limited commands respect the hard joint limits',
 "For every sequence of commands and measured states within the limits, the command leaving the limiter is inside the position range, differs from the previous one by no more than velocity (and acceleration) limits allow in the period, is inside the velocity (even if the joint is measured outside of its range), effort, acceleration, deceleration and jerk bounds, and equals the requested command whenever that was already admissible; where the acceleration limit and the end of the position range exclude each other, it lies between the two bounds. Unset (NaN) commands pass unchanged. A measured value that is not a number counts as unknown and switches no other limit off. The limiter reports that it limited exactly when it changed the command, and a disabled limit never alters a command.",
 ['inputs','histories'],"all limit sets, command/state sequences and periods",
 "Numeric input space and histories of previous commands.",
 ['joint_limits/src/joint_range_limiter.cpp','joint_limits/src/joint_limits_helpers.cpp'],[('on_enforce','joint_limits/src/joint_range_limiter.cpp')],['limited command and return value'])

p('L02','Soft limits keep commands inside the hard limits with a margin',
 "With soft limits configured and the joint within its limits, the limited command never leaves the hard position, velocity and effort ranges, position commands stay inside the soft range once reached, and commanded velocity shrinks in proportion to the distance from the soft bound and vanishes there (outside of the soft range a fixed slow velocity leads back). Without soft limits a command is limited by the hard limits. Unset (NaN) commands pass unchanged, a measured value that is not a number counts as unknown, and the limiter reports that it limited exactly when it changed the command.",
 ['inputs','histories'],"all limit sets, gains, command/state sequences and periods",
 "Numeric input space and histories.",
 ['joint_limits/src/joint_soft_limiter.cpp'],[('on_enforce','joint_limits/src/joint_soft_limiter.cpp')],['limited command and return value'])

p('L03','Trajectory-point limiting respects every joint and brakes in time',
 "For trajectory points of any number of joints, the limited point obeys every joint's velocity and acceleration or deceleration limits and its position range as far as the braking capability allows, a point already within all limits with twice the room it needs to stop is passed unchanged, and any joint about to run past its limit makes all joints brake together, which never speeds a joint up. The limiter reports it whenever it changed the point. Points lacking the needed data or with a non-positive period are left untouched.",
 ['inputs'],"all joint counts, limit sets, states and points",
 "Numeric input space.",
 ['joint_limits/src/joint_saturation_limiter.cpp'],[('on_enforce','joint_limits/src/joint_saturation_limiter.cpp')],['limited point and return value'])

p('L04','Commands are limited before they reach hardware',
 "With limit enforcement on, in every cycle every command value that a controller holds claimed and that has limits in the robot description is limited before the hardware is written, using the limits of that joint and only those, each the tightest of what the kinematic description and the interface's own tags give; values of unclaimed interfaces are left alone, and a change of command mode restarts limiting from the measured state. With enforcement off, values reach hardware exactly as written.",
 ['histories','configurations'],"all claim histories, joints and limit sets",
 NOTBUILT+"Histories of claims and mode switches.",
 [RM],[('enforce_command_limits, import of limiters',RM)],['values seen by the driver in write'])

p('T01','Transmissions are exact inverses of each other',
 "For every valid geometry, mapping actuator values to joint values and back (and the reverse) gives the original values for position, velocity and effort-like quantities, absolute position and other quantities being mapped only where defined, and mechanical power is preserved. Only interfaces present on both sides are written, all others keep their values.",
 ['inputs','configurations'],"all reductions, offsets, interface subsets and values",
 "Numeric and combinatorial space.",
 ['transmission_interface/include/transmission_interface/simple_transmission.hpp','transmission_interface/include/transmission_interface/differential_transmission.hpp','transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp'],
 [('actuator_to_joint, joint_to_actuator','transmission_interface/include/transmission_interface')],['handle values'])

p('T02','Invalid transmissions are refused',
 "A transmission is accepted only with non-zero reductions, the right number of distinct joints and actuators and at least one quantity present on both sides with complete handles; anything else is refused with an error, and a loader given a description with too few joints or actuators or with a zero reduction refuses without crashing (a reduction or offset that is left out or is not a number takes its default, 1 or 0). An accepted transmission connects every joint and actuator to the role and parameters given in the description, whatever the order in which handles are passed.",
 ['inputs','configurations'],"all handle sets and transmission descriptions",
 "Combinatorial space of handle sets.",
 ['transmission_interface/include/transmission_interface/differential_transmission.hpp','transmission_interface/src/differential_transmission_loader.cpp'],
 [('configure, loaders','transmission_interface')],['accept/refuse outcome','handle values'])

p('X01','The control loop keeps its pace after overruns',
 "In periodic operation the next cycle is scheduled exactly one period after the previous one; after an overrun with overrun management on, it is moved by a whole number of periods so that it is again not in the past and the phase is kept, and with management off every missed cycle is made up. In blocking mode a cycle shorter than the minimum is stretched.",
 ['schedules'],"all cycle durations and periods",
 "All overrun durations.",
 [CM+'src/sleeping_policies.cpp'],[('sleep policies',CM+'src/sleeping_policies.cpp')],['scheduled next iteration time'])

p('G01','Mock hardware mirrors commands faithfully',
 "The bundled mock system reflects each written command into the state interface of the same name (with configured offset, dynamics and mimic factors), leaves states without a command at their initial values, and changes nothing when reading is disabled. Fake commands exist exactly where the parameters ask for them. An infinite command of a mirrored interface makes the read fail; with dynamics, a mode change that starts none or several of position, velocity and acceleration for a joint is refused, for that joint and no other.",
 ['histories','configurations','inputs'],"all interface sets, parameters and command sequences",
 "All configurations and command histories.",
 [HI+'src/mock_components/generic_system.cpp'],[('GenericSystem',HI+'src/mock_components/generic_system.cpp')],['state values after read'])

p('S01','The spawner ends with what it was asked for or says it failed',
 "For every combination of options, initial controller states, refused, lost, late or interrupted requests: the spawner exits successfully without having been interrupted only if every named controller was loaded and, unless told otherwise, configured and active. It gives parameters and files only to controllers that are not loaded yet and before loading them, skips loading a loaded controller, goes on in the given order load, configure, activate, and stops with failure at the first request that is refused or never answered; asked to act as a group it activates all of them in one strict request at the end. It holds the spawner lock for all of that and not while waiting or after its end. Told to unload at termination, an interrupt at any time makes it deactivate those of the controllers it was activating that are active, in one strict request, and unload all of them, reporting failure if any of that fails; it never touches any other controller.",
 ['histories','fault_sequences','inputs','schedules'],"all option combinations, initial controller states and service outcomes",
 "Options times faults times moments of an interrupt, and several spawners at once.",
 [CM+'controller_manager/spawner.py',CM+'controller_manager/controller_manager_services.py'],[('main',CM+'controller_manager/spawner.py')],['sequence of service requests','exit code','lock'])

p('S02','The unspawner and the hardware spawner request what they were told to',
 "The unspawner asks for the deactivation of all named controllers in one strict request, whatever the answer goes on to unload them in the given order, and exits with failure at the first unload that is refused. The hardware spawner asks, for each named component that exists and in the given order, for exactly the state it was told, and fails if the controller manager is not there or never answers. Neither touches anything else.",
 ['histories','fault_sequences','inputs'],"all option combinations, initial states and service outcomes",
 "Options times faults.",
 [CM+'controller_manager/unspawner.py',CM+'controller_manager/hardware_spawner.py',CM+'controller_manager/controller_manager_services.py'],[('main',CM+'controller_manager/unspawner.py'),('main',CM+'controller_manager/hardware_spawner.py')],['sequence of service requests','exit code'])

p('K01','Execution statistics describe the samples they were given',
 "The running statistics report, after any sequence of measurements, resets and non-finite values, the count, minimum, maximum, mean and population deviation of just the finite measurements since the last reset. The minimum never exceeds the mean nor the mean the maximum.",
 ['inputs','histories'],"all sequences of measurements and resets",
 "Histories of measurements.",
 [HI+'include/hardware_interface/types/statistics_types.hpp'],[('MovingAverageStatistics',HI+'include/hardware_interface/types/statistics_types.hpp')],['reported statistics'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    seen=set()
    with open(out,'w') as f:
        for d in P:
            assert d['id'] not in seen and len(d['title'])<=80, d['id']
            seen.add(d['id'])
            f.write(json.dumps(d)+'\n')
    print(len(P))

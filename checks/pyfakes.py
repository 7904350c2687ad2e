"""Stand-ins for the ROS 2 Python packages, enough to run ros2_control's command line tools against a
model of the controller manager that answers, refuses, loses requests, or is killed at scripted points."""
import copy, importlib.abc, importlib.machinery, os, signal, sys, types
import yaml

REPO = os.environ.get('VERIF_REPO', '/repo')


class Abort(BaseException):
    """the tool does something no sequence of answers justifies (endless waiting, a wrong service...)"""


class Unhandled(BaseException):
    """a signal reached a process that does not handle it"""


# ---------------------------------------------------------------- messages
class Msg:
    FIELDS = {}

    def __init__(self, **kw):
        for k, v in self.FIELDS.items():
            object.__setattr__(self, k, v() if callable(v) else copy.copy(v))
        for k, v in kw.items():
            setattr(self, k, v)

    def __setattr__(self, k, v):
        if self.FIELDS and k not in self.FIELDS:
            raise AttributeError(f'{type(self).__name__} has no field {k}')
        f = self.FIELDS.get(k)
        d = f() if callable(f) else f
        if isinstance(d, str) and not isinstance(v, str):
            raise AssertionError(f"The '{k}' field must be of type 'str' (got {v!r})")
        if isinstance(d, int) and not isinstance(v, int):
            raise AssertionError(f"The '{k}' field must be of type 'int' (got {v!r})")
        if isinstance(d, list) and (isinstance(v, str) or not hasattr(v, '__iter__')):
            raise AssertionError(f"The '{k}' field must be a sequence (got {v!r})")
        if isinstance(d, list) and k.endswith('_controllers') and not all(isinstance(x, str) for x in v):
            raise AssertionError(f"The '{k}' field must be a sequence of 'str' (got {v!r})")
        object.__setattr__(self, k, v)

    def __eq__(self, o):
        return type(self) is type(o) and vars(self) == vars(o)

    __hash__ = None

    def __repr__(self):
        return f'{type(self).__name__}({", ".join(f"{k}={v!r}" for k, v in vars(self).items())})'


def msg(msg_type, **fields):
    return type(msg_type, (Msg,), dict(FIELDS=fields))


State = msg('State', id=0, label='')
for i, n in enumerate(['UNKNOWN', 'UNCONFIGURED', 'INACTIVE', 'ACTIVE', 'FINALIZED']):
    setattr(State, 'PRIMARY_STATE_' + n, i)
Duration_ = msg('Duration', sec=0, nanosec=0)
HardwareInterface = msg('HardwareInterface', name='', data_type='', is_available=False, is_claimed=False)
HardwareComponentState = msg('HardwareComponentState', name='', type='', is_async=False, rw_rate=0, plugin_name='',
                             state=State, command_interfaces=list, state_interfaces=list)
ChainConnection = msg('ChainConnection', name='', reference_interfaces=list)
ControllerState = msg('ControllerState', name='', state='', type='', is_async=False, update_rate=0, claimed_interfaces=list,
                      required_command_interfaces=list, required_state_interfaces=list, is_chainable=False,
                      is_chained=False, exported_state_interfaces=list, reference_interfaces=list, chain_connections=list)
ParameterValue = msg('ParameterValue', value=lambda: None)
Parameter = msg('Parameter', name='', value=lambda: None)
SetParametersResult = msg('SetParametersResult', successful=False, reason='')


def srv(name, req, resp, **consts):
    r = type(name + '_Request', (Msg,), dict(FIELDS=req))
    for k, v in consts.items():
        setattr(r, k, v)
    return type(name, (), dict(Request=r, Response=type(name + '_Response', (Msg,), dict(FIELDS=resp))))


OK = dict(ok=False)
SRV = dict(
    ListControllers=srv('ListControllers', {}, dict(controller=list)),
    ListControllerTypes=srv('ListControllerTypes', {}, dict(types=list, base_classes=list)),
    ListHardwareComponents=srv('ListHardwareComponents', {}, dict(component=list)),
    ListHardwareInterfaces=srv('ListHardwareInterfaces', {}, dict(command_interfaces=list, state_interfaces=list)),
    LoadController=srv('LoadController', dict(name=''), OK),
    ConfigureController=srv('ConfigureController', dict(name=''), OK),
    CleanupController=srv('CleanupController', dict(name=''), OK),
    UnloadController=srv('UnloadController', dict(name=''), OK),
    ReloadControllerLibraries=srv('ReloadControllerLibraries', dict(force_kill=False), OK),
    SetHardwareComponentState=srv('SetHardwareComponentState', dict(name='', target_state=State), dict(ok=False, state=State)),
    SwitchController=srv('SwitchController',
                         dict(activate_controllers=list, deactivate_controllers=list, strictness=0, activate_asap=False,
                              timeout=Duration_), dict(ok=False, message=''), BEST_EFFORT=1, STRICT=2, AUTO=3, FORCE_AUTO=4))
SetParameters = srv('SetParameters', dict(parameters=list), dict(results=list))
ListParameters = srv('ListParameters', {}, dict(result=lambda: None))
SERVICE_NAME = dict(ListControllers='list_controllers', ListControllerTypes='list_controller_types',
                    ListHardwareComponents='list_hardware_components', ListHardwareInterfaces='list_hardware_interfaces',
                    LoadController='load_controller', ConfigureController='configure_controller',
                    CleanupController='cleanup_controller', UnloadController='unload_controller',
                    ReloadControllerLibraries='reload_controller_libraries',
                    SetHardwareComponentState='set_hardware_component_state', SwitchController='switch_controller',
                    SetParameters='set_parameters', ListParameters='list_parameters')


def get_parameter_value(string_value):
    """as rclpy.parameter.get_parameter_value"""
    try:
        v = yaml.safe_load(string_value)
    except yaml.YAMLError:
        v = string_value
    if isinstance(v, list):
        if not (all(isinstance(x, bool) for x in v) or all(type(x) is int for x in v) or
                all(isinstance(x, float) for x in v) or all(isinstance(x, str) for x in v)):
            v = string_value
    elif not isinstance(v, (bool, int, float)):
        v = string_value if not isinstance(v, str) else v
    return ParameterValue(value=v)


# ---------------------------------------------------------------- the controller manager model
CONTROLLER_SERVICES = ('LoadController', 'ConfigureController', 'CleanupController', 'UnloadController')
OPERATION = {'LoadController': 'load', 'ConfigureController': 'configure', 'CleanupController': 'cleanup',
             'UnloadController': 'unload', 'SwitchController': 'switch', 'SetParameters': 'set', 'ListControllers': 'list',
             'SetHardwareComponentState': 'hw'}


class World:
    """what the tool under test talks to"""

    def __init__(self, case):
        self.cm = case['cm']                                # full name of the controller manager
        self.ctrl = dict(case.get('loaded', {}))            # name -> state
        self.hw = dict(case.get('hw', {}))                  # name -> state id
        self.fail = set(map(tuple, case.get('fail', [])))   # (operation, name) that the manager refuses
        self.lost = {tuple(k): list(v) for k, v in case.get('lost', [])}  # (operation, name) -> ['request'|'response', times]
        self.absent = case.get('absent', 0)                 # how often one has to wait until the manager is there
        self.kill = case.get('kill')                        # [operation | 'wait', name, 'before' | 'after', signal]
        self.again = case.get('again')                      # a second signal during this call of the cleanup
        self.ever_locked = False
        self.lock_busy = case.get('lock_busy', 0)
        self.fixed = case.get('fixed')                      # canned answers of the listing services
        self.param = {}
        self.log = []                                       # requests that reached the manager
        self.calls = 0
        self.killed = self.killed_waiting = False
        self.waits = 0
        self.locked = False
        self.unlocked_requests = 0
        self.locked_wait = False
        self.logs = []
        self.activated = []
        self.timeouts = []
        self.nodes = 0

    def signal(self):
        self.killed = True
        self.kill_at = self.calls
        self.kill_log = len(self.log)
        signal.raise_signal(getattr(signal, self.kill[3]))

    def call(self, service, request):
        """one attempt; returns the response or None when none arrives"""
        k = self.calls
        self.calls += 1
        if self.calls > 400:
            raise Abort('the tool keeps calling services')
        op = OPERATION.get(service, service)
        name = getattr(request, 'name', '')
        if service == 'SetParameters':
            name = request.parameters[0].name
        if service == 'SwitchController':
            name = (list(request.activate_controllers) + list(request.deactivate_controllers) + [''])[0]
        here = self.kill and self.kill[0] == op and self.kill[1] in (name, None) and not self.killed
        if here and self.kill[2] == 'before':
            self.signal()
        elif self.killed and self.again is not None and self.calls - self.kill_at == self.again:
            signal.raise_signal(getattr(signal, self.kill[3]))
        lost = None
        l = self.lost.get((op, name))
        if l and l[1] > 0:
            l[1] -= 1
            lost = l[0]
        response = None if lost == 'request' else self.answer(service, copy.deepcopy(request))
        if here and self.kill[2] == 'after':
            self.signal()
        return None if lost else response

    def answer(self, service, q):
        s = SRV.get(service) or SetParameters
        r = s.Response()
        names = OPERATION
        if service == 'ListControllers':
            if self.fixed and 'controllers' in self.fixed:
                r.controller = self.fixed['controllers']
            else:
                r.controller = [ControllerState(name=n, state=s) for n, s in self.ctrl.items()]
            return r
        if service == 'ListHardwareComponents':
            if self.fixed and 'components' in self.fixed:
                r.component = self.fixed['components']
            else:
                r.component = [HardwareComponentState(name=n, state=state(s)) for n, s in self.hw.items()]
            return r
        if service == 'ListHardwareInterfaces':
            r.command_interfaces = self.fixed['commands']
            r.state_interfaces = self.fixed['states']
            return r
        if service == 'ListControllerTypes':
            r.types, r.base_classes = map(list, zip(*self.fixed['types'])) if self.fixed['types'] else ([], [])
            return r
        if not self.locked and not self.killed:
            self.unlocked_requests += 1
        if service == 'SetParameters':
            for p in q.parameters:
                ok = ('set', p.name) not in self.fail
                self.log.append(('set', p.name, p.value.value, ok))
                if ok:
                    self.param[p.name] = p.value.value
                r.results.append(SetParametersResult(successful=ok))
            return r
        if service in CONTROLLER_SERVICES:
            op = names[service]
            st = self.ctrl.get(q.name)
            ok = (op, q.name) not in self.fail and {
                'load': st is None, 'configure': st in ('unconfigured', 'inactive'),
                'cleanup': st in ('unconfigured', 'inactive'),
                'unload': st is not None and st != 'active'}[op]
            if ok and op == 'load':
                self.ctrl[q.name] = 'unconfigured'
            elif ok and op == 'configure':
                self.ctrl[q.name] = 'inactive'
            elif ok and op == 'cleanup':
                self.ctrl[q.name] = 'unconfigured'
            elif ok:
                del self.ctrl[q.name]
            r.ok = ok
            self.log.append((op, q.name, ok))
            return r
        if service == 'SwitchController':
            a, d = list(q.activate_controllers), list(q.deactivate_controllers)
            strict = q.strictness == 2
            bad = [n for n in a if self.ctrl.get(n) != 'inactive' or ('activate', n) in self.fail] + \
                  [n for n in d if self.ctrl.get(n) != 'active' or ('deactivate', n) in self.fail]
            ok = ('switch', '') not in self.fail and not (bad and strict)
            if ok:
                for n in a:
                    if n not in bad:
                        self.ctrl[n] = 'active'
                        self.activated.append(n)
                for n in d:
                    if n not in bad:
                        self.ctrl[n] = 'inactive'
            r.ok = ok
            r.message = 'switched' if ok else 'refused ' + ','.join(bad)
            self.log.append(('switch', a, d, int(q.strictness), bool(q.activate_asap),
                             q.timeout.sec * 10**9 + q.timeout.nanosec, ok))
            return r
        if service == 'SetHardwareComponentState':
            ok = q.name in self.hw and ('hw', q.name) not in self.fail
            if ok:
                self.hw[q.name] = q.target_state.id
            r.ok = ok
            r.state = state(self.hw.get(q.name, 0)) if ok or q.name in self.hw else State()
            self.log.append(('hw', q.name, q.target_state.id, q.target_state.label, ok))
            return r
        if service == 'ReloadControllerLibraries':
            r.ok = ('reload', '') not in self.fail
            self.log.append(('reload', bool(q.force_kill), r.ok))
            return r
        raise Abort('unexpected service ' + service)


LABEL = {0: 'unknown', 1: 'unconfigured', 2: 'inactive', 3: 'active', 4: 'finalized'}


def state(i):
    return State(id=i, label=LABEL[i])


W = None  # the current World


def set_world(w):
    global W
    W = w


# ---------------------------------------------------------------- rclpy
class Logger:
    def __getattr__(self, level):
        if level.startswith('__'):
            raise AttributeError(level)
        return lambda *a, **k: W.logs.append((level, ' '.join(map(str, a))))


class Future:
    def __init__(self, r):
        self.r = r

    def result(self):
        return self.r

    def done(self):
        return self.r is not None

    def exception(self):
        return None

    def cancel(self):
        pass


class Client:
    def __init__(self, node, type_, name):
        self.type, self.name, self.waits = type_.__name__, name, 0
        self.want = f'{W.cm}/{SERVICE_NAME.get(self.type, "?")}'

    def _there(self):
        if self.name != self.want:
            return False
        return W.waits >= W.absent

    def service_is_ready(self):
        return self._there()

    def wait_for_service(self, timeout_sec=None):
        self.waits += 1
        W.waits += 1
        W.timeouts.append(('wait', timeout_sec))
        if self.waits > 60:
            raise Abort(f'waiting for ever for {self.name} (the controller manager is {W.cm})')
        return self._there()

    def call_async(self, request):
        if not self._there():
            raise Abort(f'calling {self.name}, which is not there')
        return Future(W.call(self.type, request))

    def call(self, request):
        return self.call_async(request).result()


class Node:
    def __init__(self, name, **kw):
        W.nodes += 1
        self.name = name
        self.namespace = '/'
        ros = False
        for a in sys.argv[1:]:
            if a == '--ros-args':
                ros = True
            elif a == '--':
                ros = False
            elif ros and a.startswith('__ns:='):
                self.namespace = a[len('__ns:='):]
            elif ros and a.startswith('__node:='):
                self.name = a[len('__node:='):]

    def get_name(self):
        return self.name

    def get_namespace(self):
        return self.namespace

    def get_logger(self):
        return Logger()

    def create_client(self, type_, name, **kw):
        if not name.startswith('/'):
            name = ('' if self.namespace == '/' else self.namespace) + '/' + name
        return Client(self, type_, name)

    def create_subscription(self, type_, topic, callback, qos):
        W.subscriptions = getattr(W, 'subscriptions', [])
        W.subscriptions.append((type_.__name__, topic, callback))

    def destroy_node(self):
        W.nodes -= 1


class Duration:
    def __init__(self, *, seconds=0, nanoseconds=0):
        for x in (seconds, nanoseconds):
            if not isinstance(x, (int, float)):  # the real one multiplies and converts, which no text survives
                raise TypeError(f'invalid duration {x!r}')
        self.nanoseconds = int(seconds * 1000000000) + int(nanoseconds)

    def to_msg(self):
        return Duration_(sec=self.nanoseconds // 10**9, nanosec=self.nanoseconds % 10**9)


def remove_ros_args(args=None):
    out, ros = [], False
    for a in (sys.argv if args is None else args):
        if a == '--ros-args':
            ros = True
        elif ros and a == '--':
            ros = False
        elif not ros:
            out.append(a)
    return out


def spin_until_future_complete(node, future, executor=None, timeout_sec=None):
    W.timeouts.append(('call', timeout_sec))


def spin(node):
    W.on_spin(node)


class Timeout(TimeoutError):
    pass


class FileLock:
    def __init__(self, path, *a, **k):
        self.path = path
        if not os.path.isdir(os.path.dirname(path)):
            raise Abort('the directory of the lock does not exist')

    def acquire(self, timeout=None, **k):
        if W.lock_busy > 0:
            W.lock_busy -= 1
            raise Timeout(self.path)
        W.locked = W.ever_locked = True
        return self

    @property
    def is_locked(self):
        return W.locked

    def release(self, force=False):
        W.locked = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


# ---------------------------------------------------------------- launch
class Action:
    def __init__(self, *a, **k):
        self.args, self.kw = a, k


class LaunchConfiguration(Action):
    pass


class PythonExpression(Action):
    pass


class DeclareLaunchArgument(Action):
    pass


class LaunchNode(Action):
    pass


class LaunchDescription(Action):
    def __init__(self, entities=None, **k):
        super().__init__(entities, **k)
        self.entities = list(entities or [])

    def add_action(self, a):
        self.entities.append(a)


def resolve(x, env):
    """the text a launch substitution stands for"""
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return ''.join(resolve(y, env) for y in x)
    if isinstance(x, LaunchConfiguration):
        return env[resolve(x.args[0], env)]
    if isinstance(x, PythonExpression):
        return str(eval(resolve(x.args[0], env), {}))
    raise Abort(f'{x!r} is no launch argument')


# ---------------------------------------------------------------- ros2cli
class NodeStrategy:
    def __init__(self, args, **k):
        self.direct_node = self

    def __enter__(self):
        return Node('_ros2cli')

    def __exit__(self, *a):
        return False


class VerbExtension:
    def __init__(self):
        pass


class Placeholder:
    def __init__(self, *a, **k):
        pass


def add_arguments(parser):
    parser.add_argument('--spin-time', type=float, default=None)
    parser.add_argument('-s', '--use-sim-time', action='store_true')


class AGraph:
    def __init__(self, *a, **k):
        self.nodes, self.edges, self.node_attr, self.graph_attr = {}, [], {}, {}
        W.graphs = getattr(W, 'graphs', []) + [self]

    def add_node(self, n, **attr):
        self.nodes.setdefault(n, {}).update(attr)

    def add_edge(self, u, v=None, key=None, **attr):
        if v is None:
            u, v = u
        self.edges.append((u, v, attr))

    def layout(self, *a, **k):
        pass

    def draw(self, *a, **k):
        pass


CONTENT = {
    'rclpy': dict(init=lambda *a, **k: None, shutdown=lambda *a, **k: None, ok=lambda *a, **k: True, spin=spin,
                  spin_until_future_complete=spin_until_future_complete, create_node=lambda n, **k: Node(n)),
    'rclpy.logging': dict(get_logger=lambda n: Logger()),
    'rclpy.utilities': dict(remove_ros_args=remove_ros_args),
    'rclpy.node': dict(Node=Node),
    'rclpy.duration': dict(Duration=Duration),
    'rclpy.parameter': dict(get_parameter_value=get_parameter_value),
    'rclpy.signals': dict(SignalHandlerOptions=types.SimpleNamespace(NO=0, SIGINT=1, SIGTERM=2, ALL=3)),
    'controller_manager_msgs': {},
    'controller_manager_msgs.srv': SRV,
    'controller_manager_msgs.msg': dict(ControllerState=ControllerState, ChainConnection=ChainConnection,
                                        HardwareInterface=HardwareInterface, HardwareComponentState=HardwareComponentState),
    'lifecycle_msgs.msg': dict(State=State),
    'rcl_interfaces.msg': dict(Parameter=Parameter, ParameterValue=ParameterValue),
    'rcl_interfaces.srv': dict(SetParameters=SetParameters, ListParameters=ListParameters),
    'filelock': dict(Timeout=Timeout, FileLock=FileLock),
    'launch': dict(LaunchDescription=LaunchDescription),
    'launch.actions': dict(DeclareLaunchArgument=DeclareLaunchArgument),
    'launch.substitutions': dict(LaunchConfiguration=LaunchConfiguration, PythonExpression=PythonExpression),
    'launch_ros.actions': dict(Node=LaunchNode),
    'ros2cli.node.direct': dict(add_arguments=add_arguments),
    'ros2cli.node.strategy': dict(NodeStrategy=NodeStrategy),
    'ros2cli.verb': dict(VerbExtension=VerbExtension),
    'ros2topic.api': dict(get_topic_names_and_types=lambda **k: W.fixed['topics']),
    'rosidl_runtime_py': dict(message_to_yaml=lambda m, **k: yaml.safe_dump(m)),
    'pygraphviz': dict(AGraph=AGraph),
}
PREFIXES = {k.split('.')[0] for k in CONTENT} | {'ros2node', 'control_msgs', 'launch_ros', 'lifecycle_msgs', 'std_msgs',
                                                 'builtin_interfaces', 'ament_index_python', 'ros2param', 'ros2service'}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in PREFIXES:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__dict__.update(CONTENT.get(spec.name, {}))

        def lookup(attr, name=spec.name):
            if attr.startswith('__'):
                raise AttributeError(attr)
            full = f'{name}.{attr}'
            if full in CONTENT or any(k.startswith(full + '.') for k in CONTENT):
                return importlib.import_module(full)
            return type(attr, (Placeholder,), {})
        m.__getattr__ = lookup
        return m

    def exec_module(self, module):
        pass


def install():
    sys.meta_path.insert(0, Finder())
    sys.path.insert(0, os.path.join(REPO, 'controller_manager'))
    sys.path.insert(0, os.path.join(REPO, 'ros2controlcli'))
    sys.dont_write_bytecode = True
    os.environ['RCUTILS_COLORIZED_OUTPUT'] = '0'
    import time
    time.sleep = Time.sleep
    signal.pause = Time.sleep


class Time:
    """waiting is where a signal arrives"""

    @staticmethod
    def sleep(s=1):
        w = W
        if not w.ever_locked:   # waiting for the lock
            return
        w.waiting = getattr(w, 'waiting', 0) + 1
        if w.waiting == 1:
            w.locked_wait = w.locked
            w.log.append(('wait',))
        if w.kill and not w.killed and w.waiting >= 2:
            w.killed_waiting = True
            w.signal()
        if w.waiting > 50:
            raise Abort('the tool waits for ever')


def run(main, argv, world):
    """runs a tool as its entry point does: returns its exit code (exceptions are exit code 1 like Python's)"""
    set_world(world)
    old = sys.argv
    sys.argv = argv

    def unhandled(signum, frame):
        raise Unhandled(signum)
    saved = [(s, signal.signal(s, unhandled)) for s in (signal.SIGINT, signal.SIGTERM)]
    world.error = None
    try:
        rc = main()
        if rc is None:
            return 0
        return rc if isinstance(rc, int) else 1
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Abort:
        raise
    except (Exception, KeyboardInterrupt, Unhandled) as e:
        world.error = e
        return 1
    finally:
        for s, h in saved:
            signal.signal(s, h)
        sys.argv = old

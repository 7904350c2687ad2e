"""generators of the cases of tools.py"""
from hypothesis import strategies as st

NAMES = ['ctrl', 'ctrl_1', 'ctrl_10', 'a', 'b', 'c', 'joint_state_broadcaster']
NS = ['/', '/', '/', '/foo', '/foo/bar']
TYPES = ['pkg/TypeA', 'pkg/TypeB', 'other_pkg/Type::C']
LOADED = ['unconfigured', 'inactive', 'active', 'finalized']


def some(*x):
    return st.sampled_from(list(x))


def maybe(s, k=3):
    return st.integers(0, k).flatmap(lambda i: s if i == 0 else st.none())


def chance(k):
    return st.integers(0, k).map(lambda i: i == k)


@st.composite
def params(draw, types=True):
    p = {}
    if draw(st.booleans()):
        p['type'] = draw(some(*TYPES))
    if draw(chance(2)):
        p['fallback_controllers'] = draw(st.one_of(st.lists(some('fb1', 'fb2', 'a'), min_size=1, max_size=3, unique=True), st.just([])))
    if draw(st.booleans()):
        p['joints'] = ['joint1', 'joint2']
    return p


@st.composite
def sections(draw, names, ns, malformed=False, max_size=4):
    """the sections of one file; keys are unique"""
    out, seen = [], set()
    for _ in range(draw(st.integers(0, max_size))):
        n = draw(some(*names))
        full = ('/' if ns == '/' else ns + '/') + n
        forms = [full, full, '/**/' + n, '/**' + full, '/**', n if ns == '/' else full, '/other/' + n, n + '_x',
                 n if malformed else full]
        key = draw(some(*forms))
        nested = key != '/**' and draw(chance(3))
        if (key, nested) in seen or key == '/**?' and ('/**', False) in seen:
            continue
        seen.add((key, nested))
        p = None if malformed and draw(chance(5)) and key != '/**' else draw(params())
        out.append([key, nested, p])
    if malformed and draw(chance(9)) and not any(k == '/**' or n for k, n, _ in out):
        out.append(['/**?', False, {}])
    return out


@st.composite
def options(draw, spawner=True):
    o = {}
    o['cm'] = draw(maybe(some('controller_manager', 'cm', '/cm', '/x/y/cm', 'sub/cm')))
    o['switch_timeout'] = draw(maybe(some(0.0, 0.5, 2.0, 7.25, 100.0)))
    o['cm_timeout'] = draw(maybe(some(0.5, 3.0)))
    if spawner:
        o['call_timeout'] = draw(maybe(some(1.0, 4.5)))
        o['group'] = draw(chance(2))
        o['asap'] = draw(some(None, None, True, False))
        o['unload'] = draw(chance(2))
    return o


ROS_ARGS = ['-r /a:=/b', '--ros-args --remap x:=y', '--param run_cycle:=20 -p test_cycle:=-11.0', 'x:=1', '-r a:=b -r c:=d']
OPS = ['load', 'configure', 'activate', 'set']


@st.composite
def manager(draw, case, names, ops):
    """what is loaded, what fails, what gets lost"""
    case['loaded'] = draw(st.dictionaries(some(*names), some(*LOADED), max_size=3)) if draw(st.booleans()) else {}
    case['fail'] = []
    case['lost'] = []
    case['absent'] = 0
    kind = draw(st.integers(0, 5))
    if kind == 1:
        for _ in range(draw(st.integers(1, 2))):
            op = draw(some(*ops))
            n = draw(some(*names))
            if op == 'set':
                n += '.' + draw(some('type', 'params_file', 'fallback_controllers', 'node_options_args'))
            case['fail'].append([op, n])
        if draw(chance(5)):
            case['fail'].append(['switch', ''])
    elif kind == 2:
        op = draw(some(*[{'activate': 'switch', 'deactivate': 'switch', 'set': 'load'}.get(x, x) for x in ops]))
        mode = draw(some(['request', 1], ['request', 2], ['request', 99], ['response', 1], ['response', 2]))
        case['lost'].append([[op, draw(some(*names))], mode])
    elif kind == 3:
        case['absent'] = draw(st.integers(0, 4))


@st.composite
def spawn(draw, launch=False):
    case = dict(kind='spawn', spell=draw(st.integers(0, 10000)), ns=draw(some(*NS)), opt=draw(options()))
    names = draw(st.lists(some(*NAMES), min_size=1, max_size=4, unique=not draw(chance(9))))
    case['advanced'] = draw(st.booleans())
    nf = draw(some(0, 0, 1, 1, 2, 3))
    case['files'] = [draw(sections(names, case['ns'])) for _ in range(nf)]
    one = lambda: dict(files=draw(st.lists(st.integers(0, nf - 1), max_size=3)) if nf else [],
                       load_only=draw(chance(3)), inactive=draw(chance(3)),
                       ros_args=draw(st.lists(some(*ROS_ARGS), max_size=2)) if draw(chance(3)) else [])
    shared = one()
    case['controllers'] = [dict(one() if case['advanced'] else shared, name=n) for n in names]
    case['ros_files'] = draw(st.lists(st.integers(0, nf - 1), max_size=2)) if nf and draw(chance(3)) else []
    draw(manager(case, names + ['other'], OPS))
    case['missing'] = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=1)) if nf and draw(chance(15)) else []
    case['lock_busy'] = draw(some(0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 1000))
    case['kill'] = None
    sig = draw(some('SIGINT', 'SIGTERM'))
    if case['opt']['unload']:
        case['kill'] = ['wait', None, '', sig]
    if not case['lost'] and draw(chance(3 if not case['opt']['unload'] else 1)) and not case['missing']:
        op = draw(some('list', 'load', 'configure', 'switch', 'set', 'wait'))
        if op != 'wait':
            # (when set, the first call of that kind is meant for any controller; the wait then never comes)
            n = '' if op == 'list' else None if op == 'set' or draw(chance(2)) else draw(some(*names))
            kill = [op, n, draw(some('before', 'after')), sig]
            case['kill'] = kill
    if case['kill'] and draw(chance(2)):
        case['again'] = draw(st.integers(1, 3))
    if case['opt']['unload']:
        case['lost'] = []
        if case['fail'] and draw(st.booleans()):
            case['fail'] = [[draw(some('deactivate', 'unload', 'unload')), draw(some(*names))]]
    return case


@st.composite
def unspawn(draw):
    case = dict(kind='unspawn', spell=draw(st.integers(0, 100)), ns=draw(some(*NS)), opt=draw(options(False)))
    names = draw(st.lists(some(*NAMES), min_size=1, max_size=4, unique=not draw(chance(9))))
    case['names'] = names
    draw(manager(case, names + ['other'], ['deactivate', 'unload', 'unload']))
    case['absent'] = 0
    if draw(st.booleans()):
        for n in names:
            case['loaded'][n] = 'active'
    return case


@st.composite
def hw(draw):
    case = dict(kind='hw', spell=draw(st.integers(0, 100)), ns=draw(some(*NS)), opt=draw(options(False)))
    case['names'] = draw(st.lists(some('arm', 'arm_2', 'gripper', 'base'), min_size=draw(some(1, 1, 1, 1, 0)), max_size=4))
    case['action'] = draw(some(['activate'], ['activate'], ['configure'], ['configure'], ['activate', 'configure'], []))
    case['hw'] = draw(st.dictionaries(some('arm', 'arm_2', 'gripper', 'base', 'x'), st.integers(1, 3), max_size=4))
    case['fail'] = draw(st.lists(some(['hw', 'arm'], ['hw', 'gripper']), max_size=1))
    case['absent'] = draw(some(0, 0, 0, 1, 3))
    return case


@st.composite
def param_case(draw):
    ns = draw(some(*NS))
    name = draw(some(*NAMES))
    others = draw(st.lists(some(*NAMES), max_size=2))
    n = draw(st.integers(1, 4))
    mal = draw(chance(4))
    files = [draw(st.one_of(sections([name, name] + others, ns, mal, 5), st.none() if draw(chance(5)) else sections([name], ns, mal)))
             for _ in range(n)]
    fail = []
    if draw(chance(5)):
        fail = [['set', name + '.' + draw(some('type', 'params_file', 'fallback_controllers'))]]
    return dict(kind='params', ns=ns, name=name, files=files, order=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5)),
                implicit=draw(st.booleans()), fail=fail)


@st.composite
def launch(draw):
    case = draw(spawn())
    case.update(kind='launch', helper=draw(some('list', 'dict', 'load', 'spawner', 'spawner', 'spawner')))
    case['missing'], case['lock_busy'], case['absent'], case['ros_files'] = [], 0, 0, []
    case['kill'] = ['wait', None, '', 'SIGINT'] if case['opt']['unload'] else None
    case['again'] = None
    c = case['controllers']
    seen = set()
    c = case['controllers'] = [x for x in c if not (x['name'] in seen or seen.add(x['name']))]
    for x in c:
        x['files'] = list(dict.fromkeys(x['files']))
        x['ros_args'] = x['ros_args'][:1] if case['helper'] == 'spawner' else []
    if case['helper'] == 'load':
        c = case['controllers'] = c[:1]
        c[0]['files'] = c[0]['files'][:1]
    case['advanced'] = case['helper'] == 'spawner'
    if case['helper'] != 'spawner':
        if case['helper'] == 'dict':  # all files are handed to all controllers
            case['given'] = [list(x['files']) for x in c]
            allf = [f for x in c for f in x['files']]
            for x in c:
                x['files'] = allf
        for x in c:
            x['load_only'], x['inactive'] = c[0]['load_only'], c[0]['inactive']
            if case['helper'] == 'list':
                x['files'] = c[0]['files']
    if draw(chance(7)):
        if case['helper'] == 'dict':
            case['bad'] = draw(some('top', 'file'))
        elif case['helper'] == 'spawner':
            case['bad'] = draw(some('top', 'param_file', 'load_only', 'inactive', 'ros_args'))
    return case


IFACE = [f'joint{i}/{t}' for i in (1, 2, 3, 10) for t in ('position', 'velocity')] + ['x', 'io/a']
FLAGS = ['claimed-interfaces', 'required-state-interfaces', 'required-command-interfaces', 'chained-interfaces',
         'exported-interfaces', 'verbose']


@st.composite
def hwis(draw, pool=None, **kw):
    names = draw(st.lists(some(*(pool or IFACE)), unique=True, max_size=6))
    return [dict(name=n, data_type=draw(some('double', 'bool')), is_available=draw(st.booleans()), is_claimed=draw(st.booleans()))
            for n in names]


def names_list(pool=IFACE, n=4):
    return st.lists(some(*pool), unique=True, max_size=n)


@st.composite
def cli(draw):
    v = draw(some('load_controller', 'load_controller', 'set_controller_state', 'set_controller_state', 'set_hardware_component_state',
                  'switch_controllers', 'switch_controllers', 'unload_controller', 'cleanup_controller', 'reload_controller_libraries',
                  'list_controllers', 'list_controller_types', 'list_hardware_components', 'list_hardware_interfaces',
                  'view_controller_chains', 'view_controller_chains', 'view_hardware_status'))
    case = dict(kind='cli', verb=v, spell=draw(st.integers(0, 1000)), cm_name=draw(some(None, None, 'cm', 'x/cm')))
    names = ['a', 'b', 'ctrl_1']
    case['loaded'] = draw(st.dictionaries(some(*names), some(*LOADED), max_size=3))
    case['fail'] = []
    case['name'] = draw(some(*names))
    case['flag'] = draw(st.booleans())
    if draw(chance(2)):
        op = {'load_controller': ['load', 'configure', 'activate', 'activate', 'set'], 'set_controller_state': ['configure', 'activate', 'activate', 'deactivate', 'cleanup'],
              'switch_controllers': ['activate', 'deactivate'], 'unload_controller': ['unload'], 'cleanup_controller': ['cleanup']}.get(v)
        if op:
            o = draw(some(*op))
            case['fail'] = [[o, case['name'] + ('.type' if o == 'set' else '')]]
        elif v == 'reload_controller_libraries':
            case['fail'] = [['reload', '']]
        elif v == 'set_hardware_component_state':
            case['fail'] = [['hw', case['name']]]
    if v == 'load_controller':
        case['files'] = [draw(sections([case['name'], 'a'], '/')) for _ in range(2)]
        case['file'] = draw(some(None, 0, 1))
        case['state'] = draw(some(None, 'inactive', 'active', 'active'))
        case['gone'] = draw(chance(7))
        if draw(st.booleans()):
            case['loaded'].pop(case['name'], None)
    elif v in ('set_controller_state', 'set_hardware_component_state'):
        case['state'] = draw(some('unconfigured', 'inactive', 'active'))
        case['hw'] = draw(st.dictionaries(some(*names), st.integers(1, 3), max_size=3))
        if v == 'set_controller_state' and draw(chance(1)):
            case['loaded'][case['name']] = draw(some('unconfigured', 'inactive', 'active'))
    elif v == 'switch_controllers':
        case['activate'] = draw(st.lists(some(*names), max_size=3, unique=True))
        case['deactivate'] = draw(st.lists(some(*names), max_size=3, unique=True))
        case['strict'] = draw(some(0, 1, 2, 2))
        case['timeout'] = draw(some(None, None, 0.5, 3.0, 10))
    elif v == 'list_controller_types':
        case['types'] = draw(st.lists(st.tuples(some(*TYPES), some('controller_interface::ControllerInterface', 'x::y')).map(list), max_size=3))
    elif v in ('list_controllers', 'view_controller_chains'):
        cs = []
        chains = v == 'view_controller_chains'
        many = [f'joint{i}/{t}' for i in range(1, 13) for t in ('position', 'velocity')]
        pool = draw(some(IFACE, many))
        case['commands'] = [dict(name=n) for n in draw(names_list(pool, 24))]
        case['states'] = [dict(name=n) for n in draw(names_list(pool, 24))]
        nm = draw(st.lists(some('a', 'bb', 'controller_c', 'x1'), unique=True, max_size=4))
        for n in nm:
            refs = draw(names_list(IFACE[:4], 3)) if draw(st.booleans()) else []
            cs.append(dict(name=n, state=draw(some(*LOADED)), type=draw(some(*TYPES)), update_rate=draw(st.integers(1, 1000)),
                           is_async=draw(st.booleans()), claimed_interfaces=draw(names_list()),
                           required_command_interfaces=[x['name'] for x in case['commands'] if draw(st.integers(0, 4))] if chains else draw(names_list()),
                           required_state_interfaces=[x['name'] for x in case['states'] if draw(st.integers(0, 4))] if chains else draw(names_list()),
                           reference_interfaces=refs, exported_state_interfaces=draw(names_list()), chain_connections=[]))
        for i, c in enumerate(cs):
            for d in cs[i + 1:]:
                if draw(st.booleans()):
                    r = [x for x in d['reference_interfaces'] if draw(st.booleans())]
                    if not d['reference_interfaces'] and draw(chance(4)):
                        r = ['joint1/position']  # not configured (any more)
                    if r:
                        c['chain_connections'].append(dict(name=d['name'], reference_interfaces=r))
        if chains:
            # the verb sees references as command interfaces as well
            for c in cs:
                for q in c['chain_connections']:
                    for x in q['reference_interfaces']:
                        full = q['name'] + '/' + x
                        c['required_command_interfaces'].append(full)
                        if full not in [y['name'] for y in case['commands']]:
                            case['commands'].append(dict(name=full))
        case['list'] = cs
        case['flags'] = draw(st.lists(some(*FLAGS), unique=True, max_size=2))
    elif v == 'list_hardware_interfaces':
        case['commands'], case['states'] = draw(hwis()), draw(hwis())
    elif v == 'list_hardware_components':
        case['list'] = [dict(name=n, type=draw(some('system', 'sensor')), is_async=draw(st.booleans()), rw_rate=draw(st.integers(0, 500)),
                             plugin_name=draw(some('p/A', 'p/B')), state=draw(st.integers(1, 4)), commands=draw(hwis()), states=draw(hwis()))
                        for n in draw(st.lists(some('arm', 'base'), unique=True, max_size=2))]
    elif v == 'view_hardware_status':
        t = [['/cm/hardware_status', 'control_msgs/msg/HardwareStatus'], ['/arm/hardware_status', 'control_msgs/msg/HardwareStatus'],
             ['/arm/hardware_status', 'std_msgs/msg/String'], ['/arm/status', 'control_msgs/msg/HardwareStatus'],
             ['/hardware_status', 'control_msgs/msg/HardwareStatus']]
        case['topics'] = draw(st.lists(some(*t), max_size=4, unique_by=lambda x: x[0]))
        ids = ['arm', 'arm_2', 'base']
        dev = st.fixed_dictionaries(dict(id=some('d1', 'd2', 'd11'), st=st.lists(st.lists(st.just({'k': 1}), max_size=2), min_size=4, max_size=4)))
        case['messages'] = draw(st.lists(st.fixed_dictionaries(dict(
            hid=some(*ids), topic=st.integers(0, 3), sec=some(0, 5, 1700000000), nsec=some(0, 7, 999999999),
            devices=st.lists(dev, max_size=3, unique_by=lambda d: d['id']))), max_size=12))
        case['hid'] = draw(some(None, None, *ids))
        case['did'] = draw(some(None, None, 'd1', 'd2'))
    return case


def C31():
    return st.one_of(spawn(), spawn(), spawn(), unspawn(), hw())


def C32():
    return st.one_of(param_case(), param_case(), launch())


def C35():
    return cli()

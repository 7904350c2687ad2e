"""C31, C32, C35: the Python tools (spawner, unspawner, hardware_spawner, launch helpers, ros2 control verbs) are run with
generated command lines against a model of the controller manager; what reaches the manager and the exit code are compared
with a reference model of the tools."""
import argparse, contextlib, copy, hashlib, importlib, io, json, os, re, shutil, subprocess, sys, tempfile, time, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyfakes as F

PROP = os.environ['PBT_PROPERTY']
_clock = time.time


class Violation(Exception):
    pass


def need(cond, text):
    if not cond:
        raise Violation(text)


SCRATCH = None


def path(i):
    """file i of the case; some have names that need care when written into a parameter"""
    return os.path.join(SCRATCH, ['a.yaml', "it's b.yaml", 'c: [x], d.yaml', 'e.yaml', 'f.yaml'][i])


# ================================================================ parameter files
# a file is a list of sections [key, nested, parameters]: key a node name, nested: below '/**', parameters None: malformed;
# the key '/**' itself is the section that holds for every node
def write_files(files):
    import yaml
    for i, sections in enumerate(files):
        d = {}
        if sections is not None:
            for key, nested, params in sections:
                body = {'ros__parameters': dict(params)} if params is not None else {'parameters': {'type': 'wrong/Type'}}
                if key == '/**':
                    if not isinstance(d.get('/**'), dict):
                        d['/**'] = {}
                    d['/**'].update(body)
                elif nested:
                    if not isinstance(d.get('/**'), dict):
                        d['/**'] = {}
                    d['/**'][key] = body
                elif key == '/**?':
                    d.setdefault('/**', None)
                else:
                    d[key] = body
        with open(path(i), 'w') as f:
            f.write('# parameters\n')
            if d:
                yaml.safe_dump(d, f, sort_keys=False)


def keys_for(name, ns):
    full = ('/' if ns == '/' else ns + '/') + name
    return [name, full, '/**/' + name, '/**' + full]


def applies(section, name, ns):
    key, nested, params = section
    if key == '/**':
        return True
    if not nested and key == name and ns != '/':
        return False  # names a controller in the root namespace
    return key in keys_for(name, ns)


def misplaced(sections, name, ns):
    """a file that names the controller without its namespace: the tools complain; what else it holds is left open"""
    return ns != '/' and any(k == name and not n for k, n, _ in sections or [])


def files_for(files, order, name, ns):
    out = []
    for i in order:
        if i not in out and any(applies(s, name, ns) for s in files[i] or []):
            out.append(i)
    return out


def values(files, used, name, ns, param):
    """the acceptable values: the last file that gives one counts, in a file the controller's own section before '/**';
    several own sections, or '/**' of a later against an own section of an earlier file, are left open"""
    own, wild = [], []
    for i in used:
        o = [s[2][param] for s in files[i] if s[0] != '/**' and applies(s, name, ns) and s[2] and param in s[2]]
        w = [s[2][param] for s in files[i] if s[0] == '/**' and s[2] and param in s[2]]
        if o:
            own, wild = o, []
        elif w:
            wild = w
    return own + wild


def expected_params(case, c, ns):
    """parameter name -> list of acceptable values (or absent)"""
    e = {}
    if c.get('ros_args'):
        e[c['name'] + '.node_options_args'] = [[a for x in c['ros_args'] for a in x.split()]]
    files = case.get('files', [])
    used = files_for(files, c['files'], c['name'], ns)
    if used:
        e[c['name'] + '.params_file'] = [[path(i) for i in used]]
        for p in ('type', 'fallback_controllers'):
            v = values(files, used, c['name'], ns, p)
            if v and any(v):
                e[c['name'] + '.' + p] = v
    return e


def optional(e, k):
    return any(not v for v in e[k])


# ================================================================ the reference model of the spawner
def spawn_model(case, controllers):
    """the steps that the manager is to see: ('params', {name: values}, complete) or an entry of the log; and the outcome"""
    w = F.World(case)
    steps = []
    started = []

    class Stop(Exception):
        pass

    def do(service, q):
        op = F.OPERATION[service]
        for attempt in range(3):
            n = len(w.log)
            r = w.call(service, q)
            if w.log[n:]:
                steps.append(w.log[-1])
            if r is not None:
                return r.ok
        raise Stop

    opt = case['opt']
    strict, asap = 2, bool(opt.get('asap'))
    timeout = opt.get('switch_timeout')
    timeout = F.Duration(seconds=5.0 if timeout is None else timeout).to_msg()

    def switch(a):
        return do('SwitchController', F.SRV['SwitchController'].Request(
            activate_controllers=a, strictness=strict, activate_asap=asap, timeout=timeout))
    ok = True
    try:
        group = []
        for c in controllers:
            if c['name'] not in w.ctrl:
                e = expected_params(case, c, case['ns'])
                if e:
                    bad = [k for k in e if ('set', k) in w.fail]
                    steps.append(('params', e, bad))
                    if any(not optional(e, k) for k in bad):
                        raise Stop
                if not do('LoadController', F.SRV['LoadController'].Request(name=c['name'])):
                    raise Stop
            if c['load_only']:
                continue
            if not do('ConfigureController', F.SRV['ConfigureController'].Request(name=c['name'])):
                raise Stop
            if c['inactive']:
                continue
            if opt.get('group'):
                group.append(c['name'])
            elif not switch([c['name']]):
                raise Stop
        if group and not switch(group):
            raise Stop
    except Stop:
        ok = False
    return steps, ok, w


def match(log, steps, names):
    i = 0
    for s in steps:
        if s[0] == 'params':
            seen = {}
            while i < len(log) and log[i][0] == 'set':
                _, k, v, ok = log[i]
                need(k in s[1], f'sets the parameter {k} = {v!r}, which nothing asks for')
                need(v in s[1][k], f'sets {k} to {v!r}; expected {s[1][k]!r}')
                seen[k] = v
                i += 1
                if not ok:
                    break
            if not any(not optional(s[1], k) for k in s[2]) and not any(k in seen for k in s[2]):
                for k in s[1]:
                    need(k in seen or optional(s[1], k), f'does not set {k} to {s[1][k]!r}')
            continue
        need(i < len(log), f'does not request {s!r} (the manager saw {log!r})')
        need(log[i] == s, f'requests {log[i]!r}; expected {s!r}')
        i += 1
    need(i == len(log), f'requests {log[i:]!r}, which nothing asks for')


def native_argv(case):
    o = case['opt']
    c = case['controllers']
    names = [x['name'] for x in c]
    opts = global_opts(case)
    for f in c[0]['files']:
        opts.append(['-p', path(f)] if case['spell'] % 2 else ['--param-file', path(f)])
    if c[0]['load_only']:
        opts.append(['--load-only'])
    if c[0]['inactive']:
        opts.append(['--inactive'])
    for a in c[0]['ros_args']:
        opts.append(['--controller-ros-args', a])
    k = case['spell'] % (len(opts) + 1)
    return [a for o in opts[:k] for a in o] + names + [a for o in opts[k:] for a in o]


def global_opts(case):
    o, out, sp = case['opt'], [], case['spell']
    if o.get('cm') is not None:
        out.append(['-c', o['cm']] if sp % 3 else ['--controller-manager', o['cm']])
    if o.get('switch_timeout') is not None:
        out.append(['--switch-timeout', repr(o['switch_timeout'])] if sp % 5 else [f'--switch-timeout={o["switch_timeout"]!r}'])
    if o.get('cm_timeout') is not None:
        out.append(['--controller-manager-timeout', repr(o['cm_timeout'])])
    if o.get('call_timeout') is not None:
        out.append(['--service-call-timeout', repr(o['call_timeout'])])
    if o.get('group'):
        out.append(['--activate-as-group'])
    if o.get('asap') is not None:
        out.append(['--switch-asap' if o['asap'] else '--no-switch-asap'])
    if o.get('unload'):
        out.append(['-u'] if sp % 2 else ['--unload-on-kill'])
    if sp % 7 == 3:
        out.reverse()
    return out


def advanced_argv(case):
    g = global_opts(case)
    sp = case['spell']
    chunks = []
    for n, c in enumerate(case['controllers']):
        own = []
        for f in c['files']:
            own.append(['-p', path(f)] if (sp + n) % 2 else ['--param-file', path(f)])
        if c['load_only']:
            own.append(['--load-only'])
        if c['inactive']:
            own.append(['--inactive'])
        for a in c['ros_args']:
            own.append(['--controller-ros-args', a])
        chunks.append(own)
    before = []
    for n, x in enumerate(g):  # global options may stand before, within and after the controllers
        at = (sp // (n + 1)) % (len(chunks) + 1)
        if at == 0:
            before += x
        else:
            chunks[at - 1].insert((sp // 3) % (len(chunks[at - 1]) + 1), x)
    out = before
    for c, own in zip(case['controllers'], chunks):
        out = out + ['--controller', c['name']] + [a for x in own for a in x]
    return out


def ros_argv(case):
    out = []
    if case['ns'] != '/':
        out += ['-r', '__ns:=' + case['ns']]
    for f in case.get('ros_files', []):
        out += ['--params-file', path(f)]
    return ['--ros-args'] + out if out else []


def full_name(case, default='controller_manager'):
    cm = case['opt'].get('cm')
    cm = default if cm is None else cm
    if cm.startswith('/'):
        return cm
    return ('' if case['ns'] == '/' else case['ns']) + '/' + cm


def effective(case):
    """the controllers with the files of --ros-args --params-file added"""
    out = copy.deepcopy(case['controllers'])
    for c in out:
        if c.get('files') is None:
            c['files'] = []
        for f in case.get('ros_files', []):
            if f not in c['files']:
                c['files'].append(f)
    return out


def check_spawn(case, argv=None, main=None):
    write_files(case['files'])
    for i in case.get('missing', []):
        if os.path.exists(path(i)):
            os.remove(path(i))
    case = dict(case, cm=full_name(case))
    controllers = effective(case)
    if argv is None:
        argv = (advanced_argv if case['advanced'] else native_argv)(case) + ros_argv(case)
    w = F.World(case)
    rc = F.run(main or tool('controller_manager.spawner').main, ['spawner'] + argv, w)
    used_missing = [i for c in controllers for i in c['files'] if i in case.get('missing', [])]
    need(not w.locked, 'the lock is not released')
    need(not w.unlocked_requests, 'requests changes without holding the lock that serialises spawners')
    if used_missing:
        need(rc != 0 and not w.log, f'exit code {rc}, requests {w.log!r} although a parameter file does not exist')
        return
    if case.get('lock_busy', 0) > 100 or case['absent'] > 1 and case['opt'].get('cm_timeout'):
        need(rc != 0 and not w.log, f'exit code {rc}, requests {w.log!r} although the lock or manager was not available')
        return
    names = [c['name'] for c in controllers]
    steps, ok, m = spawn_model(dict(case, kill=None), controllers)
    initial = case.get('loaded', {})
    if not w.killed:
        log = [x for x in w.log if x != ('wait',)]
        match(log, steps, names)
        need((rc == 0) == ok, f'exit code {rc} although everything {"succeeded" if ok else "did not succeed"} ({w.error!r})')
        need(w.ctrl == m.ctrl, f'controllers {w.ctrl!r}, expected {m.ctrl!r}')
        need(('wait',) not in w.log, 'waits although it was not asked to')
        return
    # killed
    before = w.log[:w.kill_log]
    if w.killed_waiting:
        need(before[-1:] == [('wait',)], 'requests something while it waits')
        need(not w.locked_wait, 'holds the lock while it waits')
        match(before[:-1], steps, names)
        need(ok, 'waits although something failed')
    mine = sorted(set(w.activated))
    if not case['opt'].get('unload'):
        after = w.log[w.kill_log + (1 if case['kill'][2] == 'after' else 0):]
        need(not after, f'requests {after!r} after it was killed')
        return
    failed = [x for x in w.log[w.kill_log:] if x[-1] is False]
    left = [n for n in mine if n in w.ctrl]
    scripted = [n for n in mine if ('deactivate', n) in w.fail or ('unload', n) in w.fail] + \
        [x for x in w.fail if x == ('switch', '')]
    if not scripted:
        need(not left, f'{left} were started but not unloaded when killed (requests {w.log!r}, {w.error!r})')
        need(rc == 0 or not w.killed_waiting, f'exit code {rc} although all controllers were unloaded ({w.error!r})')
    elif left:
        need(rc != 0, f'exit code 0 although {left} could not be unloaded')
        if not any(x[0] == 'deactivate' or x[0] == 'switch' for x in w.fail):
            need(set(left) == {n for n in mine if ('unload', n) in w.fail}, f'{left} were not unloaded')
    for n, s in w.ctrl.items():
        need(n in names or s == initial.get(n), f'{n}, which is not named, was changed to {s}')
        need(n in mine or s != 'active' or initial.get(n) == 'active', f'{n} is active')
    for n, s in initial.items():
        need(n in names or w.ctrl.get(n) == s, f'{n}, which is not named, was changed')
        if n in names and n not in mine and s == 'active':
            need(w.ctrl.get(n) == 'active', f'{n} was active before and was stopped')


def check_unspawn(case):
    default = '/controller_manager'
    case = dict(case, cm=full_name(case, default))
    o = case['opt']
    argv = ['unspawner']
    opts = []
    if o.get('cm') is not None:
        opts += ['-c', o['cm']]
    if o.get('switch_timeout') is not None:
        opts += ['--switch-timeout', repr(o['switch_timeout'])]
    names = case['names']
    argv += (opts + names if case['spell'] % 2 else names + opts) + ros_argv(case)
    w = F.World(case)
    w.locked = True
    rc = F.run(tool('controller_manager.unspawner').main, argv, w)
    m = F.World(case)
    timeout = F.Duration(seconds=5.0 if o.get('switch_timeout') is None else o['switch_timeout']).to_msg()

    def do(service, q):
        for _ in range(3):
            r = m.call(service, q)
            if r is not None:
                return r.ok
        return None
    r = do('SwitchController', F.SRV['SwitchController'].Request(
        deactivate_controllers=names, strictness=2, activate_asap=True, timeout=timeout))
    ok = r is not None
    n0 = None
    if ok:
        for n in names:
            if not do('UnloadController', F.SRV['UnloadController'].Request(name=n)):
                ok = False
                break
    need((rc == 0) == ok, f'exit code {rc} although everything {"succeeded" if ok else "did not succeed"} ({w.error!r})')
    need(w.log[:len(m.log)] == m.log, f'requests {w.log!r}; expected {m.log!r}')
    for x in w.log[len(m.log):]:  # whether it goes on after a failure is left open
        need(not ok and x[0] == 'unload' and x[1] in names, f'requests {x!r}, which nothing asks for')


def check_hw(case):
    case = dict(case, cm=full_name(case))
    o = case['opt']
    opts = [['--' + a] for a in case['action']]
    if o.get('cm') is not None:
        opts.append(['-c', o['cm']])
    if o.get('cm_timeout') is not None:
        opts.append(['--controller-manager-timeout', repr(o['cm_timeout'])])
    k = case['spell'] % (len(opts) + 1)
    argv = [a for x in opts[:k] for a in x] + case['names'] + [a for x in opts[k:] for a in x]
    w = F.World(case)
    w.locked = True
    rc = F.run(tool('controller_manager.hardware_spawner').main, ['hardware_spawner'] + argv + ros_argv(case), w)
    if len(case['action']) != 1 or not case['names'] or case['absent'] > 1 and o.get('cm_timeout'):
        need(rc != 0 and not w.log, f'exit code {rc}, requests {w.log!r} for a command line or manager that is not usable')
        return
    target = 3 if case['action'] == ['activate'] else 2
    want = [('hw', n, target, F.LABEL[target], ('hw', n) not in w.fail) for n in case['names'] if n in case['hw']]
    need(w.log == want, f'requests {w.log!r}; expected {want!r}')


# ================================================================ C32
def check_params(case):
    write_files(case['files'])
    case = dict(case, cm='/controller_manager')
    w = F.World(case)
    w.locked = True
    F.set_world(w)
    ns, name = case['ns'], case['name']
    files = case['files']
    order = case['order']
    old = sys.argv
    sys.argv = ['x'] + (['--ros-args', '-r', '__ns:=' + ns] if ns != '/' else [])
    try:
        node = F.Node('x')
        kw = {} if case['implicit'] else dict(namespace=ns)
        try:
            r = tool('controller_manager').set_controller_parameters_from_param_files(
                node, '/controller_manager', name, [path(i) for i in order], **kw)
            err = None
        except (Violation, F.Abort):
            raise
        except Exception as e:
            r, err = False, e
    finally:
        sys.argv = old
    e = expected_params(case, dict(name=name, files=order), ns)
    bad_file = any(s[2] is None and applies(s, name, ns) for i in order for s in files[i] or [])
    wrong_ns = any(misplaced(files[i], name, ns) for i in order)
    seen = {}
    for entry in w.log:
        _, k, v, ok = entry
        if not (k.endswith('.params_file') and (bad_file or wrong_ns)):
            need(k in e or wrong_ns, f'sets {k} to {v!r}, which no parameter file gives it')
            if not bad_file and not wrong_ns:
                need(v in e[k], f'sets {k} to {v!r}; expected {e[k]!r}')
        need(v != 'wrong/Type', 'takes a type from a section that holds no ROS parameters')
        need(k not in seen, f'sets {k} twice')
        seen[k] = v
    if wrong_ns or bad_file:
        return
    need(err is None, f'raises {err!r}')
    failed = [x for x in w.log if not x[3]]
    if failed:
        need(not r, f'reports success although {failed[0][1]} could not be set')
        return
    need(r, 'reports failure although all parameters were set')
    for k in e:
        need(k in seen or optional(e, k), f'does not set {k} to {e[k]!r}')


def launch_args(desc, env):
    nodes = [e for e in desc.entities if isinstance(e, F.LaunchNode)]
    need(len(nodes) == 1, f'{len(nodes)} nodes are launched')
    n = nodes[0].kw
    need(n.get('package') == 'controller_manager' and n.get('executable') == 'spawner', f'launches {n!r}')
    for d in desc.entities:
        if isinstance(d, F.DeclareLaunchArgument):
            env.setdefault(d.args[0], F.resolve(d.kw.get('default_value'), {}))
    args = [F.resolve(a, env) for a in n['arguments']]
    return [a for a in args if a != '']  # a shell runs the command, in which empty arguments vanish


def check_launch(case):
    """a launch helper's node is run: the spawner must do what the helper was asked for; twice, with the same objects"""
    L = tool('controller_manager.launch_utils')
    kind = case['helper']
    c = case['controllers']
    names = [x['name'] for x in c]
    extra = []
    o = case['opt']
    for x in global_opts(dict(case, opt={k: v for k, v in o.items() if k not in ('cm', 'unload') or kind == 'spawner'})):
        extra += x
    if kind != 'spawner':
        if c[0]['load_only']:
            extra.append('--load-only')
        if c[0]['inactive']:
            extra.append('--inactive')
    bad = case.get('bad')
    if kind == 'list':
        a = [names, [path(f) for f in c[0]['files']] or None]
        f = L.generate_controllers_spawner_launch_description
    elif kind == 'dict':
        d = {}
        for x, given in zip(c, case['given']):
            files = [path(f) for f in given]
            d[x['name']] = None if not files else files[0] if len(files) == 1 and case['spell'] % 2 else files
        if bad is not None:
            if bad == 'top':
                d = list(d)
            else:
                d[names[0]] = 5
        a = [d]
        f = L.generate_controllers_spawner_launch_description_from_dict
    elif kind == 'load':
        a = [names[0], path(c[0]['files'][0]) if c[0]['files'] else None]
        f = L.generate_load_controller_launch_description
    else:
        d = {}
        for n, x in enumerate(c):
            files = [path(f) for f in x['files']]
            e = {}
            if files or (case['spell'] + n) % 3 == 0:
                e['param_file'] = None if not files else files[0] if len(files) == 1 and case['spell'] % 2 else files
            for k in ('load_only', 'inactive'):
                if x[k] or (case['spell'] + n) % 2:
                    e[k] = x[k]
            if x['ros_args']:
                e['ros_args'] = x['ros_args'][0]
            d[x['name']] = e
        if bad is not None:
            if bad == 'top':
                d = list(d)
            else:
                d[names[-1]][bad] = {'param_file': 5, 'load_only': 'true', 'inactive': 1, 'ros_args': ['a']}[bad]
        a = [d]
        f = L.generate_spawner_launch_description
    kw = dict(extra_spawner_args=extra) if extra or case['spell'] % 2 else {}
    saved = copy.deepcopy((a, kw))
    for turn in range(2):
        try:
            desc = f(*a, **kw)
        except (Violation, F.Abort):
            raise
        except Exception as e:
            need(bad is not None, f'call {turn + 1} of the launch helper raises {e!r}')
            return
        need(bad is None, f'a malformed dictionary is accepted ({a!r})')
        need((a, kw) == saved, f'the launch helper changes what it was given: {saved!r} became {(a, kw)!r}')
        env = {}
        if kind != 'spawner':
            if o.get('cm') is not None:
                env['controller_manager_name'] = o['cm']
            if o.get('unload') is not None and (o['unload'] or case['spell'] % 2):
                env['unload_on_kill'] = 'true' if o['unload'] else 'false'
        argv = launch_args(desc, env)
        try:
            check_spawn(case, argv=argv + ros_argv(case))
        except Violation as e:
            raise Violation(f'after call {turn + 1} of the launch helper the spawner, run with {argv!r}: {e}')


# ================================================================ C35
def verb(module, cls, argv, w):
    m = tool('ros2controlcli.verb.' + module)
    v = getattr(m, cls)()
    p = argparse.ArgumentParser(prog='ros2 control')
    v.add_arguments(p, 'ros2 control')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rc = F.run(lambda: v.main(args=p.parse_args(argv)), ['ros2', 'control'], w)
    w.verb = v
    return rc, out.getvalue()


CLS = {'load_controller': 'LoadControllerVerb', 'set_controller_state': 'SetControllerStateVerb',
       'set_hardware_component_state': 'SetHardwareComponentStateVerb', 'switch_controllers': 'SwitchControllersVerb',
       'unload_controller': 'UnloadControllerVerb', 'cleanup_controller': 'CleanupControllerVerb',
       'reload_controller_libraries': 'ReloadControllerLibrariesVerb', 'list_controllers': 'ListControllersVerb',
       'list_controller_types': 'ListControllerTypesVerb', 'list_hardware_components': 'ListHardwareComponentsVerb',
       'list_hardware_interfaces': 'ListHardwareInterfacesVerb', 'view_controller_chains': 'ViewControllerChainsVerb',
       'view_hardware_status': 'ViewHardwareStatusVerb'}
STATE_ID = {'unconfigured': 1, 'inactive': 2, 'active': 3}


def check_cli(case):
    v = case['verb']
    case = dict(case, cm='/' + (case.get('cm_name') or 'controller_manager'))
    w = F.World(case)
    w.locked = True
    cm = ['-c', case['cm_name']] if case.get('cm_name') else []
    name = case.get('name')
    log = []

    def done(rc, ok, want, final=None):
        need((rc == 0) == ok, f'exit code {rc} although it {"succeeded" if ok else "did not succeed"} ({w.error!r})')
        if want is not None:
            need(w.log == want, f'requests {w.log!r}; expected {want!r}')

    if v in ('unload_controller', 'cleanup_controller'):
        rc, out = verb(v, CLS[v], [name] + cm, w)
        op = v.split('_')[0]
        st = case['loaded'].get(name)
        ok = (op, name) not in w.fail and (st is not None and st != 'active' if op == 'unload' else st in ('unconfigured', 'inactive'))
        return done(rc, ok, [(op, name, ok)])
    if v == 'reload_controller_libraries':
        rc, out = verb(v, CLS[v], (['--force-kill'] if case['flag'] else []) + cm, w)
        ok = ('reload', '') not in w.fail
        return done(rc, ok, [('reload', case['flag'], ok)])
    if v == 'set_hardware_component_state':
        rc, out = verb(v, CLS[v], [name, case['state']] + cm, w)
        ok = name in case['hw'] and ('hw', name) not in w.fail
        return done(rc, ok, [('hw', name, STATE_ID[case['state']], case['state'], ok)])
    if v == 'switch_controllers':
        argv = list(cm)
        if case['deactivate'] or case['spell'] % 2:
            argv += ['--deactivate'] + case['deactivate']
        if case['activate'] or case['spell'] % 3:
            argv += ['--activate'] + case['activate']
        if case['strict'] == 2:
            argv += ['--strict']
        elif case['strict'] == 1:
            argv += ['--best-effort']
        if case['flag']:
            argv += ['--activate-asap']
        if case['timeout'] is not None:
            argv += ['--switch-timeout', repr(case['timeout'])]
        rc, out = verb(v, CLS[v], argv, w)
        t = F.Duration(seconds=5.0 if case['timeout'] is None else case['timeout']).nanoseconds
        m = F.World(case)
        r = m.answer('SwitchController', F.SRV['SwitchController'].Request(
            activate_controllers=case['activate'], deactivate_controllers=case['deactivate'], strictness=case['strict'],
            activate_asap=case['flag'], timeout=F.Duration(seconds=5.0 if case['timeout'] is None else case['timeout']).to_msg()))
        done(rc, r.ok, m.log)
        return need(r.message in out, 'does not print the message of the manager')
    if v == 'set_controller_state':
        rc, out = verb(v, CLS[v], [name, case['state']] + cm, w)
        st = case['loaded'].get(name)
        ops = {('unconfigured', 'inactive'): 'configure', ('inactive', 'active'): 'activate',
               ('active', 'inactive'): 'deactivate', ('inactive', 'unconfigured'): 'cleanup'}
        op = ops.get((st, case['state']))
        if op is None:
            need(rc != 0 and not w.log, f'exit code {rc}, requests {w.log!r} for an impossible transition')
            return
        ok = (op, name) not in w.fail and not (op in ('activate', 'deactivate') and ('switch', '') in w.fail)
        want = dict(case['loaded'])
        if ok:
            want[name] = case['state']
        need(w.ctrl == want, f'controllers are {w.ctrl!r}; expected {want!r}')
        need((rc == 0) == ok, f'exit code {rc} although {name} is {w.ctrl[name]}')
        need(len(w.log) == 1 and w.log[0][0] in (op, 'switch'), f'requests {w.log!r}')
        return
    if v == 'load_controller':
        write_files(case['files'])
        argv = [name]
        if case['file'] is not None:
            argv += [path(case['file'])]
            if case.get('gone'):
                os.remove(path(case['file']))
        if case['state']:
            argv += ['--set-state', case['state']]
        rc, out = verb(v, CLS[v], argv + cm, w)
        if case.get('gone') and case['file'] is not None and name not in case['loaded']:
            need(rc != 0 and not w.log, f'exit code {rc}, requests {w.log!r} although the parameter file does not exist')
            return
        c = dict(name=name, files=[] if case['file'] is None else [case['file']], ros_args=[],
                 load_only=not case['state'], inactive=case['state'] == 'inactive')
        steps, ok, m = spawn_model(dict(case, ns='/', opt=dict(asap=True), kill=None), [c])
        match(w.log, steps, [name])
        return done(rc, ok, None)
    # listings
    if v == 'list_controllers':
        cs = [F.ControllerState(**{k: x for k, x in c.items() if k != 'chain_connections'},
                                chain_connections=[F.ChainConnection(**q) for q in c.get('chain_connections', [])])
              for c in case['list']]
        w.fixed = dict(controllers=cs)
        rc, out = verb(v, CLS[v], ['--' + f for f in case['flags']] + cm, w)
        need(rc == 0, f'exit code {rc} ({w.error!r})')
        fl = set(case['flags'])
        every = 'verbose' in fl
        want = []
        for c in case['list']:
            want.append([c['name'], c['type'], c['state']])
            if every:
                want += [[f'update_rate: {c["update_rate"]} Hz'], [f'is_async: {c["is_async"]}']]
            for flag, title, key in (('claimed-interfaces', 'claimed interfaces:', 'claimed_interfaces'),
                                     ('required-command-interfaces', 'required command interfaces:', 'required_command_interfaces'),
                                     ('required-state-interfaces', 'required state interfaces:', 'required_state_interfaces'),
                                     ('chained-interfaces', 'chained to interfaces:', None),
                                     ('exported-interfaces', 'exported reference interfaces:', 'reference_interfaces'),
                                     ('exported-interfaces', 'exported state interfaces:', 'exported_state_interfaces')):
                if every or flag in fl:
                    want.append([title])
                    want += [[i] for i in (c[key] if key else [r for q in c['chain_connections'] for r in q['reference_interfaces']])]
        got = out.splitlines()
        if not case['list']:
            return need(len(got) == 1, f'prints {got!r} without controllers')
        need(len(got) == len(want), f'prints {got!r}; expected {want!r}')
        for g, x in zip(got, want):
            need(g.split() == x if len(x) > 1 else g.strip() == x[0], f'prints {g!r}; expected {x!r}')
        return
    if v == 'list_controller_types':
        w.fixed = dict(types=[tuple(t) for t in case['types']])
        rc, out = verb(v, CLS[v], cm, w)
        need(rc == 0 and [l.split() for l in out.splitlines()] == case['types'], f'exit code {rc}, prints {out!r} for {case["types"]!r}')
        return
    hwi = lambda l: [F.HardwareInterface(**x) for x in l]
    if v == 'list_hardware_interfaces':
        w.fixed = dict(commands=hwi(case['commands']), states=hwi(case['states']))
        rc, out = verb(v, CLS[v], (['--verbose'] if case['flag'] else []) + cm, w)
        dt = lambda x: f' [{x["data_type"]}]' if case['flag'] else ''
        want = ['command interfaces'] + sorted(
            f'\t{x["name"]}{dt(x)} [' + ('available' if x['is_available'] else 'unavailable') + '] [' +
            ('claimed' if x['is_claimed'] and x['is_available'] else 'unclaimed') + ']' for x in case['commands']) + \
            ['state interfaces'] + sorted(f'\t{x["name"]}{dt(x)}' for x in case['states'])
        got = out.splitlines()
        k = got.index('state interfaces') if 'state interfaces' in got else len(got)
        need(rc == 0 and got[:1] + sorted(got[1:k]) + got[k:k + 1] + sorted(got[k + 1:]) == want, f'exit code {rc}, prints {got!r}; expected {want!r}')
        return
    if v == 'list_hardware_components':
        comp = [F.HardwareComponentState(**{k: x for k, x in c.items() if k not in ('state', 'commands', 'states')}, state=F.state(c['state']),
                                         command_interfaces=hwi(c['commands']), state_interfaces=hwi(c['states'])) for c in case['list']]
        w.fixed = dict(components=comp)
        rc, out = verb(v, CLS[v], (['--verbose'] if case['flag'] else []) + cm, w)
        want = []
        av = lambda x: '[available]' if x['is_available'] else '[unavailable]'
        for n, c in enumerate(case['list']):
            want += [f'Hardware Component {n + 1}', f'\tname: {c["name"]}', f'\ttype: {c["type"]}', f'\tplugin name: {c["plugin_name"]}',
                     f'\tstate: id={c["state"]} label={F.LABEL[c["state"]]}', f'\tread/write rate: {c["rw_rate"]} Hz',
                     f'\tis_async: {c["is_async"]}', '\tcommand interfaces']
            dt = lambda x: f' [{x["data_type"]}]' if case['flag'] else ''
            want += [f'\t\t{x["name"]}{dt(x)} {av(x)} ' + ('[claimed]' if x['is_claimed'] else '[unclaimed]') for x in c['commands']]
            if case['flag']:
                want += ['\tstate interfaces'] + [f'\t\t{x["name"]}{dt(x)} {av(x)}' for x in c['states']]
        need(rc == 0 and out.splitlines() == want, f'exit code {rc}, prints {out.splitlines()!r}; expected {want!r}')
        return
    if v == 'view_controller_chains':
        cs = [F.ControllerState(**{k: x for k, x in c.items() if k != 'chain_connections'},
                                chain_connections=[F.ChainConnection(**q) for q in c['chain_connections']]) for c in case['list']]
        w.fixed = dict(controllers=cs, commands=hwi(case['commands']), states=hwi(case['states']))
        rc, out = verb(v, CLS[v], cm, w)
        need(rc == 0, f'exit code {rc} ({w.error!r})')
        return check_graph(case, w.graphs[-1])
    if v == 'view_hardware_status':
        return check_status(case, w)
    raise F.Abort(v)


def ports(label):
    """the ports of a record label, which must hold exactly one in each of its fields"""
    out = []
    for f in label.replace('{', '|').replace('}', '|').split('|'):
        p = re.findall(r'<([^<>]*)>', f)
        need(len(p) <= 1, f'the field {f!r} of the diagram holds {len(p)} interfaces')
        out += p
    return out


def check_graph(case, g):
    names = [c['name'] for c in case['list']]
    for n in names + ['state_interfaces', 'command_interfaces']:
        need(n in g.nodes, f'{n} is missing in the diagram')
    p = {n: ports(a.get('label', '')) for n, a in g.nodes.items()}
    for n in p:
        need(len(set(p[n])) == len(p[n]), f'{n} has the same port twice')
    text = {n: a.get('label', '') for n, a in g.nodes.items()}
    edges = []
    for u, v, _ in g.edges:
        (un, up), (vn, vp) = u.split(':', 1), v.split(':', 1)
        need(un in g.nodes and vn in g.nodes, f'the edge {u} -> {v} joins nodes that are not in the diagram')
        edges.append((un, up, vn, vp))
        need(up in p[un], f'the edge {u} -> {v} starts at a port that does not exist')
    count = {}
    for un, up, vn, vp in edges:
        count[(un, vn)] = count.get((un, vn), 0) + 1
    want = {}
    for c in case['list']:
        if c['required_state_interfaces']:
            want[('state_interfaces', c['name'])] = len(set(c['required_state_interfaces']))
        if c['required_command_interfaces']:
            want[(c['name'], 'command_interfaces')] = len(set(c['required_command_interfaces']))
        for q in c['chain_connections']:
            if q['reference_interfaces']:
                want[(c['name'], q['name'])] = len(set(q['reference_interfaces']))
    need(count == want, f'the diagram has the connections {count!r}; expected {want!r}')
    for un, up, vn, vp in edges:
        ref = {c['name']: c for c in case['list']}.get(vn)
        if un in names and vn in names and not any(vp.endswith(r) for r in ref['reference_interfaces']):
            continue  # its references are not listed while it is not configured
        need(vp in p[vn], f'the edge {un}:{up} -> {vn}:{vp} ends at a port that does not exist')


def check_status(case, w):
    w.fixed = dict(topics=[(t, [ty]) for t, ty in case['topics']])
    expect_topics = sorted(t for t, ty in case['topics'] if t.endswith('/hardware_status') and ty == 'control_msgs/msg/HardwareStatus')
    argv = []
    hid, did = case.get('hid'), case.get('did')
    if hid:
        argv += ['-i', hid]
    if did:
        argv += ['--device-id', did]
    outs = []

    def spin_(node):
        subs = getattr(w, 'subscriptions', [])
        for m in case['messages']:
            msg_ = types.SimpleNamespace(
                hardware_id=m['hid'], header=types.SimpleNamespace(stamp=types.SimpleNamespace(sec=m['sec'], nanosec=m['nsec'])),
                hardware_device_states=[types.SimpleNamespace(
                    device_id=d['id'], hardware_status=d['st'][0], canopen_states=d['st'][1], ethercat_states=d['st'][2],
                    vda5050_states=d['st'][3]) for d in m['devices']])
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                subs[m['topic'] % len(subs)][2](msg_)
            outs.append(out.getvalue())
    w.on_spin = spin_
    rc, out = verb('view_hardware_status', CLS['view_hardware_status'], argv, w)
    if not expect_topics:
        need(rc != 0, 'exit code 0 without topics to listen to')
        return
    need(rc == 0, f'exit code {rc} ({w.error!r})')
    need(sorted(t for _, t, _ in w.subscriptions) == expect_topics, f'subscribes {w.subscriptions!r}')
    for m, o in zip(case['messages'], outs):
        o = o[o.find('Hardware ID: '):] if 'Hardware ID: ' in o else ''
        shown = (not hid or m['hid'] == hid) and (not did or any(d['id'] == did for d in m['devices']))
        if len(case['messages']) >= 10 and not shown:
            continue  # after a number of messages it reports an unknown id and stops
        need(bool(o) == shown, f'{"does not show" if shown else "shows"} {m!r}: {o!r}')
        if not shown:
            continue
        need(f'Hardware ID: {m["hid"]} ' in o, f'shows {m!r} as {o!r}')
        need(re.findall(r'Device ID: (.*)', o) == [d['id'] for d in m['devices'] if not did or d['id'] == did],
             f'shows the devices of {m!r} as {o!r}')
        need(o.count('      -\n') == sum(len(s) for d in m['devices'] if not did or d['id'] == did for s in d['st']),
             f'shows the states of {m!r} as {o!r}')


# ================================================================ running
_tools = {}


def tool(name):
    if name not in _tools:
        _tools[name] = importlib.import_module(name)
    return _tools[name]


CHECK = dict(spawn=check_spawn, unspawn=check_unspawn, hw=check_hw, params=check_params, launch=check_launch, cli=check_cli)


def check(case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            CHECK[case['kind']](case)
        except F.Abort as e:
            raise Violation(str(e))


def nontrivial(c):
    k = c['kind']
    if k == 'spawn':
        return bool(len(c['controllers']) > 1 or c.get('fail') or c.get('lost') or c.get('kill') or c['files'])
    if k in ('unspawn', 'hw'):
        return len(c['names']) > 1 or bool(c.get('fail'))
    if k == 'params':
        return sum(len(f or []) for f in c['files']) > 1
    if k == 'launch':
        return len(c['controllers']) > 1 or bool(c['files'])
    return bool(c.get('loaded') or c.get('list') or c.get('hw') or c.get('messages') or c.get('commands') or c.get('types'))


RULE = ('cases drawn by hypothesis; non-trivial: several controllers or a scripted failure, lost answer, kill or parameter file '
        '(tools), several sections in the files (parameter files), a non-empty manager (command line verbs)')


def strategy():
    import tools_gen
    return getattr(tools_gen, PROP)()


def worker(index, n, seed):
    """runs n cases; prints a JSON summary"""
    global SCRATCH
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    SCRATCH = tempfile.mkdtemp(prefix='tools_')
    os.environ['ROS_HOME'] = SCRATCH + '/ros'
    r = dict(n=0, hashes=[], labels={}, samples=[], fail=None)
    seen, last = set(), {}

    @hseed(seed * 1000 + index)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink], print_blob=False)
    @given(strategy())
    def test(case):
        r['n'] += 1
        h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        if h not in seen and nontrivial(case):
            seen.add(h)
            lab = case['kind'] + (':' + case['verb'] if 'verb' in case else ':' + case['helper'] if 'helper' in case else
                                  ':kill' if case.get('kill') else ':fail' if case.get('fail') else ':lost' if case.get('lost') else '')
            r['labels'][lab] = r['labels'].get(lab, 0) + 1
            if len(r['samples']) < 2 and len(seen) % 50 == 7:
                r['samples'].append(case)
        try:
            check(case)
        except Violation as e:
            last.update(case=case, text=str(e))
            raise
        except Exception as e:
            last.update(case=case, text=f'harness: {e!r}')
            raise
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except BaseException as e:
        if not last:
            raise
        r['fail'] = last
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    r['hashes'] = sorted(seen)
    print('\n@@' + json.dumps(r))


def replay(f):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='tools_')
    os.environ['ROS_HOME'] = SCRATCH + '/ros'
    d = json.load(open(f))
    try:
        if os.environ.get('TOOLS_TRACE'):
            try:
                CHECK[d['case']['kind']](d['case'])
            finally:
                print('log', F.W.log)
                for l in F.W.logs:
                    print(l)
        check(d['case'])
    except Violation as e:
        print(f'VIOLATION property={PROP} replay={f}')
        print(e)
        return 1
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print('held')
    return 0


def main():
    t0 = _clock()
    if sys.argv[1:2] == ['--build-only']:
        return 0
    F.install()
    if sys.argv[1:2] == ['--replay']:
        return replay(sys.argv[2])
    if sys.argv[1:2] == ['--worker']:
        return worker(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scale = float(os.environ.get('PBT_SCALE', '1'))
    workers = int(os.environ.get('PBT_WORKERS', os.cpu_count() or 8))
    n = int({'quick': 2500, 'thorough': 40000}[tier] * scale)
    procs = [subprocess.Popen([sys.executable, os.path.abspath(__file__), '--worker', str(i), str(n), str(seed)],
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for i in range(workers)]
    res, broken = [], []
    for p in procs:
        o, e = p.communicate()
        l = [x for x in o.splitlines() if x.startswith('@@')]
        if not l:
            broken.append(f'worker ended with {p.returncode}: {e[-2000:]}')
        else:
            res.append(json.loads(l[-1][2:]))
    fails = sorted((r['fail'] for r in res if r['fail']), key=lambda f: len(json.dumps(f)))
    hashes, labels = set(), {}
    for r in res:
        hashes.update(r['hashes'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    ev = dict(property=PROP, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['n'] for r in res), distinct_nontrivial=len(hashes), rule=RULE,
                            samples=[s for r in res for s in r['samples']][:4], labels=labels),
              wall_s=round(_clock() - t0, 1))
    out = os.environ.get('PBT_EVIDENCE')
    if out:
        with open(out, 'w') as f:
            json.dump(ev, f, indent=1)
    if broken:
        print('\n'.join(broken))
        # a tool that cannot even be imported or ends the whole process is no answer of the check but a failure of the tool
    if fails or broken:
        d = os.environ.get('PBT_OUT', '.')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'replay.json')
        json.dump(fails[0] if fails else dict(case=None, text=broken[0]), open(f, 'w'), indent=1)
        print(f'VIOLATION property={PROP} replay={f}')
        print(fails[0]['text'] if fails else broken[0])
        if fails:
            print(json.dumps(fails[0]['case']))
        return 1
    print(f'{PROP}: {ev["coverage"]["evaluations"]} cases, {len(hashes)} distinct non-trivial, held ({ev["wall_s"]} s)')
    if os.environ.get('PBT_LABELS'):
        print(labels)
    return 0


if __name__ == '__main__':
    sys.exit(main())

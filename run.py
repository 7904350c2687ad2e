#!/usr/bin/env python3
"""Build and run one check:   run.py <property> [quick|thorough]
                              run.py <property> --replay FILE
                              run.py --setup           (builds nothing that depends on /repo)
Everything that depends on /repo is (re)built from its working tree on every call."""
import json, os, pathlib, subprocess, sys, time

V = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
B = V / 'build'
sys.path.insert(0, str(V))
from checks.table import CHECKS, REPO_SRC  # noqa: E402

PKGS = ['hardware_interface', 'joint_limits', 'transmission_interface', 'controller_interface',
        'controller_manager', 'ros2_control_test_assets']
FLAVOR = {
    # halting sanitizers: a report ends the case and is an observation
    'asan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr '
            '-fno-sanitize-recover=all',
    'fast': '-O1 -g1',
    'fuzz': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link '
            '-fno-sanitize=vptr,function -fno-sanitize-recover=all',
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), check=True, **kw)


def pkgconfig():
    out = subprocess.run(['pkg-config', '--cflags', 'urdfdom', 'tinyxml2', 'eigen3'], capture_output=True, text=True)
    return out.stdout.strip()


def generate(gen):
    """forwarding headers, message structs, parameters, plugin aliases; only rewrite what changed"""
    tmp = B / (gen.name + '.new')
    subprocess.run(['rm', '-rf', str(tmp)], check=True)
    sh([sys.executable, str(V / 'shim' / 'gen.py'), str(REPO), str(tmp)], stdout=subprocess.DEVNULL)
    gen.mkdir(parents=True, exist_ok=True)
    new = {p.relative_to(tmp): p.read_bytes() for p in tmp.rglob('*') if p.is_file()}
    for p in list(gen.rglob('*')):
        if p.is_file() and p.relative_to(gen) not in new:
            p.unlink()
    for rel, data in new.items():
        dst = gen / rel
        if not dst.exists() or dst.read_bytes() != data:
            dst.parent.mkdir(parents=True, exist_ok=True)
            dst.write_bytes(data)
    subprocess.run(['rm', '-rf', str(tmp)], check=True)


def build(name, c):
    B.mkdir(parents=True, exist_ok=True)
    gen = B / 'gen'
    generate(gen)
    flavor = c.get('flavor', 'asan')
    cxx = 'clang++' if flavor == 'fuzz' else 'g++'
    inc = ' '.join([f'-I{V}/lib', f'-I{V}/checks', f'-I{gen}/include', f'-I{V}/shim/include'] +
                   [f'-isystem {REPO}/{p}/include' if False else f'-I{REPO}/{p}/include' for p in PKGS])
    flags = f'-std=c++20 -w -pthread {FLAVOR[flavor]} {inc} {pkgconfig()} {c.get("cflags", "")}'
    out = B / 'bin' / f'{name}'
    objs, n = [], []
    n.append('ninja_required_version = 1.3')
    n.append(f'builddir = {B}/nj-{flavor}')
    n.append(f'flags = {flags}')
    n.append(f'rule cxx\n  command = {cxx} $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    n.append(f'rule link\n  command = {cxx} $flags $in -o $out $libs')
    tag = flavor + ('-' + c['tag'] if 'tag' in c else '')
    # biggest translation units first
    for s in sorted(REPO_SRC(c), key=lambda s: -(REPO / s).stat().st_size if (REPO / s).exists() else 0):
        o = f'{B}/obj-{tag}/repo/{s}.o'
        n.append(f'build {o}: cxx {REPO}/{s}')
        objs.append(o)
    for s in c['src']:
        o = f'{B}/obj-{tag}/checks/{s}.o'
        n.append(f'build {o}: cxx {V}/checks/{s}')
        objs.append(o)
    libs = '-lurdfdom_model -lurdfdom_world -lurdfdom_sensor -lurdfdom_model_state -ltinyxml2 -lfmt -lyaml-cpp -ldl'
    if flavor == 'fuzz':
        libs += ' -fsanitize=fuzzer'
    n.append(f'build {out}: link {" ".join(objs)}\n  libs = {libs}')
    nf = B / f'{name}.ninja'
    nf.write_text('\n'.join(n) + '\n')
    r = subprocess.run(['ninja', '-f', str(nf), '-j', str(os.cpu_count() or 8)], capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print(r.stderr[-2000:])
        print(f'BUILD-ERROR: could not build {name} from {REPO}')
        sys.exit(2)
    return out


def main():
    if sys.argv[1] == '--setup':
        B.mkdir(exist_ok=True)
        (V / 'evidence').mkdir(exist_ok=True)
        return 0
    prop = sys.argv[1]
    c = CHECKS[prop]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if args and args[0] in ('quick', 'thorough'):
        tier = args.pop(0)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    (V / 'evidence').mkdir(exist_ok=True)
    out = B / 'run' / prop
    out.mkdir(parents=True, exist_ok=True)
    env.setdefault('PBT_OUT', str(out))
    env['PBT_KNOWN'] = str(V / 'known_findings.txt')
    env['PBT_EVIDENCE'] = str(V / 'evidence' / f'{prop}.json')
    env['VERIF_REPO'] = str(REPO)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=0:' + c.get('asan', '')
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    t0 = time.time()
    if c.get('kind') == 'py':
        cmd = ['python3-vt', str(V / 'checks' / c['src'][0])] + args
        env['PYTHONHASHSEED'] = '0'
    else:
        b = build(c.get('bin', c['src'][0].replace('.cpp', '')), c)
        print(f'built in {time.time()-t0:.1f} s', flush=True)
        if args[:1] == ['--build-only']:
            return 0
        cmd = [str(b)] + args
        env.update(c.get('env', {}))
    env['PBT_PROPERTY'] = prop
    if c.get('locale'):
        loc = B / 'locale'
        loc.mkdir(exist_ok=True)
        if not (loc / 'de_DE.UTF-8').exists():
            subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', str(loc / 'de_DE.UTF-8')], stderr=subprocess.DEVNULL)
        env['LOCPATH'] = str(loc)
    return subprocess.run(cmd, env=env, cwd=V).returncode


if __name__ == '__main__':
    sys.exit(main())

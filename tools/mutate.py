#!/usr/bin/env python3
"""mutate.py OUT SECONDS SEED FILE:CHECK[,CHECK...] ...   small random changes of /repo's code against the checks

Every mutant is built in a scratch copy of the repository (VERIF_REPO), the checks are run (PBT_SCALE) until one reports it;
the survivors are written to OUT for reading.  Not a check: a way to find what the checks do not look at."""
import os, random, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
SRC = os.environ.get('MUT_REPO', '/repo')
CPP = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '),
       (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'),
       (r'\bif \((.*)\)$', r'if (!(\1))'), (r'!(\w)', r'\1'), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'), (r'\bSUCCESS\b', 'ERROR'),
       (r'\bERROR\b', 'SUCCESS'), (r'\bSTATE_INACTIVE\b', 'STATE_ACTIVE'), (r'\bSTATE_ACTIVE\b', 'STATE_INACTIVE'), (r'\+=', '-='), (r'-=', '+='),
       (r'\[0\]', '[1]'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\bany_of\b', 'all_of'), (r'\ball_of\b', 'any_of'),
       (r'\bstate_interface', 'command_interface'), (r'\bcommand_interface', 'state_interface'), (r'\bactivate', 'deactivate'), (r'\bdeactivate', 'activate'),
       (r'\bposition', 'velocity'), (r'\bvelocity', 'position'), (r'\bmin_', 'max_'), (r'\bmax_', 'min_')]
PY = [(r' < ', ' <= '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '), (r' and ', ' or '), (r' or ', ' and '), (r'\bTrue\b', 'False'),
      (r'\bFalse\b', 'True'), (r'\bnot ', ''), (r'\bif (.*):$', r'if not (\1):'), (r' in ', ' not in '), (r'\bcontinue$', 'break'), (r'\bbreak$', 'continue'),
      (r'return 1$', 'return 0'), (r'return 0$', 'return 1'), (r' \+ ', ' - '), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\bactivate', 'deactivate'),
      (r'\bdeactivate', 'activate'), (r'inactive', 'active'), (r'\bcommand_', 'state_'), (r'\bstate_', 'command_'), (r'"active"', '"inactive"')]


def logging(lines):
    """indices of lines that belong to logging statements or comments"""
    out, depth = set(), 0
    for i, l in enumerate(lines):
        s = l.strip()
        if depth == 0 and (re.match(r'(RCLCPP|RCUTILS)_\w+\(|(\w+\.)*(logger|get_logger\(\))\.|print\(|fmt::print|TRACEPOINT|std::cerr|RCLCPP', s)):
            depth = 0
            inlog = True
        else:
            inlog = depth > 0
        if inlog:
            out.add(i)
            depth += l.count('(') - l.count(')')
            depth = max(depth, 0)
        if s.startswith(('//', '*', '/*', '#', 'namespace', 'using', 'template', 'class', 'struct', 'static_assert', 'import', 'from', '"', 'help=')) or not s:
            out.add(i)
    return out


def mutants(path, rng):
    text = path.read_text()
    lines = text.split('\n')
    skip = logging(lines)
    py = path.suffix == '.py'
    out = []
    for i, l in enumerate(lines):
        if i in skip:
            continue
        if not py and ('#include' in l or 'fmt::format' in l or 'operator' in l or 'const char' in l):
            continue
        for a, b in (PY if py else CPP):
            for m in re.finditer(a, l):
                if l[:m.start()].count('"') % 2 and a not in (r'"active"',):
                    continue
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l:
                    out.append((i, n))
        s = l.strip()
        if not py and s.endswith(';') and re.match(r'[\w\->.\[\]:*]+(\(|\s*=[^=]|\.|->|\+\+)', s) and not s.startswith(('return', 'auto', 'const', 'std::', 'static', 'bool', 'double', 'int', 'size_t')):
            if l.count('(') == l.count(')'):
                out.append((i, l[:len(l) - len(l.lstrip())] + ';'))
        if py and re.match(r'[\w.]+(\(.*\)$|\.append|\.extend| = | \+= )', s) and s.count('(') == s.count(')') and s.count('[') == s.count(']') and s.count('{') == s.count('}'):
            out.append((i, l[:len(l) - len(l.lstrip())] + 'pass'))
    rng.shuffle(out)
    # spread over lines
    seen, first, rest = set(), [], []
    for m in out:
        (rest if m[0] in seen else first).append(m)
        seen.add(m[0])
    return lines, first + rest


def main():
    out, seconds, seed = Path(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    work = Path(tempfile.mkdtemp(prefix='mut_', dir='/tmp'))
    subprocess.check_call(['cp', '-a', SRC, str(work / 'repo')])
    repo = work / 'repo'
    subprocess.check_call(['cp', '-a', '--', str(V), str(work / 'verif')])
    shutil.rmtree(work / 'verif' / 'seeded', ignore_errors=True)
    targets = []
    for t in sys.argv[4:]:
        f, c = t.split(':')
        lines, ms = mutants(repo / f, rng)
        targets.append([f, c.split(','), lines, ms])
    end = time.time() + seconds
    n = k = b = 0
    try:
        while time.time() < end:
            live = [t for t in targets if t[3]]
            if not live:
                break
            f, checks, lines, ms = live[n % len(live)]
            n += 1
            i, new = ms.pop(0)
            mutated = lines[:i] + [new] + lines[i + 1:]
            (repo / f).write_text('\n'.join(mutated))
            env = dict(os.environ, VERIF_REPO=str(repo))
            t0 = time.time()
            verdict = 'SURVIVED'
            for c in checks:
                try:
                    r = subprocess.run([sys.executable, 'run.py', c, 'quick'], cwd=work / 'verif', env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    verdict = 'timeout ' + c
                    break
                o = r.stdout + r.stderr
                if r.returncode:
                    if 'error:' in o and 'VIOLATION' in o and 'build' in o.lower() and re.search(r'\.(cpp|hpp):\d+:\d+: error', o):
                        verdict = 'BUILD'
                        b += 1
                    else:
                        verdict = 'killed ' + c
                        k += 1
                    break
            with open(out, 'a') as h:
                h.write(f'{verdict} {f}:{i + 1} ({time.time() - t0:.0f} s)\n   -{lines[i]}\n   +{new}\n')
            (repo / f).write_text('\n'.join(lines))
        with open(out, 'a') as h:
            h.write(f'# {n} mutants, {k} killed, {b} not built\n')
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()

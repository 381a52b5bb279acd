"""Builds the custom operations of a tree for the processor:
python3 build.py TREE OUT: OUT/libtfg.so.

The sources are read as they are, up to CUDA's launches <<<...>>> and shared
variables, which become calls of the emulator.
"""
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def no_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = i
            while True:
                j = s.find('\n', j)
                if j < 0:
                    j = n
                    break
                if s[j - 1] == '\\':
                    j += 1
                    continue
                break
            out.append('\n' * s.count('\n', i, j))
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(' ' + '\n' * s.count('\n', i, j))
            i = j
        elif s[i] in '"\'':
            j = i + 1
            while j < n and s[j] != s[i]:
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def closing(s, i, a, b):
    depth = 0
    while True:
        if s[i] == a:
            depth += 1
        elif s[i] == b:
            depth -= 1
            if depth == 0:
                return i
        i += 1


def launches(s):
    while True:
        at = s.find('<<<')
        if at < 0:
            return s
        i = at - 1
        while s[i].isspace():
            i -= 1
        end = i + 1
        if s[i] == '>':
            depth = 0
            while True:
                depth += {'>': 1, '<': -1}.get(s[i], 0)
                i -= 1
                if depth == 0:
                    break
            while s[i].isspace():
                i -= 1
        while s[i].isalnum() or s[i] in '_:':
            i -= 1
        start = i + 1
        name = s[start:end]
        j = s.index('>>>', at)
        config = s[at + 3:j]
        parts, depth, cur = [], 0, ''
        for c in config:
            depth += {'(': 1, '[': 1, '{': 1, ')': -1, ']': -1, '}': -1}.get(c, 0)
            if c == ',' and depth == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += c
        parts.append(cur)
        if len(parts) < 3:
            parts.append('0')
        if len(parts) < 4:
            parts.append('(cudaStream_t)nullptr')
        k = j + 3
        while s[k].isspace():
            k += 1
        stop = closing(s, k, '(', ')')
        args = s[k + 1:stop].strip()
        call = ('emu::launch("%s", %s, [](auto... emu_a){ %s(emu_a...); }%s)'
                % (name.replace('"', ''), ', '.join('(%s)' % p for p in parts),
                   name, ', ' + args if args else ''))
        lines = s.count('\n', start, stop + 1) - call.count('\n')
        s = s[:start] + call + '\n' * lines + s[stop + 1:]


def shared(s):
    s = re.sub(r'extern\s+__shared__\s+([\w:<>\s,]+?)\s+(\w+)\s*\[\s*\]\s*;',
               r'\1* \2 = (\1*)emu::shared_dyn();', s)
    return re.sub(
        r'__shared__\s+([\w:<>,]+(?:\s*<[^;]*?>)?)\s+(\w+)\s*((?:\[[^\]]*\]\s*)*);',
        r'typedef \1 emu_t_\2 \3; emu_t_\2& \2 = '
        r'*(emu_t_\2*)emu::shared_var("\2", sizeof(emu_t_\2));', s)


def rewrite(path):
    s = no_comments(open(path, encoding='utf-8', errors='replace').read())
    return '#line 1 "%s"\n' % os.path.basename(path) + launches(shared(s))


def build(tree, out, quiet=True):
    src = os.path.join(tree, 'custom_ops', 'tfg_custom_ops')
    dst = os.path.join(out, 'src', 'tfg_custom_ops')
    units = []
    for d, _, files in os.walk(src):
        for f in sorted(files):
            if not f.endswith(('.h', '.hpp', '.cuh', '.cpp', '.cc', '.cu')):
                continue
            rel = os.path.relpath(os.path.join(d, f), src)
            to = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(to), exist_ok=True)
            with open(to, 'w') as o:
                o.write(rewrite(os.path.join(d, f)))
            if f.endswith(('.cpp', '.cc', '.cu')):
                units.append(to)
    flags = ['-std=c++17', '-O1', '-fPIC', '-fno-gnu-unique', '-w', '-x', 'c++',
             '-I', os.path.join(HERE, 'include'), '-I', os.path.join(out, 'src')]
    jobs = [(u, os.path.join(out, 'o%d.o' % i),
             ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0'])
            for i, u in enumerate(units)]
    jobs.append((os.path.join(HERE, 'emu.cpp'), os.path.join(out, 'emu.o'), []))

    def one(job):
        u, o, extra = job
        r = subprocess.run(['g++'] + flags + extra + ['-I', os.path.dirname(u), '-c', u, '-o', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return u, r.returncode, r.stdout
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, jobs))
    bad = [(u, t) for u, c, t in done if c]
    if bad:
        raise RuntimeError('custom operations do not compile: %s\n%s'
                           % (bad[0][0], bad[0][1][:3000]))
    # (the emulator apart: its templates have to stay without hooks)
    lib = os.path.join(out, 'libtfg.so')
    for cmd in (['-o', os.path.join(out, 'libemu.so'), os.path.join(out, 'emu.o'),
                 '-lboost_context'],
                ['-o', lib] + [o for _, o, _ in jobs if not o.endswith('emu.o')]
                + [os.path.join(out, 'libemu.so'), '-Wl,-rpath,$ORIGIN']):
        r = subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic'] + cmd,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('custom operations do not link\n' + r.stdout[:3000])
    return lib


if __name__ == '__main__':
    os.makedirs(sys.argv[2], exist_ok=True)
    print(build(sys.argv[1], sys.argv[2]))

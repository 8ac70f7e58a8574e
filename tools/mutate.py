"""Mutant schemata: rewrites a scratch copy of the repository so that one build holds many small changes, each
switched on by the environment variable MUT. Used to find what the checks miss; no check uses it.

  mutate.py TREE OUT.json [SEED]   rewrites TREE in place and lists the mutants
"""
import glob
import json
import random
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HEADER = '/tmp/mtool/mut.h'
HEADER_TEXT = '''#ifndef MUT_H
#define MUT_H
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
namespace mut {
template <typename A, typename B> struct Same;
template <typename A> struct Same<A, A> { char c; };
inline int id() { static const int v = std::getenv("MUT") ? std::atoi(std::getenv("MUT")) : 0; return v; }
// with MUTCOV=file, the mutants that are reached are marked in the file
inline char* reached() {
    static char* const p = []() -> char* {
        const char* f = std::getenv("MUTCOV");
        if (f == nullptr) return nullptr;
        const int d = open(f, O_RDWR | O_CREAT, 0644);
        if (d < 0 || ftruncate(d, 20000) != 0) return nullptr;
        void* m = mmap(nullptr, 20000, PROT_READ | PROT_WRITE, MAP_SHARED, d, 0);
        return m == MAP_FAILED ? nullptr : static_cast<char*>(m);
    }();
    return p;
}
inline bool is(int k) {
    char* p = reached();
    if (p != nullptr && p[k] != 100) ++p[k];
    return id() == k;
}
}
#define MUT(k) (mut::is(k))
#endif
'''

SWAPS = [
    (r'\bONE\b', 'TWO'), (r'\bTWO\b', 'ONE'), (r'\bTHREE\b', 'TWO'),
    (r'1\b', '2'), (r'2\b', '1'), (r'\bmin', 'max'), (r'\bMin', 'Max'), (r'\bmax', 'min'), (r'\bMax', 'Min'),
    (r'Low\b', 'High'), (r'High\b', 'Low'), (r'Low(?=[A-Z])', 'High'), (r'High(?=[A-Z])', 'Low'),
    (r'P\b', 'Q'), (r'Q\b', 'P'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bMIN_', 'MAX_'), (r'\bMAX_', 'MIN_'), (r'_P\b', '_Q'), (r'_Q\b', '_P'), (r'1(?=,|\))', '3'),
    (r'R\b', 'X'), (r'X\b', 'R'), (r'G\b', 'B'), (r'B\b', 'G'),
    (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'\bbegin\b', 'end'),
    (r'Connectable', ''), (r'Max\b', 'Min'), (r'Min\b', 'Max'),
]
OPS = [
    (r'(?<![<>=!&|+\-*/])<(?![<=])', '<='), (r'(?<![<>=!\-])>(?![>=])', '>='), (r'<=', '<'), (r'>=', '>'),
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '),
    (r' \* ', ' / '), (r' / ', ' * '), (r'!(?=[a-zA-Z_(])', ''), (r'\b0\b(?!\.)', '1'), (r' \+ 1\b', ''), (r' - 1\b', ''),
]


def strip_strings(s):
    return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\x01' * (len(m.group(0)) - 2) + '"', s)


def variants(expr, tables):
    """single replacements of one occurrence each"""
    masked = strip_strings(expr)
    out = []
    for table in tables:
        for pat, rep in table:
            for m in re.finditer(pat, masked):
                v = expr[:m.start()] + rep + expr[m.end():]
                if v != expr and v not in out:
                    out.append(v)
    return out


STMT = re.compile(r'^(\s+)((?:[A-Za-z_][\w:]*|\(\*this\)|\*|\+\+|--).*);\s*$')
DECL = re.compile(r'^(?:const|auto|return|break|continue|using|typedef|static|class|struct|friend|virtual|explicit|throw|case|default|'
                  r'goto|delete|namespace|template|public|private|else|do|while|for|if|switch|try|enum|extern|inline|bool|int|double|unsigned)\b')


def balanced(s):
    s = strip_strings(s)
    return s.count('(') == s.count(')') and s.count('{') == s.count('}') and s.count('[') == s.count(']')


def is_decl(t):
    if DECL.match(t):
        return True
    # Type name..., Type& name, Type name(...)
    return re.match(r'^[A-Za-z_][\w:]*(?:<.*>)?(?:::\w+)*[&*]*\s+[&*]*[A-Za-z_]\w*\s*(?:[;=({\[]|$)', t) is not None


class Gen:
    def __init__(self, rnd):
        self.k = 0
        self.rnd = rnd
        self.out = []

    def new(self, path, n, kind, old, new):
        self.k += 1
        self.out.append({'k': self.k, 'file': path, 'line': n + 1, 'kind': kind, 'old': old.strip(), 'new': new})
        return self.k

    def line(self, path, n, line, prev):
        """the new text, or None"""
        code = line.split('//')[0].rstrip() if '"' not in line else line.rstrip()
        if not balanced(code):
            m = re.match(r'^(\s*(?:\} else )?if \()(.*)(\) \{)$', code)
            if not m:
                return None
        m = re.match(r'^(\s*(?:\} else )?if \()(.*)(\) \{)$', code)
        if m and balanced(m.group(2)):
            c = m.group(2)
            if re.match(r'^(const |auto )', c):
                return None
            alts = ['true', 'false'] + self.pick(variants(c, [OPS, SWAPS]), 4)
            return m.group(1) + self.tern(path, n, line, alts, c, True) + m.group(3)
        m = re.match(r'^(\s*return )(.+);$', code)
        if m:
            e = m.group(2)
            if e in ('*this', 'oss.str()', 'stream') or '{' in e or '[' in e or e == 'self':
                return None
            alts = self.pick(variants(e, [OPS, SWAPS]), 5)
            if not alts:
                return None
            return m.group(1) + self.tern(path, n, line, alts, e) + ';'
        m = re.match(r'^(\s*for \()(.*); (.*); (.*)(\) \{)$', code)
        if m and ';' not in m.group(3):
            alts = self.pick(variants(m.group(3), [OPS]), 2)
            if alts:
                return m.group(1) + m.group(2) + '; ' + self.tern(path, n, line, alts, m.group(3)) + '; ' + m.group(4) + m.group(5)
            return None
        m = STMT.match(code)
        if m and re.match(r'^.*[;{}:]$', prev) and not is_decl(m.group(2)) and ('(' in m.group(2) or '=' in m.group(2)):
            s = m.group(2)
            if s.startswith('logger') or 'assertion' in s.lower():
                return None
            text = m.group(1)
            k = self.new(path, n, 'delete', line, '')
            text += 'if (MUT(%d)) {} ' % k
            for v in self.pick(variants(s, [SWAPS, OPS]), 3):
                k = self.new(path, n, 'swap', line, v)
                text += 'else if (MUT(%d)) { %s; } ' % (k, v)
            return text + 'else { ' + s + '; }'
        m = re.match(r'^(\s+(?:const )?(?:auto|bool|int|double|unsigned long|unsigned int)\s*&?\s*\w+ = )(.+);$', code)
        if m and '[' not in m.group(2) and '{' not in m.group(2):
            alts = self.pick(variants(m.group(2), [OPS, SWAPS]), 3)
            if alts:
                return m.group(1) + self.tern(path, n, line, alts, m.group(2)) + ';'
        return None

    def pick(self, xs, n):
        xs = list(xs)
        self.rnd.shuffle(xs)
        return xs[:n]

    def tern(self, path, n, line, alts, e, cond=False):
        t = ''
        for a in alts:
            k = self.new(path, n, 'expr', line, a)
            if cond:
                t += 'MUT(%d) ? (static_cast<bool>(%s)) : ' % (k, a)
            else:
                t += '(sizeof(mut::Same<decltype((%s)), decltype((%s))>) && MUT(%d)) ? (%s) : ' % (a, e, k, a)
        return '(' + t + ('(static_cast<bool>(' + e + '))' if cond else '(' + e + ')') + ')'


def errors(tree, path):
    inc = ['-I%s/include' % tree, '-I%s/src' % tree, '-I/usr/include/libxml2'] + ['-I%s/extensions/%s/include' % (tree, e) for e in ('iidm', 'sld', 'entsoe')]
    r = subprocess.run(['g++', '-std=c++11', '-w', '-include', 'cmath', '-fsyntax-only', '-fmax-errors=0'] + inc + [path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    bad = set()
    for m in re.finditer(r'^([^\s:]+):(\d+):(?:(\d+):)?\s+(error|note|required from)', r.stdout, re.M):
        bad.add((m.group(1), int(m.group(2)), int(m.group(3) or 0)))
    return r.returncode != 0, bad, r.stdout


def main():
    tree, out = sys.argv[1], sys.argv[2]
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    with open(HEADER, 'w') as f:
        f.write(HEADER_TEXT)
    files = [f for f in glob.glob(tree + '/src/**/*.cpp', recursive=True) if '/src/network/' not in f and '/test/' not in f]
    files += glob.glob(tree + '/extensions/*/src/**/*.cpp', recursive=True)
    hxx = glob.glob(tree + '/include/**/*.hxx', recursive=True) + glob.glob(tree + '/src/**/*.hxx', recursive=True) + \
        glob.glob(tree + '/extensions/*/include/**/*.hxx', recursive=True)
    files = sorted(f for f in files if '/test/' not in f)
    g = Gen(rnd)
    orig, cur = {}, {}
    for f in sorted(set(files + [h for h in hxx if '/test/' not in h])):
        lines = open(f).read().split('\n')
        orig[f] = lines
        new, prev, skip = [], '', False
        for n, l in enumerate(lines):
            t = g.line(f, n, l, prev.strip())
            new.append(t if t is not None else l)
            if l.strip() and not l.strip().startswith('//'):
                prev = l.split('//')[0].rstrip() if '"' not in l else l
        cur[f] = new
    def write(f):
        # same numbering: the header goes on the first line
        text = '\n'.join(cur[f])
        open(f, 'w').write('#include "%s"\n#line 1 "%s"\n' % (HEADER, f) + text)
    for f in cur:
        write(f)
    todo = list(files)
    for rnd_no in range(16):
        with ThreadPoolExecutor(8) as pool:
            res = list(zip(todo, pool.map(lambda f: errors(tree, f), todo)))
        again, done, changed = set(), set(), set()
        n = 0
        for f, (failed, bad, text) in res:
            if not failed:
                continue
            again.add(f)
            hit = False
            for (p, l, c) in bad:
                if p not in cur or not 0 < l <= len(cur[p]):
                    continue
                if (p, l) in done:
                    hit = True
                    continue
                if cur[p][l - 1] == orig[p][l - 1]:
                    continue
                done.add((p, l))
                hit = True
                n += 1
                # only the alternative at fault, when the column tells which
                text, drop = cur[p][l - 1], None
                if rnd_no < 10:
                    for m in re.finditer(r'\(sizeof\(mut::Same.*?MUT\(\d+\)\) \? \(.*?\) : |MUT\((\d+)\) \? (\(.*?\)) : |(?:else )?if \(MUT\((\d+)\)\) \{.*?\} (?=else)', text):
                        if m.start() < c <= m.end():
                            drop = m
                if drop and not (drop.group(3) and not drop.group(0).startswith('else')):
                    cur[p][l - 1] = text[:drop.start()] + text[drop.end():]
                    if 'MUT(' not in cur[p][l - 1]:
                        cur[p][l - 1] = orig[p][l - 1]
                else:
                    cur[p][l - 1] = orig[p][l - 1]
                changed.add(p)
            if not hit:
                print('no culprit in', f, [x for x in text.split('\n') if 'error' in x][:2])
                cur[f] = list(orig[f])
                write(f)
        for p in changed:
            write(p)
        print('round', rnd_no, 'files failing', len(again), 'lines restored', n, flush=True)
        if not again:
            break
        todo = sorted(again)
    live = [m for m in g.out if 'MUT(%d)' % m['k'] in cur[m['file']][m['line'] - 1]]
    json.dump(live, open(out, 'w'), indent=0)
    print(len(g.out), 'mutants,', len(live), 'live')


main()

"""C18 the generated C++ function compiles and computes exactly the real branches of the solution."""
import math
import os
import re
import subprocess
import forms
import graphs
import mc

FLAGS = ['-O0', '-w', '-std=c++17']


def generate(sols, methods, name):
    n = graphs.ns()
    sp = n['sp']
    R, us, order = graphs.build([x for x, _ in sols] + ['th_4'], sols, methods, name, {}, [sp.Symbol(p) for p in graphs.PAR])
    graphs.versions(R)
    n['oc'].output_cpp_code(R, R.solutionSet)
    d = 'CodeGen/Cpp'
    fs = [f for f in os.listdir(d) if f.startswith('IK_')]
    if len(fs) != 1:
        raise AssertionError('generated files: %s' % fs)
    with open(os.path.join(d, fs[0])) as f:
        text = f.read()
    os.remove(os.path.join(d, fs[0]))
    for p, v in graphs.PAR.items():
        text, k = re.subn(r'(\b%s\s*=\s*)XXXXX' % p, lambda m: m.group(1) + repr(v), text)
        if k != 1:
            raise AssertionError('parameter %s is declared %d times' % (p, k))
    return text


def one(c):
    fs, deps = c
    sols, methods = forms.graph(fs, deps)
    name = forms.ROBOTS[(len(fs) * 3 + sum(len(x) for x in fs)) % len(forms.ROBOTS)]
    with mc.scratch():
        return generate(sols, methods, name)


DRIVER = '''
#include <math.h>
#include <stdio.h>
#include <iostream>
#include <cmath>
#define main ikbt_main
%s
#undef main
static double POSES[%d][4][4] = {%s};
template<int C> int call(int (*f)(double (*)[4], double (*)[C]), int id, int rows, int cols) {
  for (int p = 0; p < %d; p++) {
    static double guard[400][C];
    for (int i = 0; i < 400; i++) for (int j = 0; j < C; j++) guard[i][j] = -12345.5;
    double T[4][4];
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) T[i][j] = POSES[p][i][j];
    int r = f(T, guard);
    printf("R %%d %%d %%d\\n", id, p, r);
    for (int i = 0; i < 400; i++) {
      int any = 0;
      for (int j = 0; j < C; j++) if (guard[i][j] != -12345.5) any = 1;
      if (!any) continue;
      printf("S");
      for (int j = 0; j < C && j < cols; j++) printf(" %%.15g", guard[i][j]);
      printf("\\n");
    }
  }
  return 0;
}
int main() {
%s
}
'''


def batch(cs):
    """list of (case, violation or None)"""
    texts = {}
    out = []
    for c in cs:
        r = mc.guarded(one, c, seconds=60)
        if r[0] == 'exc':
            out.append((c, r[1]))
        else:
            texts[c] = r[1]

    def compile_(sel, d, tag):
        src = []
        for i, c in sel:
            src.append('namespace c%d {\n%s\n}\n' % (i, texts[c]))
        P = forms.poses()
        body = ''.join('  call(&c%d::ikin, %d, 0, %d);\n' % (i, i, len(c[0])) for i, c in sel)
        t = DRIVER % ('\n'.join(src), len(P), ',\n'.join('{' + ','.join('{' + ','.join(repr(float(x)) for x in row) + '}' for row in T) + '}'
                                                       for T in P), len(P), body)
        f = os.path.join(d, tag + '.cpp')
        with open(f, 'w') as h:
            h.write(t)
        r = subprocess.run(['g++'] + FLAGS + ['-o', os.path.join(d, tag), f], capture_output=True, text=True)
        return r.returncode == 0, r.stderr

    with mc.scratch() as d:
        sel = list(enumerate(texts))
        good = []
        ok, err = compile_(sel, d, 'all')
        if ok:
            good = [('all', sel)]
        else:
            for i, c in sel:
                ok, err = compile_([(i, c)], d, 'one%d' % i)
                if ok:
                    good.append(('one%d' % i, [(i, c)]))
                else:
                    m = re.search(r'error: .*', err)
                    out.append((c, 'generated code does not compile: %s' % (m.group(0) if m else err[:200])))
        for tag, sel in good:
            r = subprocess.run([os.path.join(d, tag)], capture_output=True, text=True, timeout=120)
            res = {}
            cur = None
            for line in r.stdout.splitlines():
                w = line.split()
                if w and w[0] == 'R':
                    cur = res.setdefault((int(w[1]), int(w[2])), (int(w[3]), []))
                elif w and w[0] == 'S':
                    cur[1].append(tuple(float(x) for x in w[1:]))
            for i, c in sel:
                out.append((c, judge(i, c, res, r.returncode)))
    return out


def judge(i, c, res, rc):
    sols, _ = forms.graph(*c)
    nv = 1
    for _, ss in sols:
        nv *= len(ss)
    for p, T in enumerate(forms.poses()):
        if (i, p) not in res:
            return 'generated code crashed (exit %s)' % rc
        ret, rows = res[(i, p)]
        want = forms.expected(sols, T, graphs.PAR) if sols else []
        if sols and len(rows) != nv:
            return 'at pose %d fills %d rows, there are %d versions' % (p, len(rows), nv)
        got = [r for r in rows if not any(math.isnan(x) for x in r)] if sols else []
        if not graphs.same_sets(got, want):
            return 'at pose %d yields %s, the solutions are %s' % (p, sorted(got)[:4], sorted(want)[:4])
        if bool(ret) != bool(want):
            return 'at pose %d answers %d with %d solutions' % (p, ret, len(want))
    return None


def alone(c):
    """the file as it is: compiles to a program which runs"""
    r = mc.guarded(one, c, seconds=60)
    if r[0] == 'exc':
        return r[1]
    with mc.scratch() as d:
        with open('x.cpp', 'w') as f:
            f.write(r[1])
        p = subprocess.run(['g++', '-o', 'x', 'x.cpp'], capture_output=True, text=True)
        if p.returncode:
            return 'the file alone does not compile: ' + p.stderr[:200]
        p = subprocess.run(['./x'], capture_output=True, text=True, timeout=60)
        if p.returncode:
            return 'the generated program exits with %d' % p.returncode
    return None


def text(c):
    return 'formulas %s, depends on %s' % (' '.join(c[0]), c[1])


def run(ctx):
    graphs.ns()
    cs = []
    for k in (0, 1, 2, 3, 4) if ctx.quick else (0, 1, 2, 3, 4, 5):
        cs += list(forms.cases(k, ctx.quick or k > 3))
    # more unknowns than the six joints (sums of angles), and more than 64 solutions
    for fs in (('alg', 'asin', 'atan2', 'sac', 'const', 'acos', 'simu'), ('asin', 'atan2', 'acos', 'sac', 'sac2', 'x2z2', 'atan2')):
        for d in ((), None):
            cs.append((fs, tuple(() if i == 0 or d is not None else (i - 1,) for i in range(7))))
    cs = list(dict.fromkeys(cs))
    n = 25
    groups = [tuple(cs[i::(len(cs) + n - 1) // n]) for i in range((len(cs) + n - 1) // n)]
    for g, outs in mc.pmap(batch, groups, chunk=1):
        for c, bad in outs:
            ctx.count('states')
            ctx.count('transitions', len(forms.poses()))
            ctx.count('traces_validated_against_impl')
            if bad:
                ctx.violation(text(c), bad)
            elif ctx.cov['states'] % 100 == 1:
                ctx.sample(text(c))
    for c, bad in mc.pmap(alone, [c for c in cs if len(c[0]) <= 1] + cs[-4:], chunk=1):
        ctx.count('programs_run_alone')
        if bad:
            ctx.violation('alone: ' + text(c), bad)
    ctx.cov['exhaustive'] = True
    ctx.assumptions.append('formulas are drawn from the shapes the solver leaves produce')

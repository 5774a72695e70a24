#!/usr/bin/env python3
"""Proves the lemmas of the theory from its definitions.

An axiom of contracts/theory.smt2 (and of the generators in vcgen/theory.go) preceded by a line
";!lemma ..." is a consequence of the axioms before it. Here each one is proved again by z3, from the
axioms without that mark and the lemmas already proved, by the means its mark names:

  ;!lemma                       directly
  ;!lemma induct n [from 0]     by induction on n
  ;!lemma ... witness (w s n)   the term is a Skolem witness: existence is proved
  ;!lemma ... inst TERM         a term to try as witness
  ;!lemma ... hint S TERM       a term of sort S to instantiate with (x! is the fixed value of x)
  ;!lemma ... rank 2            after the lemmas of rank 1
  ;!lemma ... def LINE          a definition only the proof needs (it fixes what a symbol stands for)

Usage: lemmas.py [-v] [-only TEXT]      exit 0 when every marked axiom is proved.
"""
import re, subprocess, sys, os, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPTS = """(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.qi.eager_threshold 100)
(set-option :smt.arith.solver 6)
(set-option :timeout %d)
"""


def parse(text):
    pos, out = 0, []
    tok = re.compile(r'\s+|;[^\n]*|[()]|"[^"]*"|[^\s();]+')
    stack = []
    for m in tok.finditer(text):
        t = m.group()
        if t[0].isspace() or t[0] == ';':
            continue
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            (stack[-1] if stack else out).append(t)
    return out


def show(x):
    return x if isinstance(x, str) else '(' + ' '.join(show(y) for y in x) + ')'


def subst(x, m):
    if isinstance(x, str):
        return m.get(x, x)
    if x and x[0] == 'let':
        inner = {k: v for k, v in m.items() if k not in [b[0] for b in x[1]]}
        return ['let', [[b[0], subst(b[1], m)] for b in x[1]], subst(x[2], inner)]
    if x and x[0] in ('forall', 'exists'):
        inner = {k: v for k, v in m.items() if k not in [b[0] for b in x[1]]}
        return [x[0], x[1], subst(x[2], inner)]
    return [subst(y, m) for y in x]


def replace(x, old, new):
    if x == old:
        return new
    return x if isinstance(x, str) else [replace(y, old, new) for y in x]


def commands(text):
    """(command text, marks) in order"""
    out, marks, buf, depth = [], [], '', 0
    for line in text.split('\n'):
        if depth == 0 and line.startswith(';!lemma'):
            marks.append(line[len(';!lemma'):].strip())
            continue
        code = line.split(';')[0] if depth == 0 and line.startswith(';') else re.sub(r';[^"]*$', '', line)
        if not code.strip():
            continue
        buf += code + '\n'
        depth += code.count('(') - code.count(')')
        if depth == 0:
            out.append((buf, marks))
            buf, marks = '', []
    return out


def clauses(marks):
    """the words of the marks of one axiom"""
    r = {'induct': None, 'witness': [], 'hint': [], 'inst': [], 'def': [], 'rank': 1}
    for m in marks:
        toks = [show(t) for t in parse(m)]
        i = 0
        while i < len(toks):
            w = toks[i]
            if w == 'induct':
                r['induct'] = toks[i + 1]; i += 2
            elif w == 'witness':
                r['witness'].append(parse(toks[i + 1])[0]); i += 2
            elif w == 'hint':
                r['hint'].append((toks[i + 1], toks[i + 2])); i += 3
            elif w == 'inst':
                r['inst'].append(toks[i + 1]); i += 2
            elif w == 'rank':
                r['rank'] = int(toks[i + 1]); i += 2
            elif w == 'def':
                r['def'].append(toks[i + 1]); i += 2
            else:
                raise SystemExit('unknown word in a lemma mark: ' + w)
    return r


def goal(cmd, marks):
    a = parse(cmd)[0][1]
    c = clauses(marks)
    binders, body, pats = [], a, []
    if isinstance(a, list) and a[0] == 'forall':
        binders, body = a[1], a[2]
        if body[0] == '!':
            pats = body[3::2]
            body = body[1]
    for w in c['witness']:
        # there is a w with body; its denial is used at the terms of the mark
        if not c['inst']:
            body = ['exists', [['W!', 'Int']], replace(body, w, 'W!')]
            continue
        body = ['not', ['forall', [['W!', 'Int']], ['!', ['not', replace(body, w, 'W!')], ':pattern', [['inst!', 'W!']]]]]
    fix = {b[0]: b[0] + '!' for b in binders}
    out = ['(declare-const %s! %s)' % (b[0], show(b[1])) for b in binders]
    out += c['def']
    if c['witness']:
        out.append('(declare-fun inst! (Int) Bool)')
        out += ['(assert (inst! %s))' % t for t in c['inst']]
    n = c['induct']
    if n:
        prev = {n: ['-', n + '!', '1']}
        rest = [b for b in binders if b[0] != n]
        ih = subst(body, prev)
        if rest:
            ih = ['forall', rest, ['!', ih] + [y for p in pats for y in (':pattern', subst(p, prev))]]
        out.append('(declare-const prev! Int)')
        out.append('(assert (= prev! (- %s! 1)))' % n)
        out.append('(assert (=> (>= %s! 1) %s))' % (n, show(ih)))
        out.append('(assert (=> (>= %s! 1) %s))' % (n, show(subst(subst(body, {k: v for k, v in fix.items() if k != n}), {n: 'prev!'}))))
        for b in rest:
            if isinstance(b[1], str) and b[1].startswith('Seq'):
                x = b[1][3:]
                out.append('(declare-fun hint%s! (%s) Bool)' % (b[0], ELEM[x]))
                out.append('(assert (hint%s! (at%s %s! prev!)))' % (b[0], x, b[0]))
    for k, (s, t) in enumerate(c['hint']):
        out.append('(declare-fun hint%d! (%s) Bool)\n(assert (hint%d! %s))' % (k, s, k, t))
    out.append('(assert (not %s))' % show(subst(body, fix)))
    return '\n'.join(out)


ELEM = {}


def main():
    verbose = '-v' in sys.argv
    only = sys.argv[sys.argv.index('-only') + 1] if '-only' in sys.argv else None
    timeout = 30000
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/theory.smt2', 'w') as f:
            for p in ('theory.smt2', 'lemmas.smt2'):
                f.write(open(HERE + '/contracts/' + p).read() + '\n')
                if p == 'theory.smt2':
                    f.write('(declare-const theory.end Int)\n')
        text = subprocess.run([os.environ.get('VCGEN', HERE + '/build/vcgen'), '-theory', 'C20', '-contracts', d],
                              check=True, capture_output=True, text=True).stdout
    for m in re.finditer(r'\(declare-fun at([A-Z]+) \(Seq\1 Int\) (\w+)\)', text):
        ELEM[m.group(1)] = m.group(2)
    cmds = commands(text)
    lemmas = [i for i, (c, m) in enumerate(cmds) if m != []]
    defs = sum(1 for c, m in cmds if m == [] and c.startswith('(assert'))

    end = next(i for i, (c, m) in enumerate(cmds) if 'theory.end' in c)
    rank = {i: clauses(cmds[i][1])['rank'] for i in lemmas}

    def prove(i):
        # the axioms without a mark, and the lemmas before this one
        pre = [c for k, (c, m) in enumerate(cmds) if m == [] and (k < i or i < end or not c.startswith('(assert')) or m != [] and (rank[k], k) < (rank[i], i)]
        q = OPTS % timeout + ''.join(pre) + goal(*cmds[i]) + '\n(check-sat)\n'
        r = subprocess.run(['z3-new', '-in', '-smt2'], input=q, capture_output=True, text=True)
        if verbose and 'unsat' not in r.stdout and only:
            open('/tmp/lemma.smt2', 'w').write(q)
        return r.stdout.strip()

    bad = 0
    todo = [i for i in lemmas if only is None or only in cmds[i][0]]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in zip(todo, ex.map(prove, todo)):
            if r != 'unsat':
                bad += 1
                print('NOT PROVED (%s): %s' % (r[:200], cmds[i][0].strip()[:230]))
            elif verbose:
                print('proved: %s' % cmds[i][0].strip()[:150])
    print('%d definitions and assumptions, %d lemmas, %d not proved' % (defs, len(todo), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Translates the f64 axioms of spec/05_f64.rs (between //@f64 and //@endf64)
into Coq propositions, one Definition per axiom, and a check that
proofs/F64.v proves each of them.  usage: f64stmt.py OUT.v"""
import os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TOK = re.compile(r'\s*(==>|<==>|<==|&&|\|\||==|!=|<=|>=|<|>|\bis Some\b|0x[0-9a-f_]+|\d+|[A-Za-z_][A-Za-z_0-9:]*|[()!,+*-])')

def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        # <==> before <== and <=
        m = re.compile(r'\s*(<==>|==>)').match(s, i) or TOK.match(s, i)
        if not m:
            raise SystemExit('f64stmt: cannot read: ' + s[i:i + 40])
        out.append(m[1])
        i = m.end()
    return out

F64FN = {'f_add': 'FF', 'f_sub': 'FF', 'f_mul': 'FF', 'f_div': 'FF', 'f_min': 'FF', 'f_neg': 'F', 'f_lit': 'Z', 'f_int': 'Z'}
PROP = {'f_le': 'FF', 'f_lt': 'FF', 'f_gt': 'FF', 'f_ge': 'FF', 'f_ord': 'F', 'f_in': 'FZZ'}

class P:
    def __init__(self, toks, sorts):
        self.t, self.i, self.s = toks, 0, sorts
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def eat(self, x):
        if self.peek() != x: raise SystemExit('f64stmt: expected %s, found %s in %s' % (x, self.peek(), ' '.join(self.t)))
        self.i += 1
    # propositions, loosest first
    def prop(self):
        a = self.imp()
        while self.peek() == '<==>':
            self.i += 1
            a = '(%s <-> %s)' % (a, self.imp())
        return a
    def imp(self):
        a = self.disj()
        if self.peek() == '==>':
            self.i += 1
            return '(%s -> %s)' % (a, self.imp())
        return a
    def disj(self):
        a = self.conj()
        while self.peek() == '||':
            self.i += 1
            a = '(%s \\/ %s)' % (a, self.conj())
        return a
    def conj(self):
        a = self.neg()
        while self.peek() == '&&':
            self.i += 1
            a = '(%s /\\ %s)' % (a, self.neg())
        return a
    def neg(self):
        if self.peek() == '!':
            self.i += 1
            return '(~ %s)' % self.neg()
        return self.atom()
    def atom(self):
        k = self.i
        if self.peek() == '(':       # a parenthesised proposition, or a term
            self.i += 1
            try:
                a = self.prop()
                if self.peek() == ')':
                    self.i += 1
                    if self.peek() not in ('==', '<=', '<', '+', '-', '*', 'is Some'):
                        return a
            except SystemExit:
                pass
            self.i = k
        if self.peek() in PROP:
            f = self.t[self.i]; self.i += 1
            return '(%s %s)' % (f, ' '.join(self.args(PROP[f])))
        l, s = self.term()
        if s == 'C' and self.peek() == 'is Some':
            self.i += 1
            return '(is_Some %s)' % l
        op = self.peek()
        if op == '==':
            self.i += 1
            r, s2 = self.term()
            if s != s2: raise SystemExit('f64stmt: sorts differ')
            return '(%s = %s)' % (l, r) if s != 'Z' else '(%s = %s)%%Z' % (l, r)
        parts = []
        while self.peek() in ('<', '<='):
            o = self.t[self.i]; self.i += 1
            r, s2 = self.term()
            if s != 'Z' or s2 != 'Z': raise SystemExit('f64stmt: comparison of non-integers')
            parts.append('(%s %s %s)%%Z' % (l, o, r))
            l = r
        if not parts: raise SystemExit('f64stmt: no proposition at %s' % ' '.join(self.t[k:]))
        return parts[0] if len(parts) == 1 else '(%s)' % ' /\\ '.join(parts)
    def args(self, sorts):
        self.eat('(')
        out = []
        for n, s in enumerate(sorts):
            if n: self.eat(',')
            a, t = self.term()
            if t != s: raise SystemExit('f64stmt: wrong sort of argument ' + a)
            out.append(a)
        self.eat(')')
        return out
    def term(self):
        a, s = self.prod()
        while self.peek() in ('+', '-'):
            o = self.t[self.i]; self.i += 1
            b, _ = self.prod()
            a = '(%s %s %s)%%Z' % (a, o, b)
        return a, s
    def prod(self):
        a, s = self.unit()
        while self.peek() == '*':
            self.i += 1
            b, _ = self.unit()
            a = '(%s * %s)%%Z' % (a, b)
        return a, s
    def unit(self):
        x = self.t[self.i]; self.i += 1
        if x == '-':
            a, _ = self.unit()
            return '(- %s)%%Z' % a, 'Z'
        if x == '(':
            a = self.term()
            self.eat(')')
            return a
        if re.match(r'0x|\d', x):
            return '%d%%Z' % int(x.replace('_', ''), 0), 'Z'
        if x == 'big':
            self.eat('('); self.eat(')')
            return 'big', 'Z'
        if x == 'f_cmp':
            return '(f_cmp %s)' % ' '.join(self.args('FF')), 'C'
        if x == 'f_bits':
            return '(f_bits %s)' % ' '.join(self.args('F')), 'Z'
        if x in F64FN:
            return '(%s %s)' % (x, ' '.join(self.args(F64FN[x]))), 'F'
        if x == 'Some':
            self.eat('(')
            o = self.t[self.i]; self.i += 1
            self.eat(')')
            return '(Some %s)' % {'Ordering::Less': 'Lt', 'Ordering::Equal': 'Eq', 'Ordering::Greater': 'Gt'}[o], 'C'
        if x in self.s:
            return x, 'F' if self.s[x] == 'F64' else 'Z'
        raise SystemExit('f64stmt: unknown ' + x)

def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += (c in '([') - (c in ')]')
        if c == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += c
    return [x for x in out + [cur] if x.strip()]

def main():
    src = open(os.path.join(HERE, 'spec/05_f64.rs')).read()
    src = src[src.index('//@f64'):src.index('//@endf64')]
    src = re.sub(r'//.*', '', src).replace('#[trigger]', '')
    out = ['(* generated by tools/f64stmt.py from spec/05_f64.rs *)', 'Require Import ZArith.', 'Require Import F64Model F64.', '']
    n = 0
    for m in re.finditer(r'proof fn (axiom_\w+)\(([^)]*)\)\s*(?:requires(.*?))?ensures(.*?)\{ \}', src, re.S):
        name, params, req, ens = m.groups()
        ps = [tuple(y.strip() for y in x.split(':')) for x in params.split(',') if x.strip()]
        sorts = dict(ps)
        hyps = ['(0 <= %s < 18446744073709551616)%%Z' % p for p, t in ps if t == 'u64']
        hyps += [P(tokens(x), sorts).prop() for x in split(req or '')]
        concl = [P(tokens(x), sorts).prop() for x in split(ens)]
        st = ' ->\n  '.join(hyps + [' /\\\n  '.join(concl)])
        q = ('forall ' + ' '.join('(%s : %s)' % (p, 'F64' if t == 'F64' else 'Z') for p, t in ps) + ',\n  ') if ps else ''
        out.append('Definition stmt_%s : Prop := %s%s.' % (name[6:], q, st))
        out.append('Definition %s_holds : stmt_%s := %s.' % (name, name[6:], name))
        out.append('Print Assumptions %s_holds.\n' % name)
        n += 1
    if n != src.count('proof fn axiom_') or n == 0:
        raise SystemExit('f64stmt: %d of %d axioms read' % (n, src.count('proof fn axiom_')))
    open(sys.argv[1], 'w').write('\n'.join(out))
    print(n, 'statements')
main()

"""Reading the mathematics in a generated LaTeX report back: a small parser for the LaTeX sympy writes."""
import cmath
import math
import re


class Bad(Exception):
    pass


TOK = re.compile(r'\s*(\\[a-zA-Z]+\*?|\\.|\d+\.\d+|\d+|[a-zA-Z]+|[{}()\[\]^_+\-=&,/*|!.])')
GREEK = {'\\theta': 'th', '\\alpha': 'al', '\\beta': 'be'}
FUN = {'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan, 'asin': cmath.asin, 'acos': cmath.acos, 'arcsin': cmath.asin,
       'arccos': cmath.acos, 'atan': cmath.atan}


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad('cannot read %r' % s[i:i + 30])
        out.append(m.group(1))
        i = m.end()
    return out


class P:
    """value parser: vals maps symbol names to complex numbers"""
    def __init__(self, toks, vals):
        self.t, self.i, self.v = toks, 0, vals

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self, want=None):
        x = self.peek()
        if x is None or (want is not None and x != want):
            raise Bad('expected %s, found %s' % (want, x))
        self.i += 1
        return x

    def expr(self):
        neg = False
        while self.peek() in ('-', '+'):
            neg ^= self.next() == '-'
        x = self.term()
        if neg:
            x = -x
        while self.peek() in ('+', '-'):
            s = self.next()
            y = self.term()
            x = x + y if s == '+' else x - y
        return x

    def term(self):
        x = self.factor()
        while True:
            p = self.peek()
            if p in ('\\cdot', '*'):
                self.next()
                x = x * self.factor()
            elif p == '/':
                self.next()
                x = x / self.factor()
            elif p is not None and p not in ('+', '-', '}', ')', ']', '\\right', ',', '=', '&', '\\\\', '\\end'):
                x = x * self.factor()
            else:
                return x

    def factor(self):
        x = self.base()
        while self.peek() == '^':
            self.next()
            x = x ** self.group()
        return x

    def group(self):
        if self.peek() == '{':
            self.next()
            x = self.expr()
            self.next('}')
            return x
        return self.base()

    def args(self):
        """{\\left(a,b \\right)} or \\left(a\\right) or (a)"""
        br = False
        if self.peek() == '{':
            self.next()
            br = True
        left = self.peek() == '\\left'
        if left:
            self.next()
        self.next('(')
        a = [self.expr()]
        while self.peek() == ',':
            self.next()
            a.append(self.expr())
        if left:
            self.next('\\right')
        self.next(')')
        if br:
            self.next('}')
        return a

    def name(self):
        """symbol name of a letter run or greek letter with its subscript"""
        x = self.next()
        n = GREEK.get(x, x)
        if self.peek() == '_':
            self.next()
            if self.peek() == '{':
                self.next()
                sub = ''
                while self.peek() != '}':
                    sub += self.next()
                self.next('}')
            else:
                s = self.next()
                if len(s) > 1 and s[0] != '\\':
                    raise Bad('subscript %s without braces' % s)
                sub = s
            n = n + '_' + sub
        return n

    def base(self):
        p = self.peek()
        if p is None:
            raise Bad('expression ends early')
        if p == '{':
            self.next()
            x = self.expr()
            self.next('}')
            return x
        if p in ('(', '\\left'):
            a = self.args()
            if len(a) != 1:
                raise Bad('tuple')
            return a[0]
        if p[0].isdigit():
            self.next()
            return complex(float(p))
        if p == '\\frac':
            self.next()
            a = self.group()
            b = self.group()
            if b == 0:
                raise Bad('division by zero')
            return a / b
        if p == '\\sqrt':
            self.next()
            if self.peek() == '[':
                self.next()
                k = self.expr()
                self.next(']')
                return self.group() ** (1 / k)
            return cmath.sqrt(self.group())
        if p == '\\pi':
            self.next()
            return complex(math.pi)
        if p[0] == '\\' and (p[1:] in FUN or p == '\\operatorname'):
            self.next()
            f = p[1:]
            if p == '\\operatorname':
                self.next('{')
                f = ''
                while self.peek() != '}':
                    f += self.next()
                self.next('}')
            if self.peek() == '_' and f == 'atan':
                self.next()
                k = self.group()
                if k != 2:
                    raise Bad('atan_%s' % k)
                f = 'atan2'
            power = None
            if self.peek() == '^':
                self.next()
                power = self.group()
            a = self.args()
            if f == 'atan2':
                if len(a) != 2:
                    raise Bad('atan2 with %d arguments' % len(a))
                if any(abs(z.imag) > 1e-9 for z in a):
                    raise ValueError('complex atan2')
                x = complex(math.atan2(a[0].real, a[1].real))
            elif f in FUN and len(a) == 1:
                x = FUN[f](a[0])
            else:
                raise Bad('unknown function %s' % f)
            return x ** power if power is not None else x
        if p.isalpha() or p in GREEK:
            n = self.name()
            if n not in self.v:
                raise Bad('symbol %s is not defined' % n)
            return self.v[n]
        raise Bad('unexpected %s' % p)


def value(s, vals):
    p = P(tokens(s), vals)
    x = p.expr()
    if p.i != len(p.t):
        raise Bad('cannot read from %s on' % ' '.join(p.t[p.i:p.i + 8]))
    return x


def lhs_name(s):
    p = P(tokens(s), {})
    n = p.name()
    if p.i != len(p.t):
        raise Bad('left side %s' % s)
    return n


def strip_verbatim(text):
    return re.sub(r'\\begin\{verbatim\}.*?\\end\{verbatim\}', '', text, flags=re.S)


def well_formed(text):
    """None or what is wrong: environments nest, braces and \\left/\\right balance, no bare _ ^ outside mathematics"""
    if text.count('\\begin{verbatim}') != text.count('\\end{verbatim}'):
        return 'verbatim environments do not balance'
    if text.count('\\begin{document}') != 1 or text.count('\\end{document}') != 1:
        return 'not one document'
    body = strip_verbatim(text)
    body = body[body.index('\\begin{document}'):]
    body = re.sub(r'(?<!\\)%.*', '', body)
    stack = []
    depth = 0
    math_ = 0
    dollar = False
    bracket = False
    doc = False
    for m in re.finditer(r'\\(begin|end)\{(\w+\*?)\}|\\(left|right)\b|\\[\[\]]|\\\\|\\.|[{}$_^&]|\\?[a-zA-Z]+', body):
        t = m.group(0)
        if m.group(1) == 'begin':
            stack.append(m.group(2))
            doc |= m.group(2) == 'document'
            math_ += m.group(2) in ('align', 'dmath', 'equation')
        elif m.group(1) == 'end':
            if not stack or stack.pop() != m.group(2):
                return 'environment %s does not nest' % m.group(2)
            math_ -= m.group(2) in ('align', 'dmath', 'equation')
        elif m.group(3):
            depth += 1 if m.group(3) == 'left' else -1
            if depth < 0:
                return '\\right without \\left'
        elif t == '\\[':
            bracket = True
        elif t == '\\]':
            bracket = False
        elif t == '{':
            stack.append('{')
        elif t == '}':
            if not stack or stack.pop() != '{':
                return 'braces do not balance near %r' % body[max(0, m.start() - 40):m.start() + 20]
        elif t == '$':
            dollar = not dollar
        elif t in ('_', '^') and doc and not (math_ or dollar or bracket):
            return 'bare %s in text near %r' % (t, body[max(0, m.start() - 40):m.start() + 20])
        elif t == '&' and doc and not any(e in ('align', 'matrix', 'tabular') for e in stack):
            return 'bare & near %r' % body[max(0, m.start() - 40):m.start() + 20]
    if stack:
        return 'unclosed %s' % stack
    if dollar:
        return 'unclosed $'
    if depth:
        return '\\left and \\right do not balance'
    return None


def math_envs(text):
    body = strip_verbatim(text)
    return re.findall(r'\\begin\{(align|dmath)\}(.*?)\\end\{\1\}', body, flags=re.S)


def matrices(s):
    """matrices written as \\left[\\begin{matrix} .. \\end{matrix}\\right]: list of rows of strings"""
    out = []
    for m in re.findall(r'\\begin\{matrix\}(.*?)\\end\{matrix\}', s, flags=re.S):
        out.append([[c for c in row.split('&')] for row in m.split('\\\\')])
    return out


def equations(text):
    """(lhs name, rhs text) of every single-symbol equation in the report, in order"""
    out = []
    for env, body in math_envs(text):
        if 'begin{matrix}' in body:
            continue
        for part in body.split('\\\\'):
            if not part.strip():
                raise Bad('empty line in an %s environment' % env)
            a = part.replace('&', ' ') if env == 'align' else part
            if a.count('=') != 1:
                raise Bad('no equation: %r' % part[:60])
            l, r = a.split('=')
            out.append((lhs_name(l), r))
    return out

"""Random TOML documents: valid ones in many layouts, and damaged ones."""
WORDS = ['a', 'b', 'key', 'K_1', 'x-y', '1', '3d', 'true', 'inf', 'servers', 'alpha', '-', '_', 'A' * 30]
QK = ['', 'a b', 'a.b', 'é', '日本', 'k"q', "k'q", '#', '[x]', '=', 'tab\there', 'a\\b', 'nl\nx', '\u0001', '/' * 25, 'a', 'key']
TEXTS = ['', 'x', 'hello world', 'a"b', "it's", 'back\\slash', 'tab\t.', 'new\nline', 'é', '日本語', '\U0001F600', '# no comment', '[not] = a, {table}', 'x' * 22, 'y' * 23, 'z' * 190, 'w' * 230,
         'cr\r.', '\b\f', '\u007f', '\u0001', ' lead', 'trail ', '""', "''", '"""', 'é' * 101, 'C:\\Users\\new']

def esc(s, rng, hexes):
    o = ''
    m = {'\b': '\\b', '\t': '\\t', '\n': '\\n', '\f': '\\f', '\r': '\\r', '"': '\\"', '\\': '\\\\'}
    for c in s:
        if c == '\t' and rng.random() < .5: o += c
        elif c in m and not (hexes and rng.random() < .3): o += m[c]
        elif ord(c) < 32 or ord(c) == 127 or c in m or (hexes and rng.random() < .2):
            o += '\\u%04x' % ord(c) if ord(c) < 65536 and rng.random() < .7 else '\\U%08X' % ord(c)
        else: o += c
    return '"' + o + '"'

class Gen:
    def __init__(self, rng): self.r = rng
    def ws(self):
        r = self.r
        return r.choice(['', '', '', ' ', ' ', '  ', '\t', ' \t '])
    def nl(self): return self.eol
    def comment(self):
        r = self.r
        return '#' + r.choice(['', ' comment', ' [a]', ' x = 1', '"', ' é', '#', 'c' * 30, 'c' * 199, 'd' * 210])
    def gap(self):
        """inside arrays"""
        r = self.r; o = self.ws()
        while r.random() < .15: o += (self.comment() if r.random() < .4 else '') + self.nl() + self.ws()
        return o
    def key(self):
        r = self.r
        if r.random() < .7: return r.choice(WORDS)
        k = r.choice(QK)
        if r.random() < .4 and "'" not in k and all(ord(c) >= 32 and ord(c) != 127 or c == '\t' for c in k): return "'" + k + "'"
        return esc(k, r, True)
    def integer(self):
        r = self.r
        v = r.choice(['0', '1', '7', '10', '42', '99', '1_000', '1_2_3', '123456789', '2147483648', '9223372036854775807', '9_223_372_036_854_775_807', str(r.randrange(10 ** r.randrange(1, 19)))])
        return r.choice(['', '', '', '+', '-']) + v if v != '0' or r.random() < .5 else v
    def float(self):
        r = self.r
        if r.random() < .08: return r.choice(['', '+', '-']) + r.choice(['inf', 'nan'])
        i = r.choice(['0', '1', '3', '12', '6_0', '987654321', '9007199254740993', str(r.randrange(10 ** 15)), str(r.randrange(10 ** 15))])
        f = '.' + r.choice(['0', '5', '1', '25', '14159', '0001', '1_2', '000000000000000000001', str(r.randrange(10 ** 17)), '30000000000000004'])
        e = r.choice(['e', 'E']) + r.choice(['', '+', '-']) + r.choice(['0', '1', '2', '5', '10', '22', '23', '100', '300', '1_0', str(r.randrange(1, 290))])
        k = r.random()
        return r.choice(['', '', '+', '-']) + i + (f if k < .6 else e if k < .8 else f + e)
    def string(self):
        r = self.r; s = r.choice(TEXTS)
        if r.random() < .3: s = ''.join(r.choice(['a', ' ', '"', '\\', '#', 'é', "'", ']', '=', '\n', '\u20ac']) for _ in range(r.randrange(30)))
        if r.random() < .35 and "'" not in s and all(ord(c) >= 32 and ord(c) != 127 or c == '\t' for c in s): return "'" + s + "'"
        return esc(s, r, r.random() < .3)
    def value(self, depth=0, kind=None):
        r = self.r
        kind = kind or r.choice(['int', 'int', 'flt', 'flt', 'str', 'str', 'bool'] + (['arr', 'arr', 'tab'] if depth < 3 else []))
        if kind == 'int': return self.integer()
        if kind == 'flt': return self.float()
        if kind == 'str': return self.string()
        if kind == 'bool': return r.choice(['true', 'false'])
        if kind == 'arr':
            k = r.choice(['int', 'flt', 'str', 'bool', 'arr', 'arr', 'tab'] if depth < 3 else ['int', 'flt', 'str', 'bool'])
            n = r.choice([0, 1, 1, 2, 3, 5]); o = '[' + self.gap()
            for i in range(n):
                o += self.value(depth + 1, k) + self.gap() + (',' + self.gap() if i + 1 < n or r.random() < .2 else '')
            return o + ']'
        n = r.choice([0, 1, 2, 3]); o = '{' + self.ws(); seen = set()
        ks = []
        for i in range(n):
            k = self.key()
            if k.strip('"\'') not in seen: ks.append(k); seen.add(k.strip('"\''))
        o += ','.join(self.ws() + k + self.ws() + '=' + self.ws() + self.value(depth + 1) + self.ws() for k in ks)
        return o + '}'
    def doc(self, n=None):
        r = self.r; self.eol = r.choice(['\n', '\n', '\r\n'])
        o = ''; n = r.choice([0, 1, 2, 3, 5, 8]) if n is None else n
        names = [r.choice(WORDS) for _ in range(3)]
        used = set(); cur = ''
        for i in range(n):
            while r.random() < .2: o += self.ws() + (self.comment() if r.random() < .5 else '') + self.nl()
            if r.random() < .3:
                p = [r.choice(names) if r.random() < .8 else self.key() for _ in range(r.choice([1, 1, 2, 3]))]
                a = r.random() < .35; h = '.'.join(self.ws() + k + self.ws() for k in p)
                o += self.ws() + ('[[' + h + ']]' if a else '[' + h + ']')
                cur = (i if a else '') , tuple(p)
            else:
                k = self.key()
                if (cur, k.strip('"\'')) in used and r.random() < .9: k = 'u%d' % i
                used.add((cur, k.strip('"\'')))
                o += self.ws() + k + self.ws() + '=' + self.ws() + self.value()
            o += self.ws() + (self.comment() if r.random() < .2 else '')
            o += '' if i + 1 == n and r.random() < .3 else self.nl()
        return list(o.encode('utf-8'))
    def damage(self, b):
        r = self.r; b = list(b)
        chars = [ord(c) for c in '[]{}=,.#"\'\\ \t\n\r_+-0129eEtfinau:x'] + [0xc3, 0xff, 0x80, 1, 0]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random(); p = r.randrange(len(b) + 1)
            if k < .35 and b: del b[min(p, len(b) - 1)]
            elif k < .7: b.insert(p, r.choice(chars))
            elif k < .85 and b: b[min(p, len(b) - 1)] = r.choice(chars)
            elif k < .93: b = b[:p]
            elif b: q = r.randrange(len(b) + 1); b = b[:p] + b[min(p, q):q] + b[p:]
        return b

# the small things, one by one: right sides of "a = ", whole documents
VALUES = '''0 +0 -0 00 01 +01 1 1_0 1__0 _1 1_ 1_.5 1._5 1.5_ 1.5_0 1_0.5 1e5 1e+5 1E-5 1e1_0 1e_1 1e1_ 1e 1e+ 1. .5 -.5 +.5 1.e5 1.5e3 1.5e03 0.0 -0.0 0e0 0e5 00.5 01.5 0.5e-1 -1 - + +-1 --1
0x10 0o7 0b1 1a 1.5a 0a 1-2 1979-05-27 1979-05-27T07:32:00Z 12:30 inf +inf -inf nan +nan -nan infx Inf NaN infinity
9223372036854775807 -9223372036854775808 9223372036854775808 -9223372036854775809 99999999999999999999 18446744073709551616 1e400 -1e400 1e-400 4.9e-324 2.4e-324 2.5e-324 1.7976931348623157e308 1.7976931348623159e308 2.2250738585072014e-308 2.2250738585072011e-308
9007199254740993.0 9007199254740992.5 0.1 0.3 123456789012345678901234567890.0 0.000000000000000000000000000000000000000000123e10 1e23 8.5e22 5e-324 3.141592653589793238462643383279
true false tru truE True trueX falsey fals t f [] [ ] [,] [1] [1,] [1,,] [,1] [1 [1,2 [1}] [1;2] [1,2]] [[1],[2]] [[1],2] [[],[1]] [[],["a"]] [1,2.5] [1,"a"] [1.5,2e3,1e3] [1e3] [1e3,2.0] [inf,1.0] [nan,1] [true,false] [true,1] ["a,b","c]d"] ["a]","b"] ['a#b','c'] [0] [0,1] [1,0] [0] [-0] [00] [0e1,1.0]
[[1,2],["a"]] [[[[1]]]] [{}] [{},{}] [{a=1},{b=2}] [{a=1},2] [{a=[1,2]},{a=[]}] [{a=1},[1]] {} {a=1} {a=1,} {,} {a=1,b=2} {a=1,a=2} {a=1b=2} {a=1 {a=1] {a} {=1} {a=} {"a"=1,'b'=2} {a={b={c=1}}} {a=[1,2],b="}"} {a=0} {a=0,b=0} {a=1.5e3} {a.b=1}
"" '' "a" 'a' "a 'a "a' 'a" "\\" "\\\\" "\\"" "\\x" "\\u00e9" "\\u20AC" "\\U0001F600" "\\ud800" "\\U00110000" "\\uD83D\\uDE00" "\\u12" "\\u12g4" "\\U0001F60" "\\u0000" "\\e" "\\/" "\\ " '\\' '\\n' '\\'' """a""" \'\'\'a\'\'\' "a"b "a""b" 'a'b "a"# "a"#x abc "é" 'é' "\\b\\t\\n\\f\\r" é'''.split()
DOCS = ['', '\n', '\r\n', ' ', '#', '# c', '#\n#', 'a', 'a\n', 'a=', 'a=\n', 'a =', '=1', '= 1\n', 'a=1', 'a=1\n', 'a=1\r\n', 'a=1\r', 'a=1 b=2', 'a=1#', 'a=1 # c\n', 'a=1\na=2', 'a=1\nb=2', 'a=1\n"a"=2', "a=1\n'a'=2", '"a"=1', "'a'=1",
        "'a =1", '"a =1', "'a'b=1", '"a"b=1', 'a b=1', 'a\tb=1', ' a = 1 ', '\ta\t=\t1\t', 'a.b=1', 'a..b=1', '.a=1', 'é=1', 'a!=1', 'a:1', 'a=1,', 'a==1', 'a#b=1', '#a=1', '[a]', '[a]\n', '[a]\r\nb=1\r\n', '[a] # c\n', '[a]#c', '[a]x', '[a] x\n', '[a', '[a\n', '[a.', '[a.]', '[.a]', '[a..b]', '[]', '[ ]', '[ a ]', '[ a . b ]\nc=1', '[a.b]', '[a b]',
        '["a"]', "['a']", '["a.b".c]\nd=1', "['a'.b]", '["a"b]', '[a]]', '[[a]', '[[a]]', '[[a]]\n', '[[a]] x', '[[a]]]', '[[]]', '[[a.b]]\nc=1', '[[ a ]]', '[ [a]]', '[[a] ]', '[[a.]]', '[[a', '[[a]\n]', '[', '[[', '[#]', '[a#]', '[a]\n[a]', '[a]\nb=1\n[a]', '[a.b]\n[a]', '[a.b]\n[a]\n[a]', '[a]\n[a.b]', '[a]\nb=1\n[a.b]', '[a]\nb={}\n[a.b]',
        'a=1\n[a]', 'a={}\n[a]', 'a={}\n[a.b]', 'a=[]\n[a]', 'a=[]\n[[a]]', 'a=[{}]\n[[a]]', 'a=[{}]\n[a.b]', '[[a]]\n[[a]]', '[[a]]\nb=1\n[[a]]\nb=2\n', '[[a]]\n[a]', '[a]\n[[a]]', '[[a]]\n[a.b]\nc=1\n[[a]]\n[a.b]\nc=2', '[[a.b]]\n[a]\nc=1', '[a]\n[[a.b]]\nc=1\n[[a.b]]\nc=2', '[[a]]\n[[a.b]]\n[[a.b]]\n[[a]]\n[[a.b]]', '[a.b.c]\n[a.b]\n[a]', '[a.b]\n[a.c]\n[a.b]', '[[a.b]]\n[a.b]', '[a.b]\n[[a.b]]', '[a.b]\n[[a]]',
        'a=[1,\n2]', 'a=[\n1\n,\n2\n]', 'a=[\n# c ]\n1, # x\n2 # y\n]\nb=1', 'a=[[1,\n2],\n[3]]', 'a=[[1],\n\n[2]\n,\n]', 'a=[\n\n]', 'a=[\n[\n]\n]', 'a=[1\n', 'a=[1,\n', 'a=[\n', 'a=[1\nb=2]', 'a={b=[1,\n2]}', 'a={\n}', 'a={b=1,\nc=2}', 'a={b=1\n}', 'a="x\ny"', "a='x\ny'", 'a="x\r\ny"', '\n\n[a]\n\n\nb = 1\n\n', 'a=[1,2]\nb=[3]\n[c]\nd=4', 'a=[1,2] x', 'a=[1,2]#x\nb=1', 'a="x" y', 'a={} y', 'a=true y', 'a=true#y', 'a=truefalse', 'a=1\n[b]\nc=2\n[d]\nc=3\n', 'a = [ "x", # y\n "z" ]', 'a=[ "]", "[" ]', "a=[ '#', ',' ]",
        'a = ' + '[' * 30 + ']' * 30, 'a = ' + '[' * 30 + '1' + ']' * 29, 'a=1' + ' ' * 220 + '# x\nb=2', 'k' * 250 + ' = 1', 'a = "' + 'x' * 400 + '"\nb = 1', 'a = [' + '1,' * 150 + '1]', '#' + 'c' * 450 + '\na=1', '#' + 'c' * 198 + '\na=1', '#' + 'c' * 199 + '\na=1', '#' + 'c' * 200 + '\na=1', 'a' * 195 + '=1\n', 'a' * 198 + '=1\n', 'a' * 199 + '=1\n', 'a=1' + ' ' * 196 + '\nb=1', 'a=1' + ' ' * 197 + '\nb=1', 'a=1' + ' ' * 198 + '\nb=1']

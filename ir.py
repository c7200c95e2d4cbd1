"""Symbolic execution of LLVM IR (as rustc emits it) over the reals, decided by z3.

What it encodes: functions of numbers, such as the parametric curves. Doubles are real numbers, so rounding, overflow,
NaN and signed zeros are outside; pow, exp and the logarithms are uninterpreted functions with a few axioms; integers are
bit vectors. Every path of the function is followed. Anything else in the IR raises NotEncodable.
"""
import itertools, re, struct, time
from fractions import Fraction
import z3


class NotEncodable(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------ parsing

class Function:
    def __init__(self, name, ret, args):
        self.name, self.ret, self.args = name, ret, args  # args: [(type, name)]
        self.blocks, self.entry = {}, None


def split_args(s):
    """Splits at the commas outside of brackets and quotes"""
    out, depth, cur, quoted = [], 0, "", False
    for ch in s:
        if ch == '"':
            quoted = not quoted
        if not quoted:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def closing(s, at):
    """Place of the bracket which closes the one at `at`"""
    depth, quoted = 0, False
    for i in range(at, len(s)):
        if s[i] == '"':
            quoted = not quoted
        elif quoted:
            continue
        elif s[i] in "([{":
            depth += 1
        elif s[i] in ")]}":
            depth -= 1
            if depth == 0:
                return i
    raise NotEncodable("brackets: " + s)


NAME = r'[%@](?:"[^"]*"|[-\w.$]+)'


def parse_type(s):
    """-> (type, rest)"""
    s = s.strip()
    if s[0] in "[{<":
        e = closing(s.replace("<", "{").replace(">", "}") if s[0] == "<" else s, 0)
        return s[:e + 1], s[e + 1:].strip()
    m = re.match(r"[\w.]+", s)
    return m.group(0), s[m.end():].strip()


def parse_value(s):
    """'double noundef %x' -> ('double', '%x')"""
    t, rest = parse_type(s)
    m = re.search(r"getelementptr\b.*$|(%s|\S+)$" % NAME, rest)
    return t, (m.group(0) if m else "")


class Module:
    def __init__(self, text):
        self.functions, self.constants = {}, {}
        cur = block = None
        self.text = text
        for line in text.split("\n"):
            if line.startswith("define "):
                m = re.search(r"(@(?:\"[^\"]*\"|[-\w.$]+))\(", line)
                e = closing(line, m.end() - 1)
                head = line[7:m.start()]
                ret = re.search(r"(void|double|float|i\d+|ptr|[\[{<].*[\]}>])\s*$", head.strip())
                args = []
                for a in split_args(line[m.end():e]):
                    args.append(parse_value(a) if a != "..." else ("...", ""))
                cur = Function(m.group(1), ret.group(1) if ret else "?", args)
                self.functions[cur.name] = cur
                block = None
            elif cur is not None:
                if line.startswith("}"):
                    cur = None
                    continue
                code = line.split(";")[0] if '"' not in line else line
                m = re.match(r'("[^"]*"|[-\w.$]+):', code)
                if m:
                    block = m.group(1).strip('"')
                    cur.blocks[block] = []
                    if cur.entry is None:
                        cur.entry = block
                elif code.strip():
                    if block is None:
                        block = cur.entry = "0"
                        cur.blocks[block] = []
                    s = code.strip()
                    b = cur.blocks[block]
                    if b and b[-1].startswith("switch") and "]" not in b[-1]:
                        b[-1] += " " + s
                    elif b and b[-1].startswith(("%", "invoke")) and " invoke " in " " + b[-1] and s.startswith("to label"):
                        b[-1] += " " + s
                    else:
                        b.append(s)


    def constant(self, name):
        if name not in self.constants:
            m = re.search(r"^%s = (?:[-\w()]+ )*constant (.*)$" % re.escape(name), self.text, re.M)
            if not m:
                raise NotEncodable("not a constant: " + name)
            t, rest = parse_type(m.group(1))
            self.constants[name] = Constant(t, split_args(rest)[0])
        return self.constants[name]


# ------------------------------------------------------------------------------------------------------------- values

class Algebra:
    """Polynomials over atoms: the inputs, quotients and applications of uninterpreted functions"""

    def __init__(self):
        self.atoms = []       # z3 variables
        self.facts = {}       # atom -> [z3 constraints which define it]
        self.apps = []        # (function, (args), atom)
        self.quotients = {}   # (num, den) -> atom
        self.names = {}

    def atom(self, name):
        self.atoms.append(z3.Real(name))
        self.facts[len(self.atoms) - 1] = []
        return len(self.atoms) - 1

    def input(self, name):
        if name not in self.names:
            self.names[name] = self.atom(name)
        return self.poly(self.names[name])

    @staticmethod
    def poly(atom):
        return {((atom, 1),): Fraction(1)}

    @staticmethod
    def const(c):
        return {(): Fraction(c)} if c else {}

    @staticmethod
    def is_const(p):
        return not p or (len(p) == 1 and () in p)

    @staticmethod
    def value(p):
        return p.get((), Fraction(0))

    @staticmethod
    def add(p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mul(p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for a, k in n:
                    e[a] = e.get(a, 0) + k
                key = tuple(sorted(e.items()))
                v = r.get(key, 0) + c * d
                if v:
                    r[key] = v
                else:
                    r.pop(key, None)
        return r

    def div(self, p, q):
        if self.is_const(q) and q:
            return self.mul(p, self.const(1 / self.value(q)))
        if not p:
            return {}
        if not q:
            raise NotEncodable("division by the constant zero")
        # up to constant factors
        kp, kq = p[min(p)], q[min(q)]
        n, d = self.mul(p, self.const(1 / kp)), self.mul(q, self.const(1 / kq))
        if n == d:
            return self.const(kp / kq)
        key = (frozenset(n.items()), frozenset(d.items()))
        if key not in self.quotients:
            a = self.atom("q%d" % len(self.quotients))
            self.facts[a] = [self.atoms[a] * self.z3(d) == self.z3(n), self.z3(d) != 0] + self.needs(n) + self.needs(d)
            self.quotients[key] = a
        return self.mul(self.poly(self.quotients[key]), self.const(kp / kq))

    def apply(self, f, *args):
        for g, other, a in self.apps:
            if g == f and other == args:
                return self.poly(a)
        a = self.atom("%s%d" % (f, len(self.apps)))
        v = self.atoms[a]
        z = [self.z3(x) for x in args]
        facts = [x for p in args for x in self.needs(p)]
        if f == "pow":
            x, y = z
            facts += [z3.Implies(x > 0, v > 0), z3.Implies(x >= 0, v >= 0), z3.Implies(y == 1, v == x),
                      z3.Implies(y == 0, v == 1), z3.Implies(x == 1, v == 1),
                      z3.Implies(z3.And(x == 0, y > 0), v == 0)]
        elif f == "exp":
            facts += [v > 0, z3.Implies(z[0] == 0, v == 1)]
        elif f in ("ln", "log10"):
            facts += [z3.Implies(z[0] == 1, v == 0), z3.Implies(z[0] > 1, v > 0),
                      z3.Implies(z3.And(z[0] > 0, z[0] < 1), v < 0)]
        # equal arguments, equal values
        for g, other, b in self.apps:
            if g == f:
                facts.append(z3.Implies(z3.And([self.z3(p) == self.z3(q) for p, q in zip(args, other)]),
                                        v == self.atoms[b]))
        self.facts[a] = facts
        self.apps.append((f, args, a))
        return self.poly(a)

    def needs(self, p):
        out = []
        for m in p:
            for a, _ in m:
                out += self.facts[a]
        return out

    def z3(self, p):
        total = z3.RealVal(0)
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for a, k in m:
                for _ in range(k):
                    t = t * self.atoms[a]
            total = total + t
        return z3.simplify(total)


class Pointer:
    """Into an object: Params, a Local, or the name of a global"""

    def __init__(self, obj, offset):
        self.obj, self.offset = obj, offset

    def same(self, other):
        return self.obj is other.obj or (isinstance(self.obj, str) and self.obj == other.obj)


class Bits:
    """A double which is held as an integer"""

    def __init__(self, value):
        self.value = value


class Params:
    """An array of doubles: reading place i gives input p<i>"""


class Local:
    """A stack slot"""


CMP = {"eq": lambda a: a == 0, "ne": lambda a: a != 0, "lt": lambda a: a < 0, "le": lambda a: a <= 0,
       "gt": lambda a: a > 0, "ge": lambda a: a >= 0}
INT = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT,
       "uge": z3.UGE, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b,
       "sge": lambda a, b: a >= b}


class Path:
    def __init__(self, conds, value, kind, mem=None):
        self.conds, self.value, self.kind, self.mem = conds, value, kind, mem  # kind: return or panic


class Executor:
    def __init__(self, module, algebra, max_steps=20000, max_paths=4000):
        self.m, self.a = module, algebra
        self.max_steps, self.max_paths = max_steps, max_paths
        self.functions, self.steps, self.queries, self.time = set(), 0, 0, 0.0

    def feasible(self, conds):
        """Prunes by what is known of the integers (and constants) only; real conditions are left to the end"""
        ints = [c for c in conds if not _has_real(c)]
        if not ints:
            return True
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(ints)
        t = time.time()
        r = s.check()
        self.time += time.time() - t
        self.queries += 1
        return r != z3.unsat

    def run(self, name, args, conds=()):
        self.paths = 0
        return list(self.call(name, args, list(conds), {}, 0))

    def call(self, name, args, conds, mem, depth):
        """Yields the paths through a function"""
        if depth > 20:
            raise NotEncodable("recursion in " + name)
        f = self.m.functions[name]
        self.functions.add(name)
        env = {n: v for (t, n), v in zip(f.args, args)}
        work = [(f.entry, None, 0, env, conds, mem)]
        while work:
            block, prev, at, env, conds, mem = work.pop()
            for out in self.block(f, block, prev, at, dict(env), list(conds), mem, depth):
                if isinstance(out, Path):
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise NotEncodable("more than %d paths" % self.max_paths)
                    yield out
                else:
                    work.append(out)

    # operands
    def val(self, t, s, env):
        if s.startswith("%"):
            if s not in env:
                raise NotEncodable("undefined " + s)
            return env[s]
        if t == "double":
            if s.startswith("0x"):
                x = struct.unpack(">d", bytes.fromhex(s[2:]))[0]
            elif s in ("poison", "undef"):
                return self.a.input("undef")
            else:
                x = float(s)
            if x != x or x in (float("inf"), float("-inf")):
                return self.a.input("nonfinite_%s" % x)
            return self.a.const(Fraction(x))
        if t == "i1":
            return z3.BoolVal(s in ("true", "1", "-1"))
        if re.match(r"i\d+$", t):
            return z3.BitVecVal(int(s) if s not in ("poison", "undef") else 0, int(t[1:]))
        if t == "ptr":
            if s.startswith("getelementptr"):
                inner = s[s.index("(") + 1:closing(s, s.index("("))]
                return self.element(split_args(inner), env)
            return Pointer(s, 0)
        if t[0] in "{[" and s in ("poison", "undef", "zeroinitializer"):
            return Aggregate()
        raise NotEncodable("operand %s %s" % (t, s))

    def element(self, parts, env):
        """What getelementptr gives; an index which is not constant is in the way"""
        base = self.val(*parse_value(parts[1]), env)
        t, off = parts[0], base.offset
        for k, idx in enumerate(parts[2:]):
            i = self.val(*parse_value(idx), env)
            i = z3.simplify(i)
            if not z3.is_bv_value(i):
                raise Symbolic(i, "index: " + ", ".join(parts))
            i = i.as_signed_long()
            if k == 0:
                off += i * sizeof(t)
                continue
            m = re.match(r"\[(\d+) x (.*)\]$", t)
            if m:
                t = m.group(2)
                off += i * sizeof(t)
            else:
                fields = layout(t)
                off += fields[i][0]
                t = fields[i][1]
        return Pointer(base.obj, off)

    # memory: (object, offset) -> (type, value)
    def load(self, mem, t, p):
        a = self.a
        if isinstance(p.obj, Params):
            if t in ("double", "i64") and p.offset % 8 == 0 and p.offset >= 0:
                x = a.input("p%d" % (p.offset // 8))
                return x if t == "double" else Bits(x)
            raise NotEncodable("load of a part of a parameter")
        if isinstance(p.obj, Local):
            cell = mem.get((id(p.obj), p.offset))
            if cell is None:
                raise NotEncodable("load of what was not stored: %s" % t)
            u, v = cell
            if u == t and not (t == "i64" and isinstance(v, Bits)):
                return v
            if t == "double" and isinstance(v, Bits):
                return v.value
            if t == "i64" and u == "double":
                return Bits(v)
            if u == t:
                return v
            raise NotEncodable("load of %s where %s was stored" % (t, u))
        return self.m.constant(p.obj).read(t, p.offset, a)

    def store(self, mem, t, p, v):
        if not isinstance(p.obj, Local):
            raise NotEncodable("store to what is not a local")
        n = sizeof(t)
        mem = {k: c for k, c in mem.items() if not (k[0] == id(p.obj) and k[1] < p.offset + n and
                                                    p.offset < k[1] + sizeof(c[0]))}
        mem[id(p.obj), p.offset] = (t, v)
        return mem

    def copy(self, mem, to, of, n):
        if isinstance(of.obj, Local):
            cells = [(k[1] - of.offset, c) for k, c in mem.items()
                     if k[0] == id(of.obj) and k[1] >= of.offset and k[1] + sizeof(c[0]) <= of.offset + n]
        elif isinstance(of.obj, Params):
            if n % 8:
                raise NotEncodable("copy of parts of parameters")
            cells = [(k, ("double", self.load(mem, "double", Pointer(of.obj, of.offset + k)))) for k in range(0, n, 8)]
        else:
            cells = self.m.constant(of.obj).cells(of.offset, n, self.a)
        if not isinstance(to.obj, Local):
            raise NotEncodable("copy to what is not a local")
        mem = {k: c for k, c in mem.items() if not (k[0] == id(to.obj) and k[1] < to.offset + n and
                                                    to.offset < k[1] + sizeof(c[0]))}
        for k, c in cells:
            mem[id(to.obj), to.offset + k] = c
        return mem

    def address(self, p):
        """As an integer: of an unknown base"""
        key = p.obj if isinstance(p.obj, str) else id(p.obj)
        if key == "null":
            return z3.BitVecVal(p.offset, 64)
        return z3.BitVec("base %s" % key, 64) + p.offset

    def compare(self, pred, p, q):
        """-> z3 condition"""
        d = self.a.add(p, q, -1)
        op = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ult": "lt", "ole": "le", "ule": "le",
              "ogt": "gt", "ugt": "gt", "oge": "ge", "uge": "ge"}.get(pred)
        if pred in ("ord", "true"):
            return z3.BoolVal(True), []
        if pred in ("uno", "false"):
            return z3.BoolVal(False), []
        if self.a.is_const(d):
            return z3.BoolVal(bool(CMP[op](self.a.value(d)))), []
        return CMP[op](self.a.z3(d)), self.a.needs(d)

    def fork(self, cond, conds):
        """-> [(truth, conditions)]"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(True, conds)]
        if z3.is_false(cond):
            return [(False, conds)]
        out = []
        for truth, c in ((True, cond), (False, z3.simplify(z3.Not(cond)))):
            neg = z3.simplify(z3.Not(c))
            if any(neg.eq(k) for k in conds):
                continue
            new = conds if any(c.eq(k) for k in conds) else conds + [c]
            if new is conds or self.feasible(new):
                out.append((truth, new))
        return out

    def block(self, f, block, prev, at, env, conds, mem, depth):
        code = f.blocks[block]
        # the phis take their values at once
        if at == 0:
            news = {}
            while at < len(code) and " = phi " in code[at]:
                m = re.match(r"(%s) = phi (?:\w+ )*?(double|ptr|i\d+|\{.*?\}) (\[.*)" % NAME, code[at])
                if not m:
                    raise NotEncodable(code[at])
                for v, b in re.findall(r"\[ (.*?), %(\"[^\"]*\"|[-\w.$]+) \]", m.group(3)):
                    if b.strip('"') == prev:
                        news[m.group(1)] = self.val(m.group(2), v, env)
                        break
                else:
                    raise NotEncodable("no value for the predecessor: " + code[at])
                at += 1
            env.update(news)
        a = self.a
        while at < len(code):
            s = code[at]
            at += 1
            self.steps += 1
            if self.steps > self.max_steps:
                raise NotEncodable("more than %d steps" % self.max_steps)
            s = re.sub(r", ![\w.]+ ![\w.]+|, ![\w.]+$", "", s)
            s = re.sub(r",? #\d+$", "", s)
            m = re.match(r"(%s) = (.*)" % NAME, s)
            dst, op = (m.group(1), m.group(2)) if m else (None, s)
            word = op.split()[0]
            if word in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
                rest = re.sub(r"^f\w+ (?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*", "", op)
                t, rest = parse_type(rest)
                if t != "double":
                    raise NotEncodable(s)
                v = [self.val(t, x, env) for x in split_args(rest)]
                if word == "fneg":
                    env[dst] = a.mul(v[0], a.const(-1))
                elif word == "fadd":
                    env[dst] = a.add(v[0], v[1])
                elif word == "fsub":
                    env[dst] = a.add(v[0], v[1], -1)
                elif word == "fmul":
                    env[dst] = a.mul(v[0], v[1])
                else:
                    env[dst] = a.div(v[0], v[1])
            elif word == "fcmp":
                m = re.match(r"fcmp (?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*(\w+) double (.*)", op)
                if not m:
                    raise NotEncodable(s)
                x, y = [self.val("double", v, env) for v in split_args(m.group(2))]
                env[dst], needs = self.compare(m.group(1), x, y)
                conds = conds + [n for n in needs if not any(n.eq(c) for c in conds)]
            elif word == "icmp":
                m = re.match(r"icmp (?:samesign )?(\w+) (i\d+|ptr) (.*)", op)
                if not m:
                    raise NotEncodable(s)
                x, y = [self.val(m.group(2), v, env) for v in split_args(m.group(3))]
                if m.group(2) == "ptr":
                    if x.same(y):
                        c = z3.BoolVal({"eq": x.offset == y.offset, "ne": x.offset != y.offset,
                                        "ult": x.offset < y.offset, "ule": x.offset <= y.offset,
                                        "ugt": x.offset > y.offset, "uge": x.offset >= y.offset}[m.group(1)])
                    elif m.group(1) in ("eq", "ne"):
                        c = z3.BoolVal(m.group(1) == "ne")
                    else:
                        raise NotEncodable(s)
                elif m.group(2) == "i1":
                    c = {"eq": x == y, "ne": x != y}.get(m.group(1))
                    if c is None:
                        raise NotEncodable(s)
                else:
                    c = INT[m.group(1)](x, y)
                env[dst] = z3.simplify(c)
            elif word in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
                m = re.match(r"\w+ (?:(?:nuw|nsw|exact|disjoint) )*(i\d+) (.*)", op)
                if not m:
                    raise NotEncodable(s)
                x, y = [self.val(m.group(1), v, env) for v in split_args(m.group(2))]
                if m.group(1) == "i1":
                    r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[word](x, y)
                else:
                    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
                         "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
                         "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y),
                         "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[word]()
                env[dst] = z3.simplify(r)
            elif word in ("zext", "sext", "trunc"):
                m = re.match(r"\w+ (?:(?:nneg|nuw|nsw) )*(i\d+) (\S+) to (i\d+)", op)
                x = self.val(m.group(1), m.group(2), env)
                n = int(m.group(3)[1:])
                if m.group(1) == "i1":
                    one = z3.BitVecVal(1 if word == "zext" else -1, n)
                    r = z3.If(x, one, z3.BitVecVal(0, n))
                elif m.group(3) == "i1":
                    r = z3.Extract(0, 0, x) == 1
                elif word == "zext":
                    r = z3.ZeroExt(n - x.size(), x)
                elif word == "sext":
                    r = z3.SignExt(n - x.size(), x)
                else:
                    r = z3.Extract(n - 1, 0, x)
                env[dst] = z3.simplify(r)
            elif word in ("fptrunc", "fpext"):
                m = re.match(r"\w+ (?:\w+ )*?(float|double) (\S+) to (float|double)", op)
                x = self.val("double", m.group(2), env)
                # to single precision and back is not the identity
                env[dst] = a.apply("single", x) if word == "fptrunc" else x
            elif word in ("sitofp", "uitofp"):
                m = re.match(r"\w+ (?:nneg )?(i\d+) (\S+) to double", op)
                x = z3.simplify(self.val(m.group(1), m.group(2), env)) if m else None
                if x is None or not z3.is_bv_value(x):
                    raise NotEncodable(s)
                env[dst] = a.const(x.as_signed_long() if word == "sitofp" else x.as_long())
            elif word == "select":
                parts = split_args(re.sub(r"^select (?:(?:nnan|ninf|nsz|fast) )*", "", op))
                (t0, c), (t1, x), (t2, y) = [parse_value(p) for p in parts]
                c, x, y = self.val("i1", c, env), self.val(t1, x, env), self.val(t2, y, env)
                if t1 == "i1":
                    env[dst] = z3.simplify(z3.If(c, x, y))
                elif re.match(r"i\d+$", t1):
                    env[dst] = z3.simplify(z3.If(c, x, y))
                else:
                    forks = self.fork(c, conds)
                    for truth, cs in forks:
                        e = dict(env)
                        e[dst] = x if truth else y
                        yield (block, prev, at, e, cs, mem)
                    return
            elif word == "extractvalue":
                t, rest = parse_type(op[13:])
                v, *path = split_args(rest)
                v = env[v]
                for k in path:
                    v = v[int(k)]
                env[dst] = v
            elif word == "insertvalue":
                parts = split_args(op[12:])
                agg = self.val(*parse_value(parts[0]), env)
                v = self.val(*parse_value(parts[1]), env)
                if len(parts) != 3:
                    raise NotEncodable(s)
                env[dst] = Aggregate(agg)
                env[dst][int(parts[2])] = v
            elif word == "freeze":
                t, v = parse_value(op[7:])
                env[dst] = self.val(t, v, env)
            elif word in ("ptrtoint", "ptrtoaddr"):
                m = re.match(r"\w+ ptr (.*) to i64", op)
                env[dst] = self.address(self.val("ptr", m.group(1), env))
            elif word == "bitcast":
                m = re.match(r"bitcast (double|i64) (\S+) to (double|i64)", op)
                if not m:
                    raise NotEncodable(s)
                x = self.val(m.group(1), m.group(2), env)
                if m.group(1) == "double":
                    env[dst] = Bits(x)
                elif isinstance(x, Bits):
                    env[dst] = x.value
                else:
                    raise NotEncodable(s)
            elif word == "getelementptr":
                m = re.match(r"getelementptr (?:(?:inbounds|nuw|nusw) )*(.*)", op)
                try:
                    env[dst] = self.element(split_args(m.group(1)), env)
                except Symbolic as e:
                    # each value there can be
                    name = re.search(r"(%s)" % NAME, split_args(m.group(1))[-1])
                    if not name or not z3.eq(env[name.group(1)], e.index):
                        raise
                    for value, cs in self.values(e.index, conds, s):
                        ee = dict(env)
                        ee[name.group(1)] = value
                        yield (block, prev, at - 1, ee, cs, mem)
                    return
            elif word == "load":
                m = re.match(r"load (double|i\d+|ptr), ptr (.*?)(?:, align \d+)?$", op)
                if not m:
                    raise NotEncodable(s)
                env[dst] = self.load(mem, m.group(1), self.val(*parse_value("ptr " + m.group(2)), env))
            elif word == "store":
                parts = split_args(op[6:])
                t, v = parse_value(parts[0])
                mem = self.store(mem, t, self.val(*parse_value(parts[1]), env), self.val(t, v, env))
            elif word == "alloca":
                env[dst] = Pointer(Local(), 0)
                self.keep = getattr(self, "keep", []) + [env[dst].obj]
            elif word in ("call", "tail", "musttail", "notail", "invoke"):
                r = yield from self.do_call(f, s, op, dst, env, conds, mem, depth, block, prev, at)
                if r is None:
                    return
                conds = r
                if word == "invoke":
                    m = re.search(r"to label %(\"[^\"]*\"|[-\w.$]+)", op)
                    yield (m.group(1).strip('"'), block, 0, env, conds, mem)
                    return
            elif word == "br":
                m = re.match(r"br label %(\S+)", op)
                if m:
                    yield (m.group(1).strip('"'), block, 0, env, conds, mem)
                    return
                m = re.match(r"br i1 (\S+), label %(\S+), label %(\S+)", op)
                for truth, cs in self.fork(self.val("i1", m.group(1), env), conds):
                    yield (m.group(2 if truth else 3).strip('"'), block, 0, env, cs, mem)
                return
            elif word == "switch":
                m = re.match(r"switch (i\d+) (\S+), label %(\S+) \[(.*)\]", op)
                x = self.val(m.group(1), m.group(2), env)
                rest = conds
                for t, v, label in re.findall(r"(i\d+) (-?\d+|true|false), label %(\S+)", m.group(4)):
                    forks = dict(self.fork(x == self.val(t, v, env), rest))
                    if True in forks:
                        yield (label.strip('"'), block, 0, env, forks[True], mem)
                    rest = forks.get(False)
                    if rest is None:
                        return
                yield (m.group(3).strip('"'), block, 0, env, rest, mem)
                return
            elif word == "ret":
                if op == "ret void":
                    yield Path(conds, None, "return", mem)
                else:
                    t, v = parse_value(op[4:])
                    yield Path(conds, self.val(t, v, env), "return", mem)
                return
            elif word == "unreachable":
                # only reached behind calls which do not return, and these end the path
                return
            else:
                raise NotEncodable(s)

    def values(self, x, conds, s):
        """The values a bit vector can have: [(value, conditions)]"""
        out, ints = [], [c for c in conds if not _has_real(c)]
        solver = z3.Solver()
        solver.add(ints)
        t = time.time()
        while solver.check() == z3.sat:
            v = solver.model().eval(x, model_completion=True)
            out.append((v, conds + [x == v]))
            solver.add(x != v)
            if len(out) > 300:
                raise NotEncodable("too many values: " + s)
        self.time += time.time() - t
        self.queries += len(out) + 1
        return out

    def do_call(self, f, s, op, dst, env, conds, mem, depth, block, prev, at):
        """Returns the conditions to go on with, or None when what follows was yielded"""
        m = re.search(r"(%s)\(" % NAME, op)
        if not m:
            raise NotEncodable(s)
        name = m.group(1)
        raw = split_args(op[m.end():closing(op, m.end() - 1)])
        a = self.a
        if re.match(r"@llvm\.(lifetime|dbg|experimental\.noalias|assume)", name):
            return conds
        if re.match(r"@llvm\.mem(cpy|move|set)\.", name):
            to = self.val(*parse_value(raw[0]), env)
            n = z3.simplify(self.val(*parse_value(raw[2]), env))
            if not z3.is_bv_value(n):
                raise NotEncodable(s)
            n = n.as_long()
            if ".memset." in name:
                v = z3.simplify(self.val(*parse_value(raw[1]), env))
                if not z3.is_bv_value(v) or v.as_long() or n % 8 or not isinstance(to.obj, Local):
                    raise NotEncodable(s)
                for k in range(0, n, 8):
                    mem = self.store(mem, "double", Pointer(to.obj, to.offset + k), {})
            else:
                mem = self.copy(mem, to, self.val(*parse_value(raw[1]), env), n)
            yield (block, prev, at, env, conds, mem)
            return None
        if name.startswith("%"):
            target = env.get(name)
            if not isinstance(target, Pointer) or not isinstance(target.obj, str) or target.offset:
                raise NotEncodable("indirect call: " + s)
            name = target.obj

        def num(i):
            t, v = parse_value(raw[i])
            if t != "double":
                raise NotEncodable(s)
            return self.val(t, v, env)
        short = name.strip('@"')
        unary = {"llvm.exp.f64": "exp", "exp": "exp", "llvm.log.f64": "ln", "log": "ln", "llvm.log10.f64": "log10",
                 "log10": "log10", "llvm.log2.f64": "log2", "log2": "log2", "llvm.exp2.f64": "exp2", "exp2": "exp2",
                 "tanh": "tanh", "expm1": "expm1", "log1p": "log1p", "llvm.sin.f64": "sin", "llvm.cos.f64": "cos",
                 "llvm.floor.f64": "floor", "llvm.ceil.f64": "ceil", "llvm.round.f64": "round",
                 "llvm.trunc.f64": "trunc", "cbrt": "cbrt", "llvm.tanh.f64": "tanh"}
        if short in ("llvm.pow.f64", "pow"):
            env[dst] = self.pow(num(0), num(1))
        elif short.startswith("llvm.powi.f64"):
            t, v = parse_value(raw[1])
            k = z3.simplify(self.val(t, v, env))
            if not z3.is_bv_value(k):
                raise NotEncodable(s)
            env[dst] = self.pow(num(0), a.const(k.as_signed_long()))
        elif short in ("llvm.exp10.f64", "exp10"):
            env[dst] = self.pow(a.const(10), num(0))
        elif short in ("llvm.sqrt.f64", "sqrt"):
            env[dst] = self.pow(num(0), a.const(Fraction(1, 2)))
        elif short in ("llvm.fma.f64", "llvm.fmuladd.f64", "fma"):
            env[dst] = a.add(a.mul(num(0), num(1)), num(2))
        elif short in unary:
            env[dst] = a.apply(unary[short], num(0))
        elif short in ("llvm.fabs.f64", "llvm.maxnum.f64", "llvm.minnum.f64", "llvm.maximumnum.f64",
                       "llvm.minimumnum.f64", "llvm.maximum.f64", "llvm.minimum.f64", "fmax", "fmin"):
            if "fabs" in short:
                x, y = num(0), a.mul(num(0), a.const(-1))
                pred = "oge"
            else:
                x, y = num(0), num(1)
                pred = "oge" if "max" in short else "ole"
            c, needs = self.compare(pred, x, y)
            conds = conds + [n for n in needs if not any(n.eq(k) for k in conds)]
            for truth, cs in self.fork(c, conds):
                e = dict(env)
                e[dst] = x if truth else y
                yield (block, prev, at, e, cs, mem)
            return None
        elif re.match(r"llvm\.[su](add|sub|mul)\.with\.overflow\.i\d+$", short):
            x, y = [self.val(*parse_value(v), env) for v in raw]
            signed, kind = short[5] == "s", short[6:9]
            n, ext = x.size(), (z3.SignExt if short[5] == "s" else z3.ZeroExt)
            wide = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[kind]
            w = wide(ext(n + 2, x), ext(n + 2, y)) if kind == "mul" else wide(ext(2, x), ext(2, y))
            low = z3.Extract(n - 1, 0, w)
            env[dst] = (z3.simplify(low), z3.simplify(ext(w.size() - n, low) != w))
        elif short == "llvm.copysign.f64":
            raise NotEncodable(s)
        elif name in self.m.functions and "panic" not in name:
            args = [self.val(*parse_value(r), env) for r in raw]
            for p in self.call(name, args, conds, mem, depth + 1):
                if p.kind == "panic":
                    yield p
                else:
                    e = dict(env)
                    if dst:
                        e[dst] = p.value
                    if word_of(s) == "invoke":
                        to = re.search(r"to label %(\"[^\"]*\"|[-\w.$]+)", op).group(1).strip('"')
                        yield (to, block, 0, e, p.conds, p.mem)
                    else:
                        yield (block, prev, at, e, p.conds, p.mem)
            return None
        elif "panic" in name or "slice_index_fail" in name or "unwrap_failed" in name or "expect_failed" in name or \
                "len_mismatch" in name or "_fail" in name:
            yield Path(conds, None, "panic")
            return None
        else:
            raise NotEncodable("call of " + name)
        return conds

    def pow(self, x, y):
        """Powers of which the exponent is a small whole constant are products"""
        a = self.a
        if a.is_const(y) and a.value(y) in (0, 1, 2, 3):
            r = a.const(1)
            for _ in range(int(a.value(y))):
                r = a.mul(r, x)
            return r
        if a.is_const(y) and a.value(y) == -1:
            return a.div(a.const(1), x)
        return a.apply("pow", x, y)


def word_of(s):
    return re.sub(r"^%s = " % NAME, "", s).split()[0]


class Symbolic(NotEncodable):
    def __init__(self, index, what):
        NotEncodable.__init__(self, what)
        self.index = index


class Aggregate(dict):
    """A struct value; what was not inserted is missing"""


def alignment(t):
    t = t.strip()
    if t[0] == "<":
        return 1
    if t[0] == "{":
        return max([alignment(f) for f in split_args(t.strip("{} "))] or [1])
    m = re.match(r"\[(\d+) x (.*)\]$", t)
    return alignment(m.group(2)) if m else min(sizeof(t), 16)


def layout(t):
    """The fields of a struct: [(offset, type)]"""
    t = t.strip()
    packed = t[0] == "<"
    if t[0] not in "<{" or (packed and not t.startswith("<{")):
        raise NotEncodable("layout of " + t)
    inner = t[2:-2] if packed else t[1:-1]
    out, off = [], 0
    for f in split_args(inner):
        if not packed:
            off += -off % alignment(f)
        out.append((off, f))
        off += sizeof(f)
    return out


def sizeof(t):
    t = t.strip()
    if t in ("double", "i64", "ptr"):
        return 8
    if t in ("i1", "float"):
        return {"i1": 1, "float": 4}[t]
    m = re.match(r"i(\d+)$", t)
    if m:
        return (int(m.group(1)) + 7) // 8
    m = re.match(r"\[(\d+) x (.*)\]$", t)
    if m:
        return int(m.group(1)) * sizeof(m.group(2))
    if t[0] in "<{":
        fields = layout(t)
        if not fields:
            return 0
        end = fields[-1][0] + sizeof(fields[-1][1])
        return end if t[0] == "<" else end + -end % alignment(t)
    raise NotEncodable("size of " + t)


class Constant:
    """The initial value of a constant: bytes, and pointers"""

    def __init__(self, t, init):
        self.bytes, self.pointers = {}, {}
        self.put(t, init, 0)

    def put(self, t, init, off):
        t, init = t.strip(), init.strip()
        if init in ("undef", "poison"):
            return
        if init == "zeroinitializer":
            for k in range(sizeof(t)):
                self.bytes[off + k] = 0
        elif init.startswith('c"'):
            body, k, i = init[2:-1], off, 0
            while i < len(body):
                if body[i] == "\\":
                    if body[i + 1] == "\\":
                        self.bytes[k], i = 92, i + 2
                    else:
                        self.bytes[k], i = int(body[i + 1:i + 3], 16), i + 3
                else:
                    self.bytes[k], i = ord(body[i]), i + 1
                k += 1
        elif init[0] in "<{[":
            inner = init[2:-2] if init.startswith("<{") else init[1:-1]
            items = split_args(inner)
            if t[0] == "[":
                step = sizeof(re.match(r"\[(\d+) x (.*)\]$", t).group(2))
                offs = [step * k for k in range(len(items))]
            else:
                offs = [o for o, _ in layout(t)]
            for o, item in zip(offs, items):
                self.put(*parse_type(item), off + o)
        elif t == "ptr":
            if init.startswith("@"):
                self.pointers[off] = init
        elif t == "double":
            x = bytes.fromhex(init[2:])[::-1] if init.startswith("0x") else struct.pack("<d", float(init))
            self.bytes.update({off + k: b for k, b in enumerate(x)})
        elif re.match(r"i\d+$", t):
            n = sizeof(t)
            v = {"true": 1, "false": 0}.get(init)
            v = int(init) if v is None else v
            self.bytes.update({off + k: b for k, b in enumerate((v % (1 << 8 * n)).to_bytes(n, "little"))})
        else:
            raise NotEncodable("constant of type " + t)

    def read(self, t, off, a):
        if t == "ptr":
            if off in self.pointers:
                return Pointer(self.pointers[off], 0)
            raise NotEncodable("pointer in a constant")
        raw = [self.bytes.get(off + k) for k in range(sizeof(t))]
        if None in raw:
            raise NotEncodable("load beyond a constant")
        if t == "double":
            x = struct.unpack("<d", bytes(raw))[0]
            if x != x or abs(x) == float("inf"):
                return a.input("nonfinite_%s" % x)
            return a.const(Fraction(x))
        v = int.from_bytes(bytes(raw), "little")
        return z3.BoolVal(bool(v & 1)) if t == "i1" else z3.BitVecVal(v, 8 * len(raw) if t != "i1" else 1)

    def cells(self, off, n, a):
        out = []
        for k in range(0, n, 8):
            if off + k in self.pointers:
                out.append((k, ("ptr", Pointer(self.pointers[off + k], 0))))
            elif all(off + k + j in self.bytes for j in range(min(8, n - k))):
                if n - k >= 8:
                    out.append((k, ("double", self.read("double", off + k, a))))
                else:
                    raise NotEncodable("copy of part of a constant")
        return out


_real_cache = {}


def _has_real(e):
    key = e.get_id()
    if key not in _real_cache:
        _real_cache[key] = (e, z3.is_real(e) or any(_has_real(c) for c in e.children()))
    return _real_cache[key][1]


# -------------------------------------------------------------------------------------------------------------- query

class Query:
    """Whether conditions can hold together: sat, unsat or unknown"""
    count, seconds = 0, 0.0

    @staticmethod
    def ask(conds, timeout=60):
        flat, seen = [], set()
        for c in conds:
            if c.get_id() not in seen:
                seen.add(c.get_id())
                flat.append(c)
        t = time.time()
        Query.count += 1
        r, model = z3.unknown, None
        for make in (lambda: z3.Solver(), lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "nlsat").solver(),
                     lambda: z3.Tactic("qfnra-nlsat").solver()):
            s = make()
            s.set("timeout", int(timeout * 1000 / 3))
            s.add(flat)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                model = s.model() if r == z3.sat else None
                break
        Query.seconds += time.time() - t
        return r, model


def real(v, default=0.0):
    """A z3 value as a float"""
    if v is None:
        return default
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        f = v.as_fraction()
        try:
            return float(f)
        except OverflowError:
            return 1e30 if f > 0 else -1e30
    return default


# ------------------------------------------------------------------------------------------------------------- curves

BUILTIN = {1: 1, 2: 3, 3: 4, 4: 5, 5: 7, 6: 4, 7: 5, 8: 5, 108: 1, 109: 1}


def evaluator(module):
    """The function the built-in catalogue evaluates with: the one its constructor stores"""
    named = [n for n, f in module.functions.items() if f.ret == "double" and
             [t for t, _ in f.args] == ["i32", "ptr", "i64", "double"]]
    used = [n for n in named if re.search(r"store ptr %s," % re.escape(n), module.text)
            or re.search(r"^@.* = .*ptr %s\b" % re.escape(n), module.text, re.M)]
    if len(used) == 1:
        return used[0]
    pick = [n for n in used or named if "default_eval_parametric_fn" in n]
    if len(pick) == 1:
        return pick[0]
    raise NotEncodable("no single curve evaluator: %s" % (used or named))


class Check:
    """One assertion: held, failed (with a model) or undecided"""

    def __init__(self, what, status, model=None):
        self.what, self.status, self.model = what, status, model


class Result:
    def __init__(self, name):
        self.name, self.checks, self.witnesses = name, [], []
        self.paths = self.steps = self.queries = 0
        self.seconds = self.symex = 0.0
        self.functions = set()


def _inputs(alg, model, n):
    """Bytes of n parameters and the input, as the native replay takes them"""
    vals = []
    for name in ["p%d" % i for i in range(n)] + ["r"]:
        v = model[z3.Real(name)] if model is not None and name in alg.names else None
        vals.append(list(struct.pack("<d", real(v))))
    return vals


def _args(alg, curve, length):
    return [curve if z3.is_bv(curve) else z3.BitVecVal(curve, 32), Pointer(Params(), 0), length, alg.input("r")]


def _pairs(res, alg, n, lefts, rights, what, timeout, witnesses):
    """Every pair of paths must give the same"""
    for l in lefts:
        for r in rights:
            conds = l.conds + r.conds
            if l.kind == "panic" or r.kind == "panic":
                bad = [z3.BoolVal(True)]
            else:
                d = alg.add(l.value, r.value, -1)
                if d:
                    bad = alg.needs(l.value) + alg.needs(r.value) + [alg.z3(d) != 0]
                else:
                    bad = [z3.BoolVal(False)]
                    if not witnesses:
                        res.checks.append(Check(what, "held"))
                        continue
            if z3.is_false(bad[0]):
                verdict, model = z3.unsat, None
            else:
                verdict, model = Query.ask(conds + bad, timeout)
            if verdict == z3.unsat:
                res.checks.append(Check(what, "held"))
                if witnesses and l.kind == r.kind == "return":
                    ok, model = Query.ask(conds, 2)
                    if ok == z3.sat:
                        res.witnesses.append(_inputs(alg, model, n))
            elif verdict == z3.sat:
                res.checks.append(Check(what + (": panics" if "panic" in (l.kind, r.kind) else ""), "failed",
                                        _inputs(alg, model, n)))
            else:
                res.checks.append(Check(what, "undecided"))


def _finish(res, alg, exe, start):
    res.paths, res.steps = exe.paths_total, exe.steps
    res.queries, res.seconds = Query.count + exe.queries, Query.seconds + exe.time
    res.symex = time.time() - start - res.seconds
    res.functions = exe.functions
    res.wall = time.time() - start
    return res


def curve(lib, ref, number, timeout=60):
    """The library's curve against the definition"""
    start = time.time()
    Query.count, Query.seconds = 0, 0.0
    alg, n = Algebra(), BUILTIN[abs(number)]
    exe, other = Executor(lib, alg), Executor(ref, alg)
    res = Result("curve %d" % number)
    got = exe.run(evaluator(lib), _args(alg, number, z3.BitVecVal(n, 64)))
    want = other.run("@vp_definition", [z3.BitVecVal(number, 32), Pointer(Params(), 0), alg.input("r")])
    exe.paths_total = len(got) + len(want)
    _pairs(res, alg, n, got, want, "curve %d is what its definition gives" % number, timeout, True)
    return _finish(res, alg, exe, start)


def enough(lib, number, timeout=60):
    """The curve needs no more than its parameters, and ignores further ones"""
    start = time.time()
    Query.count, Query.seconds = 0, 0.0
    alg, n = Algebra(), BUILTIN[abs(number)]
    exe = Executor(lib, alg)
    res = Result("parameters of curve %d" % number)
    length = z3.BitVec("length", 64)
    got = exe.run(evaluator(lib), _args(alg, number, z3.BitVecVal(n, 64)))
    more = exe.run(evaluator(lib), _args(alg, number, length), [z3.UGE(length, n), z3.ULT(length, 1 << 60)])
    exe.paths_total = len(got) + len(more)
    for k in alg.names:
        if re.match(r"p\d+$", k) and int(k[1:]) >= n and any(_mentions(p, alg, k) for p in got):
            res.checks.append(Check("curve %d reads parameter %s, beyond the slice" % (number, k), "undecided"))
    _pairs(res, alg, n, got, more, "curve %d does not panic, and depends on its %d parameters only" % (number, n), timeout,
           False)
    return _finish(res, alg, exe, start)


def _mentions(path, alg, name):
    v = alg.names[name]
    return path.kind == "return" and any(a == v for m in path.value for a, _ in m)


def others(lib, timeout=60):
    """All types which are no built-in curve evaluate to zero"""
    start = time.time()
    Query.count, Query.seconds = 0, 0.0
    alg = Algebra()
    exe = Executor(lib, alg)
    res = Result("other types")
    t, length = z3.BitVec("type", 32), z3.BitVec("length", 64)
    conds = [t != k for c in BUILTIN for k in (c, -c)] + [z3.ULT(length, 1 << 60)]
    got = exe.run(evaluator(lib), _args(alg, t, length), conds)
    exe.paths_total = len(got)
    for p in got:
        bad = [] if p.kind == "panic" else [alg.z3(p.value) != 0] + alg.needs(p.value)
        verdict, model = Query.ask(p.conds + bad, timeout) if p.kind == "panic" or p.value else (z3.unsat, None)
        what = "a type which is no curve evaluates to zero"
        if verdict == z3.sat:
            tt = model.eval(t, model_completion=True).as_long()
            res.checks.append(Check(what, "failed", [list(struct.pack("<I", tt))] + _inputs(alg, model, 7)))
        else:
            res.checks.append(Check(what, "held" if verdict == z3.unsat else "undecided"))
    return _finish(res, alg, exe, start)


TINY = z3.RealVal(str(Fraction(0.0001)))


def invertible(alg, number):
    """Where a curve has an inverse: conditions on its parameters and the input, one list for each branch"""
    p = [alg.z3(alg.input("p%d" % i)) for i in range(7)]
    r = alg.z3(alg.input("r"))
    g, a, b, c, d, e, f = p

    def pow_(x, y):
        q = alg.apply("pow", x, y)
        return alg.z3(q), alg.needs(q)

    def big(x):
        return z3.Or(x >= TINY, x <= -TINY)
    P = [alg.input("p%d" % i) for i in range(7)]
    base = a * r + b
    if number == 1:
        return [[r > 0, big(g)], [r == 0, g >= TINY], [r < 0, g == 1]]
    if number == 2:
        return [[big(g), big(a), base > 0, r >= 0, r * a >= -b, a > 0]]
    if number == 3:
        return [[big(g), a >= TINY, base > 0, r >= 0]]
    if number in (4, 5):
        at, needs = pow_(alg.add(alg.mul(P[1], P[4]), P[2]), P[0])
        rising = [g >= TINY, a >= TINY, c >= TINY, a * d + b >= 0] + needs
        rising += [c * d <= at] if number == 4 else [c * d + f <= at + e]
        return [rising + [r > d], rising + [r == d, base > 0], rising + [r < d]]
    if number == 6:
        return [[big(g), big(a), base > 0]]
    if number == 7:
        at, needs = pow_(alg.input("r"), P[0])
        return [needs + [big(g), big(a), big(b), r > 0, b * at + c > 0]]
    if number == 8:
        a, b, c, d, e = p[:5]
        return [[a >= TINY, big(c), b > 0, b != 1]]
    if number == 108:
        return [[g >= TINY, r > 0, r < 1]]
    return [[g != 0, r >= 0, r <= 1]]


def laws(alg):
    """What else holds of pow, exp and the logarithms, for the applications there are"""
    out = []
    z = alg.z3
    by = {}
    for f, args, atom in alg.apps:
        by.setdefault(f, []).append(([z(x) for x in args], alg.atoms[atom]))
    pows, logs, lns, exps = by.get("pow", []), by.get("log10", []), by.get("ln", []), by.get("exp", [])
    for (x, y), v in pows:
        out.append(z3.Implies(z3.And(x > 0, x < 1, y > 0), z3.And(v > 0, v < 1)))
        for (x2, y2), v2 in pows:
            if not v.eq(v2):
                out.append(z3.Implies(z3.And(x >= 0, x2 == v, y * y2 == 1, z3.Or(x > 0, y > 0)), v2 == x))
                out.append(z3.Implies(z3.And(x >= 0, x2 >= x, y == y2, y > 0), v2 >= v))
        for (w,), l in logs:
            out.append(z3.Implies(z3.And(x == 10, y == l, w > 0), v == w))
            out.append(z3.Implies(z3.And(x == 10, w == v), l == y))
            for (w2,), l2 in logs:
                if not l.eq(l2):
                    out.append(z3.Implies(z3.And(x > 0, w == v, w2 == x), l == y * l2))
    for (w,), l in logs + lns:
        out.append(z3.Implies(z3.And(w > 0, w != 1), l != 0))
    for (x,), v in exps:
        out.append(z3.Implies(v == 1, x == 0))
        for (w,), l in lns:
            out.append(z3.Implies(w == v, l == x))
            out.append(z3.Implies(z3.And(x == l, w > 0), v == w))
    return out


def roundtrip(lib, number, timeout=60):
    """The reversed curve undoes the curve"""
    start = time.time()
    Query.count, Query.seconds = 0, 0.0
    alg, n = Algebra(), BUILTIN[number]
    exe = Executor(lib, alg)
    res = Result("curves %d and -%d" % (number, number))
    length = z3.BitVecVal(n, 64)
    domain = invertible(alg, number)
    forth = exe.run(evaluator(lib), _args(alg, number, length))
    exe.paths_total = len(forth)
    what = "curve -%d undoes curve %d" % (number, number)
    r = alg.input("r")
    for dom in domain:
        reached = False
        for p in forth:
            if p.kind == "panic":
                verdict, model = Query.ask(dom + p.conds, timeout)
                res.checks.append(Check(what, {z3.sat: "failed", z3.unsat: "held"}.get(verdict, "undecided"),
                                        _inputs(alg, model, n)))
                continue
            verdict, _ = Query.ask(dom + p.conds + laws(alg), timeout)
            if verdict == z3.unsat:
                res.checks.append(Check(what, "held"))
                continue
            back = exe.run(evaluator(lib), [z3.BitVecVal(-number, 32), Pointer(Params(), 0), length, p.value], p.conds)
            exe.paths_total += len(back)
            for q in back:
                diff = alg.add(q.value, r, -1) if q.kind == "return" else None
                conds = dom + q.conds
                if diff is not None:
                    conds = conds + alg.needs(q.value) + [alg.z3(diff) != 0]
                if diff == {}:
                    verdict = z3.unsat
                else:
                    verdict, model = Query.ask(conds + laws(alg), timeout)
                if verdict == z3.unsat:
                    res.checks.append(Check(what, "held"))
                    ok, model = Query.ask(dom + q.conds + laws(alg), 2)
                    if ok == z3.sat:
                        reached = True
                        res.witnesses.append(_inputs(alg, model, n))
                elif verdict == z3.sat:
                    res.checks.append(Check(what, "failed", _inputs(alg, model, n)))
                else:
                    res.checks.append(Check(what, "undecided"))
        if not reached and all(c.status == "held" for c in res.checks):
            res.checks.append(Check("no witness for " + what, "undecided"))
    return _finish(res, alg, exe, start)


def main():
    """ir.py LIBRARY.ll HARNESS.ll TASK...: one line of JSON per task"""
    import json, sys
    lib, ref = Module(open(sys.argv[1]).read()), Module(open(sys.argv[2]).read())
    for task in sys.argv[3:]:
        kind, _, number = task.partition(":")
        try:
            if kind == "curve":
                r = curve(lib, ref, int(number))
            elif kind == "roundtrip":
                r = roundtrip(lib, int(number))
            elif kind == "enough":
                r = enough(lib, int(number))
            else:
                r = others(lib)
            out = {"task": task, "checks": [[c.what, c.status, c.model] for c in r.checks], "witnesses": r.witnesses,
                   "paths": r.paths, "steps": r.steps, "queries": r.queries, "solver_s": r.seconds, "symex_s": r.symex,
                   "wall_s": r.wall, "functions": sorted(r.functions)}
        except NotEncodable as e:
            out = {"task": task, "error": "not encodable: %s" % e}
        except (KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
            out = {"task": task, "error": "not encodable: %s %s" % (type(e).__name__, e)}
        print(json.dumps(out), flush=True)


if __name__ == "__main__":
    main()

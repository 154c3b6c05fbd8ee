"""Emission and parsing of the compiler's MIR (stable-mir text) for the crate in /repo.

Everything the verifier reasons about comes from here: the text is printed by rustc from the
current working tree on every run; nothing is edited or rewritten on the way.
"""
import os, re, subprocess, hashlib, fcntl

REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', '/var/tmp/verif-gaoya')


class EmitError(Exception):
    pass


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', '__pycache__', '.pytest_cache'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock', '.py')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, repo).encode())
                h.update(b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def emit(package='gaoya', repo=REPO, cache=CACHE):
    """Run rustc on the working tree and return (mir_text, expanded_source)."""
    os.makedirs(cache, exist_ok=True)
    env = dict(os.environ)
    env.update(RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=os.path.join(cache, 'mir-target'),
               CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    env.setdefault('PYO3_PYTHON', '/usr/bin/python3')
    out = []
    with open(os.path.join(cache, 'mir.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for kind in ('stable-mir', 'expanded'):
            cmd = ['cargo', 'rustc', '--offline', '-p', package, '--lib', '--profile', 'check', '--',
                   '-Zunpretty=' + kind]
            if kind == 'stable-mir':
                cmd += ['-Zmir-opt-level=0', '-Zmir-enable-passes=-CheckAlignment,-CheckNull']
            r = subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True)
            if r.returncode != 0 or len(r.stdout) < 1000:
                raise EmitError('rustc %s failed: %s' % (kind, r.stderr[-2000:]))
            out.append(r.stdout)
        if 'promoted[' in out[0]:
            # constants that rustc moved out of their function; the stable printer shows their uses only
            r = subprocess.run(['cargo', 'rustc', '--offline', '-p', package, '--lib', '--profile', 'check', '--',
                                '-Zunpretty=mir', '-Zmir-opt-level=0'], cwd=repo, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True)
            if r.returncode == 0:
                out[0] += promoted_bodies(r.stdout)
    return out


def promoted_bodies(text):
    """The bodies of promoted constants as functions without arguments, in the stable printer's notation; named by what
    follows the impl header, and left out where that is ambiguous."""
    found = {}
    for m in re.finditer(r'^const (\S[^\n]*promoted\[\d+\]): ([^\n]*) = \{\n(.*?)^\}\n', text, re.M | re.S):
        name = re.sub(r'^.*?<impl at [^>]*>::', '', m.group(1))
        body = re.sub(r'\bconst ', '', m.group(3))

        def agg(a):
            fs = [f.split(':', 1)[1].strip() for f in a.group(2).split(', ')]
            return '= %s(%s);' % (re.sub(r'::<.*>$', '', a.group(1)).split('::')[-1], ', '.join(fs))
        body = re.sub(r'= ([\w:<>]+) \{ (.*?) \};', agg, body)
        found.setdefault(name, set()).add('fn %s() -> %s {\n%s}\n' % (name, m.group(2), body))
    return '\n' + ''.join(v.pop() for v in found.values() if len(v) == 1)


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'name', 'args', 'mut')

    def __init__(self, k, name='', args=(), mut=False):
        self.k, self.name, self.args, self.mut = k, name, tuple(args), mut

    def __repr__(self):
        if self.k == 'path':
            return self.name + ('<' + ', '.join(map(repr, self.args)) + '>' if self.args else '')
        if self.k == 'ref':
            return '&' + ('mut ' if self.mut else '') + repr(self.args[0])
        if self.k == 'tuple':
            return '(' + ', '.join(map(repr, self.args)) + ')'
        if self.k == 'slice':
            return '[' + repr(self.args[0]) + ']'
        if self.k == 'array':
            return '[' + repr(self.args[0]) + ';' + self.name + ']'
        return self.k + ':' + self.name


def split_top(s, sep=','):
    out, d, cur, i = [], 0, '', 0
    instr = False
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            if c == '\\':
                cur += s[i + 1]
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur += c
        elif c in '([{<':
            d += 1
            cur += c
        elif c in ')]}' or (c == '>' and (i == 0 or s[i - 1] not in '-=')):
            d -= 1
            cur += c
        elif c == sep and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def match_close(s, i):
    """index of bracket closing the one at s[i]"""
    d, n = 0, len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            if c == '\\':
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced: ' + s)


INTS = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
        'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1),
        'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
        'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1)}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}

_tycache = {}


def parse_type(s):
    s = s.strip()
    if s in _tycache:
        return _tycache[s]
    r = _parse_type(s)
    _tycache[s] = r
    return r


def _parse_type(s):
    if s.startswith('&'):
        s = s[1:].strip()
        s = re.sub(r"^'\w+\s*", '', s)
        mut = False
        if s.startswith('mut '):
            mut, s = True, s[4:]
        return Ty('ref', '', [parse_type(s)], mut)
    if s.startswith('*'):
        s2 = re.sub(r'^\*(const|mut)\s+', '', s)
        return Ty('ptr', '', [parse_type(s2)])
    if s.startswith('('):
        e = match_close(s, 0)
        inner = s[1:e]
        return Ty('tuple', '', [parse_type(x) for x in split_top(inner)])
    if s.startswith('['):
        e = match_close(s, 0)
        inner = split_top(s[1:e], ';')
        if len(inner) == 2:
            return Ty('array', inner[1], [parse_type(inner[0])])
        return Ty('slice', '', [parse_type(inner[0])])
    if s.startswith('{closure@') or s.startswith('Closure('):
        return Ty('closure', s)
    if s.startswith('dyn ') or s.startswith('impl '):
        return Ty('dyn', s)
    if s.startswith('<'):
        return Ty('assoc', s)
    if s.startswith('for<') or s.startswith('fn(') or s.startswith('unsafe '):
        return Ty('fn', s)
    if s == '!':
        return Ty('never', s)
    i = s.find('<')
    if i >= 0:
        e = match_close(s, i)
        base = s[:i].rstrip(':')
        rest = s[e + 1:]
        args = [a for a in split_top(s[i + 1:e])]
        tys = []
        for a in args:
            if a.startswith("'"):
                continue
            m = re.match(r'^\w+ = (.*)$', a)
            if m:
                tys.append(parse_type(m.group(1)))
                continue
            if re.match(r'^-?\d', a) or a in ('true', 'false'):
                tys.append(Ty('const', a))
                continue
            tys.append(parse_type(a))
        if rest.startswith('::'):
            return Ty('assoc', s)
        return Ty('path', base.split('::')[-1], tys)
    return Ty('path', s.split('::')[-1])


# ---------------------------------------------------------------- callee names
class Callee:
    """A resolved call target. `trait` calls: <Self as Trait>::m::<args>; others: path::m::<args>."""
    __slots__ = ('raw', 'trait', 'self_ty', 'method', 'margs', 'path', 'targs', 'trait_args')

    def __init__(self, raw):
        self.raw = raw
        self.trait = self.self_ty = None
        self.margs, self.targs, self.trait_args = [], [], []
        s = raw
        if s.startswith('<') and not s.startswith('<impl'):
            e = match_close(s, 0)
            inner, rest = s[1:e], s[e + 1:]
            # split on top-level ' as '
            d, pos = 0, -1
            i = 0
            while i < len(inner):
                c = inner[i]
                if c in '([{<':
                    d += 1
                elif c in ')]}' or (c == '>' and inner[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and inner.startswith(' as ', i):
                    pos = i
                    break
                i += 1
            if pos >= 0:
                self.self_ty = inner[:pos]
                tr = inner[pos + 4:]
                t = parse_type(tr)
                self.trait = t.name.split('::')[-1]
                self.trait_args = t.args
            else:
                self.self_ty = inner
            segs = rest
        else:
            segs = '::' + s
        # segments
        parts = []
        i = 0
        while i < len(segs):
            if segs.startswith('::<', i):
                e = match_close(segs, i + 2)
                inner = segs[i + 3:e]
                if inner.startswith('impl '):
                    parts.append(['<' + inner + '>', []])
                elif parts:
                    parts[-1][1] = [a for a in split_top(inner) if not a.startswith("'")]
                i = e + 1
            elif segs.startswith('::', i):
                i += 2
                if segs[i] == '<':
                    e = match_close(segs, i)
                    parts.append([segs[i:e + 1], []])
                    i = e + 1
                elif segs[i] == '{':
                    e = match_close(segs, i)
                    parts.append([segs[i:e + 1], []])
                    i = e + 1
                else:
                    m = re.match(r'[\w#]+', segs[i:])
                    parts.append([m.group(0), []])
                    i += len(m.group(0))
            elif segs[i] == '<':
                e = match_close(segs, i)
                if parts:
                    parts[-1][1] = [a for a in split_top(segs[i + 1:e]) if not a.startswith("'")]
                i = e + 1
            else:
                raise ValueError('callee ' + raw)
        self.method = parts[-1][0]
        self.margs = parts[-1][1]
        self.path = [p[0] for p in parts]
        self.targs = parts[-2][1] if len(parts) > 1 else []

    @property
    def owner(self):
        return self.path[-2] if len(self.path) > 1 else ''

    def key(self):
        if self.trait:
            return self.trait + '::' + self.method
        if len(self.path) > 1:
            return self.path[-2] + '::' + self.method
        return self.method

    def with_self(self, ty):
        c = Callee(self.raw)
        c.self_ty = ty
        return c

    def __repr__(self):
        return self.raw


# ---------------------------------------------------------------- bodies
class Fn:
    __slots__ = ('module', 'name', 'args', 'ret', 'locals', 'blocks', 'src', 'idx', 'debug', 'loops', 'callee')

    def __repr__(self):
        return 'Fn(%s)' % self.name


FNRE = re.compile(r'^fn (.*?)\((.*)\) -> (.*?) \{$')


def _split_sig(line):
    # fn NAME(args) -> RET {
    body = line[3:-2].rstrip()
    # find first '(' at depth 0 w.r.t. <>
    d = 0
    for i, c in enumerate(body):
        if c in '<[{':
            d += 1
        elif c in ']}' or (c == '>' and body[i - 1] not in '-='):
            d -= 1
        elif c == '(' and d == 0:
            break
    e = match_close(body, i)
    name = body[:i]
    args = split_top(body[i + 1:e])
    ret = body[e + 1:].strip()
    ret = ret[2:].strip() if ret.startswith('->') else '()'
    return name, args, ret


def try_stmt(s):
    try:
        return parse_stmt(s)
    except (ValueError, AttributeError, IndexError):
        return ('unsupported', s)


def inline_boxed_arrays(blocks):
    """vec![..] allocates a box, writes the array through a raw pointer and turns the box into a Vec: here the
    local that stands for the box holds the array."""
    box, ptr = set(), {}
    for b, ss in blocks.items():
        for n, s in enumerate(ss):
            if s[0] == 'call' and s[1] is not None and not s[1][1] and re.match(r'^(std::boxed::)?Box::<\[.*\]>::new_uninit$', s[2]) and len(s) > 4:
                box.add(s[1][0])
                ss[n] = ('goto', s[4])
    if not box:
        return blocks
    for b, ss in blocks.items():
        for n, s in enumerate(ss):
            if s[0] == 'assign' and not s[1][1] and s[2][0] == 'cast' and s[2][1][0] == 'use' and s[2][1][1][0] in box:
                ptr[s[1][0]] = s[2][1][1][0]
                ss[n] = ('nop',)
    for b, ss in blocks.items():
        for n, s in enumerate(ss):
            if s[0] == 'assign' and s[1][0] in ptr and [e[:2] for e in s[1][1]] == [('*',), ('f', 1), ('f', 0), ('f', 0)]:
                ss[n] = ('assign', (ptr[s[1][0]], []), s[2])
    return blocks


def parse(text):
    fns = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('fn ') and ln.endswith('{'):
            f = Fn()
            name, args, ret = _split_sig(ln)
            f.name = name
            f.args = []
            f.locals = {}
            f.debug = {}
            f.ret = parse_type(ret)
            for a in args:
                n, t = a.split(':', 1)
                n = int(n.strip()[1:])
                f.args.append((n, parse_type(t)))
                f.locals[n] = parse_type(t)
            f.blocks = {}
            start = i
            i += 1
            cur = None
            while lines[i] != '}':
                l = lines[i].strip()
                m = re.match(r'^let (?:mut )?\s*_(\d+): (.*);$', l)
                if m:
                    f.locals[int(m.group(1))] = parse_type(m.group(2))
                elif l.startswith('debug '):
                    m = re.match(r'^debug (\S+) => _(\d+);', l)
                    if m:
                        f.debug[m.group(1)] = int(m.group(2))
                elif re.match(r'^bb\d+: \{$', l):
                    cur = int(l[2:l.index(':')])
                    f.blocks[cur] = []
                elif l == '}':
                    cur = None
                elif cur is not None and l:
                    f.blocks[cur].append(l)
                i += 1
            f.src = '\n'.join(lines[start:i + 1])
            f.blocks = inline_boxed_arrays({b: [try_stmt(s) for s in ss] for b, ss in f.blocks.items()})
            f.idx = len(fns)
            f.loops = None
            f.callee = None
            fns.append(f)
        i += 1
    return fns


# places:  ('pl', local, [proj...]) ; proj: ('*',) ('f',i,ty) ('v',n) ('i',local) ('c',...) 
def parse_place(s):
    p, rest = _place(s.strip())
    if rest.strip():
        raise ValueError('place rest %r in %r' % (rest, s))
    return p


def _place(s):
    s = s.strip()
    if s.startswith('('):
        e = match_close(s, 0)
        inner = s[1:e].strip()
        if inner.startswith('*'):
            b, r = _place(inner[1:])
            assert not r.strip(), s
            cur = (b[0], b[1] + [('*',)])
        else:
            b, r = _place(inner)
            r = r.strip()
            if r.startswith('as variant#'):
                m = re.match(r'^as variant#(\d+)(.*)$', r)
                n, r2 = int(m.group(1)), m.group(2).strip()
                cur = (b[0], b[1] + [('v', n)])
                if r2:
                    m = re.match(r'^\.(\d+): (.*)$', r2)
                    cur = (cur[0], cur[1] + [('f', int(m.group(1)), parse_type(m.group(2)))])
            elif r.startswith('.'):
                m = re.match(r'^\.(\d+): (.*)$', r, re.S)
                cur = (b[0], b[1] + [('f', int(m.group(1)), parse_type(m.group(2)))])
            else:
                raise ValueError('place %r (%r)' % (s, r))
        rest = s[e + 1:]
    else:
        m = re.match(r'^_(\d+)', s)
        if not m:
            raise ValueError('place %r' % s)
        cur = (int(m.group(1)), [])
        rest = s[m.end():]
    while rest.startswith('['):
        e = match_close(rest, 0)
        ix = rest[1:e]
        m = re.match(r'^_(\d+)$', ix)
        if m:
            cur = (cur[0], cur[1] + [('i', int(m.group(1)))])
        else:
            m = re.match(r'^(-?\d+) of (\d+)$', ix)
            if m:
                cur = (cur[0], cur[1] + [('c', int(m.group(1)))])
            else:
                m = re.match(r'^(\d+):(-?\d*)$', ix)
                if m:
                    cur = (cur[0], cur[1] + [('sub', int(m.group(1)), m.group(2))])
                else:
                    raise ValueError('index %r' % rest)
        rest = rest[e + 1:]
    return cur, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('move '):
        return ('use', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('use', parse_place(s[5:]))
    if re.match(r'^_\d+$', s) or s.startswith('(*') or re.match(r'^\(+_\d+', s) or re.match(r'^\(+\*', s) \
            or re.match(r'^_\d+\[', s):
        try:
            return ('use', parse_place(s))
        except (ValueError, AssertionError):
            pass
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne',
          'Ge', 'Gt', 'Cmp', 'Offset', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'AddUnchecked', 'SubUnchecked',
          'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&raw '):
        m = re.match(r'^&raw (const|mut) (?:\(fake\) )?(.*)$', s)
        return ('rawref', m.group(1) == 'mut', parse_place(m.group(2)))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:]))
    if s.startswith('&'):
        t = re.sub(r'^fake (shallow |deep )?', '', s[1:])
        return ('ref', False, parse_place(t))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[len('discriminant('):-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    m = re.match(r'^(\w+)\(', s)
    if m and m.group(1) in BINOPS:
        a = split_top(s[len(m.group(1)) + 1:-1])
        return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in UNOPS:
        return ('un', m.group(1), parse_operand(s[len(m.group(1)) + 1:-1]))
    # cast
    i = _top_as(s)
    if i >= 0 and not s.startswith('"') and not s.startswith('b"'):
        return ('cast', parse_operand(s[:i]), parse_type(s[i + 4:]))
    if s.startswith('{closure@'):
        e = match_close(s, 0)
        rest = s[e + 1:]
        args = split_top(rest[1:-1]) if rest.startswith('(') else []
        return ('closure', s[:e + 1], [parse_operand(a) for a in args])
    if s.startswith('['):
        e = match_close(s, 0)
        inner = s[1:e]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(a) for a in split_top(inner)])
    if s == '()':
        return ('tuple', [])
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        inner = s[1:-1]
        try:
            return ('use', parse_operand(s)) if not _istuple(inner) else \
                ('tuple', [parse_operand(a) for a in split_top(inner)])
        except ValueError:
            return ('tuple', [parse_operand(a) for a in split_top(inner)])
    if re.match(r'^[A-Za-z_][\w:]*(::<.*>)?\(.*\)$', s) and not s.startswith('const '):
        i = s.index('(')
        # generics may contain parens; find the '(' whose close is the end
        for j in range(len(s)):
            if s[j] == '(':
                try:
                    if match_close(s, j) == len(s) - 1:
                        i = j
                        break
                except ValueError:
                    continue
        name = s[:i]
        return ('aggr', name, [parse_operand(a) for a in split_top(s[i + 1:-1])])
    return ('use', parse_operand(s))


def _istuple(inner):
    if inner.endswith(','):
        return True
    return len(split_top(inner)) > 1 or inner.startswith(('move ', 'copy '))


def _top_as(s):
    d, i = 0, 0
    instr = False
    while i < len(s):
        c = s[i]
        if instr:
            if c == '\\':
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return -1


def parse_stmt(l):
    l = l.rstrip(';')
    if l.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'Retag', 'ConstEvalCounter',
                     'Coverage', 'AscribeUserType', 'BackwardIncompatible')):
        return ('nop',)
    if l == 'return':
        return ('return',)
    if l == 'resume' or l.startswith('terminate') or l == 'abort':
        return ('resume',)
    if l == 'unreachable':
        return ('unreachable',)
    m = re.match(r'^goto -> bb(\d+)$', l)
    if m:
        return ('goto', int(m.group(1)))
    if l.startswith('switchInt('):
        e = match_close(l, 9)
        op = parse_operand(l[10:e])
        tg = l[l.index('[', e) + 1:l.rindex(']')]
        arms, other = [], None
        for a in split_top(tg):
            k, b = a.split(':')
            b = int(b.strip()[2:])
            if k.strip() == 'otherwise':
                other = b
            else:
                arms.append((int(k), b))
        return ('switch', op, arms, other)
    if l.startswith('drop('):
        m = re.search(r'-> \[return: bb(\d+)', l)
        return ('goto', int(m.group(1)))
    if l.startswith('assert('):
        e = match_close(l, 6)
        parts = split_top(l[7:e])
        neg = parts[0].startswith('!')
        op = parse_operand(parts[0][1:] if neg else parts[0])
        m = re.search(r'success: bb(\d+)', l[e:])
        return ('assert', op, neg, parts[1], int(m.group(1)))
    # assignment or call
    i = _top_eq(l)
    if i < 0:
        if l.startswith('discriminant(') or l.startswith('set_discriminant'):
            return ('unsupported', l)
        return ('unsupported', l)
    dst, rhs = l[:i], l[i + 3:]
    m = re.match(r'^(.*) -> (\[return: bb(\d+).*\]|unwind .*|bb(\d+))$', rhs)
    if m:
        call = m.group(1)
        tgt = int(m.group(3)) if m.group(3) else None
        # the callee ends where the last balanced paren group starts
        d = 0
        j = len(call) - 1
        # scan forward to find '(' whose close is end
        k = 0
        pos = None
        while k < len(call):
            if call[k] in '<({[':
                try:
                    e = match_close(call, k)
                except ValueError:
                    break
                if call[k] == '(' and e == len(call) - 1:
                    pos = k
                    break
                k = e + 1
            else:
                k += 1
        callee, args = call[:pos], call[pos + 1:-1]
        return ('call', parse_place(dst), callee, [parse_operand(a) for a in split_top(args)], tgt)
    return ('assign', parse_place(dst), parse_rvalue(rhs))


def _top_eq(s):
    d, i = 0, 0
    while i < len(s):
        c = s[i]
        if c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(' = ', i):
            return i
        i += 1
    return -1


# ---------------------------------------------------------------- struct table from the expanded source
class Struct:
    __slots__ = ('name', 'generics', 'fields', 'module')


def parse_structs(src):
    """name -> list of Struct, from `-Zunpretty=expanded` output (macros expanded); fn name -> modules, in order;
    enum name -> list of (variant, field types)."""
    fn_modules, impls, enums = {}, [], {}
    out = {}
    # module tracking by brace depth
    toks = re.compile(r'\b(mod|struct)\s+(\w+)')
    mods = []
    depth = 0
    i = 0
    n = len(src)
    # strip comments and strings crudely
    src2 = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), src)
    src2 = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), src2, flags=re.S)
    src2 = re.sub(r'b?"(?:\\.|[^"\\])*"', lambda m: '"' + ' ' * (len(m.group(0)) - 2) + '"', src2, flags=re.S)
    src2 = re.sub(r"'(\{|\}|\(|\)|<|>|;|\[|\])'", "' '", src2)
    while i < n:
        c = src2[i]
        if c == '{':
            depth += 1
            i += 1
        elif c == '}':
            depth -= 1
            while mods and mods[-1][1] > depth:
                mods.pop()
            while impls and impls[-1][1] > depth:
                impls.pop()
            i += 1
        elif c.isalpha() or c == '_':
            m = re.match(r'\w+', src2[i:i + 80])
            w = m.group(0)
            if w in ('impl', 'trait') and re.search(r'(^|[;{}\]]|\bpub|\bunsafe)\s*$', src2[max(0, i - 40):i]):
                j = i
                while src2[j] not in '{;':
                    j = match_close(src2, j) + 1 if src2[j] in '([' else j + 1
                if src2[j] == '{':
                    hd = re.split(r'\bwhere\b', src2[i + len(w):j])[0].strip()
                    if hd.startswith('<'):
                        hd = hd[match_close(hd, 0) + 1:]
                    hd = re.split(r'\bfor\b', hd)[-1].strip()
                    nm = re.match(r'[&\s]*((?:\w+\s*::\s*)*)(\w+|\[)', hd)
                    impls.append((nm.group(2) if nm else None, depth + 1))
            if w == 'fn':
                m2 = re.match(r'fn\s+(\w+)', src2[i:i + 200])
                if m2:
                    j = i + m2.end()
                    while src2[j] not in '{;':
                        j = match_close(src2, j) + 1 if src2[j] in '([' else j + 1
                    if src2[j] == '{':
                        fn_modules.setdefault((impls[-1][0] if impls else None, m2.group(1)), []).append('::'.join(x[0] for x in mods))
            if w in ('mod', 'struct', 'enum'):
                m2 = re.match(r'(mod|struct|enum)\s+(\w+)\s*', src2[i:i + 200])
                if m2 and m2.group(1) == 'mod':
                    j = i + m2.end()
                    if src2[j] == '{':
                        depth += 1
                        mods.append((m2.group(2), depth))
                        i = j + 1
                        continue
                elif m2 and m2.group(1) == 'struct':
                    st = Struct()
                    st.name = m2.group(2)
                    st.module = '::'.join(x[0] for x in mods)
                    j = i + m2.end()
                    st.generics = []
                    if src2[j] == '<':
                        e = match_close(src2, j)
                        for g in split_top(src2[j + 1:e]):
                            g = g.split('=')[0].split(':')[0].strip()
                            g = g.replace('const ', '').strip()
                            if not g.startswith("'"):
                                st.generics.append(g)
                        j = e + 1
                    # skip where clause
                    while src2[j] not in '{(;':
                        if src2[j] == '<':
                            j = match_close(src2, j)
                        j += 1
                        if src2[j] == '(' and 'where' in src2[i:j]:
                            # tuple in a where clause; skip it
                            j = match_close(src2, j) + 1
                    st.fields = []
                    if src2[j] == ';':
                        e = j
                    else:
                        e = match_close(src2, j)
                        body = re.sub(r'#\[[^\]]*\]', '', src2[j + 1:e])
                        for q, fd in enumerate(split_top(body)):
                            fd = re.sub(r'^pub(\([^)]*\))?\s+', '', fd.strip())
                            if src2[j] == '{':
                                if ':' not in fd:
                                    continue
                                nm, ty = fd.split(':', 1)
                                st.fields.append((nm.strip(), parse_type(re.sub(r'\s+', ' ', ty.strip()))))
                            else:
                                st.fields.append((str(q), parse_type(re.sub(r'\s+', ' ', fd))))
                    out.setdefault(st.name, []).append(st)
                    i = e + 1
                    continue
                elif m2 and src2[i + m2.end()] == '{':
                    # an enum without parameters
                    j = i + m2.end()
                    e = match_close(src2, j)
                    vs = []
                    for v in split_top(re.sub(r'#\[[^\]]*\]', '', src2[j + 1:e])):
                        m3 = re.match(r'^(\w+)\s*(?:\((.*)\)|\{(.*)\})?\s*$', v.strip(), re.S)
                        if not m3:
                            vs = None
                            break
                        fs = split_top(m3.group(2) or m3.group(3) or '')
                        if m3.group(3):
                            fs = [f.split(':', 1)[1] for f in fs]
                        vs.append((m3.group(1), [parse_type(re.sub(r'\s+', ' ', f.strip())) for f in fs]))
                    if vs:
                        enums[m2.group(2)] = vs
                    i = e + 1
                    continue
            i += len(w)
        else:
            i += 1
    return out, fn_modules, enums


class Crate:
    def __init__(self, mir_text, expanded):
        self.fns = parse(mir_text)
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)
        self.structs, mods, self.enums = parse_structs(expanded)
        # the module a function lies in: both texts list the functions of a name in source order
        plain = {}
        for f in self.fns:
            f.module = None
            if '{' not in f.name:
                m = re.match(r'<?[&\s]*(?:\w+::(?!<))*(\w+|\[).*::(\w+)$', f.name)
                plain.setdefault((m.group(1), m.group(2)) if m else (None, f.name.split('::')[-1]), []).append(f)
        for nm, fs in plain.items():
            if len(mods.get(nm, ())) == len(fs):
                for f, m in zip(fs, mods[nm]):
                    f.module = m
        self.closure_of = {}     # closure type string -> [Fn] (several for code generated by a macro)
        for f in self.fns:
            if '{closure#' in f.name and f.args:
                t = f.args[0][1]
                if t.k == 'ref':
                    t = t.args[0]
                if t.k == 'closure':
                    self.closure_of.setdefault(t.name, []).append(f)

    @staticmethod
    def load(repo=REPO, package='gaoya'):
        mirt, exp = emit(package, repo)
        if package == 'pygaoya':
            # the glue that pyo3's macros generate (argument conversion, class tables) is not looked at
            mirt = re.sub(r'^fn (_::|trampoline|DESCRIPTION|ITEMS|INTRINSIC_ITEMS|TYPE_OBJECT)[^\n]*\{\n.*?^\}\n', '', mirt, flags=re.M | re.S)
            exp = re.sub(r'^        const _: \(\) =.*?^            \};\n', '', exp, flags=re.M | re.S)
        return Crate(mirt, exp)

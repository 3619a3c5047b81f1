"""Parser for the textual LLVM IR that clang-18 produces from /repo's sources.

Only what the verifier needs: types with layout, globals with initialisers,
functions, debug metadata (field names, enumerators, line numbers).
"""
import re

TOK = re.compile(r'''%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"[^"]*"|"[^"]*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|!\w[\w.]*|![0-9]+|!|#\d+|\.\.\.|[A-Za-z_][\w.]*|[()\[\]{}<>,=*:|]''')


class IRError(Exception):
    pass


class Ty:
    __slots__ = ('k', 'n', 'el', 'name')

    def __init__(s, k, n=0, el=None, name=None):
        s.k, s.n, s.el, s.name = k, n, el, name

    def __repr__(s):
        return {'int': 'i%d' % s.n, 'ptr': 'ptr', 'void': 'void'}.get(s.k, '%s(%s,%s)' % (s.k, s.n, s.name or s.el))


VOID = Ty('void')
PTR = Ty('ptr')


class Op:
    """operand: k in reg,int,null,undef,global,ce(constant expression),agg,cstr,zero,meta"""
    __slots__ = ('k', 'v', 'ty', 'x')

    def __init__(s, k, v=None, ty=None, x=None):
        s.k, s.v, s.ty, s.x = k, v, ty, x

    def __repr__(s):
        return '%s:%s' % (s.k, s.v)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'dbg')

    def __init__(s, op, res=None, ty=None, args=(), x=None):
        s.op, s.res, s.ty, s.args, s.x = op, res, ty, list(args), x
        s.line = 0
        s.dbg = None

    def __repr__(s):
        return '%s = %s %s' % (s.res, s.op, s.args)


class Fn:
    def __init__(s, name):
        s.name = name
        s.ret = None
        s.params = []
        s.blocks = {}
        s.order = []
        s.linkage = ''
        s.vararg = False


class P:
    def __init__(s, mod, toks):
        s.m, s.t, s.i = mod, toks, 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        t = s.t[s.i]
        s.i += 1
        return t

    def acc(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def exp(s, x):
        if s.next() != x:
            raise IRError('expected %s at %s' % (x, ' '.join(s.t[max(0, s.i - 5):s.i + 5])))

    def type(s):
        t = s.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
        elif re.fullmatch(r'i\d+', t):
            r = Ty('int', int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'half'):
            r = Ty('fp', {'double': 64, 'float': 32, 'x86_fp80': 80, 'half': 16}[t])
        elif t in ('label', 'metadata', 'token'):
            r = Ty(t)
        elif t[0] == '%':
            r = Ty('named', name=t)
        elif t == '[':
            n = int(s.next())
            s.exp('x')
            el = s.type()
            s.exp(']')
            r = Ty('arr', n, el)
        elif t == '{':
            els = []
            if not s.acc('}'):
                while True:
                    els.append(s.type())
                    if not s.acc(','):
                        break
                s.exp('}')
            r = Ty('struct', el=els)
        elif t == '<':
            if s.peek() == '{':
                r = s.type()
                s.exp('>')
                r.name = 'packed'
            else:
                n = int(s.next())
                s.exp('x')
                el = s.type()
                s.exp('>')
                r = Ty('vec', n, el)
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise IRError('type? ' + t)
        # function type "ret (args...)" as in "call void (ptr, ...) @f"
        return r

    ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'readonly', 'noalias', 'nocapture', 'writeonly', 'immarg',
            'returned', 'inreg', 'readnone', 'nofree', 'byval', 'sret', 'dereferenceable', 'dereferenceable_or_null',
            'align', 'range', 'nofpclass', 'swiftself'}

    def attrs(s):
        while s.peek() in s.ATTR:
            a = s.next()
            if s.peek() == '(':
                d = 0
                while True:
                    t = s.next()
                    if t == '(':
                        d += 1
                    elif t == ')':
                        d -= 1
                        if d == 0:
                            break
            elif a == 'align':
                s.next()

    def value(s, ty):
        t = s.next()
        if t[0] == '%':
            return Op('reg', t, ty)
        if t[0] == '@':
            return Op('global', t, ty)
        if t in ('true', 'false'):
            return Op('int', int(t == 'true'), ty)
        if re.fullmatch(r'-?\d+', t):
            return Op('int', int(t), ty)
        if t == 'null':
            return Op('null', 0, ty)
        if t in ('undef', 'poison'):
            return Op('undef', None, ty)
        if t == 'zeroinitializer':
            return Op('zero', None, ty)
        if t[0] == 'c' and t[1:2] == '"':
            return Op('cstr', unescape(t[2:-1]), ty)
        if t in ('[', '{', '<'):
            if t == '<' and s.acc('{'):
                t = '{'
                pk = True
            else:
                pk = False
            end = {'[': ']', '{': '}', '<': '>'}[t]
            els = []
            if not s.acc(end):
                while True:
                    ety = s.type()
                    els.append(s.value(ety))
                    if not s.acc(','):
                        break
                s.exp(end)
            if pk:
                s.exp('>')
            return Op('agg', els, ty)
        if t in ('getelementptr',):
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            s.exp('(')
            sty = s.type()
            s.exp(',')
            ops = []
            while True:
                if s.peek() == 'inrange':
                    s.next()
                ety = s.type()
                ops.append(s.value(ety))
                if not s.acc(','):
                    break
            s.exp(')')
            return Op('ce', 'getelementptr', ty, (sty, ops))
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('(')
            ety = s.type()
            v = s.value(ety)
            s.exp('to')
            dty = s.type()
            s.exp(')')
            return Op('ce', t, dty, (v,))
        if t in ('sub', 'add', 'icmp', 'mul', 'xor', 'and', 'or', 'shl'):
            pred = None
            if t == 'icmp':
                pred = s.next()
            while s.peek() in ('nuw', 'nsw'):
                s.next()
            s.exp('(')
            a = s.value(s.type())
            s.exp(',')
            b = s.value(s.type())
            s.exp(')')
            return Op('ce', t, ty, (a, b, pred))
        if re.fullmatch(r'-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+', t):
            return Op('fp', t, ty)
        if t.startswith('!') or t == 'metadata':
            return Op('meta', t, ty)
        raise IRError('value? %s near %s' % (t, ' '.join(s.t[max(0, s.i - 6):s.i + 6])))

    def tv(s):
        ty = s.type()
        if ty.k == 'metadata':
            # skip metadata operand
            d = 0
            while s.peek() is not None and not (d == 0 and s.peek() in (',', ')')):
                t = s.next()
                if t == '(':
                    d += 1
                if t == ')':
                    d -= 1
            return Op('meta', None, ty)
        s.attrs()
        return s.value(ty)


def unescape(x):
    out = bytearray()
    i = 0
    while i < len(x):
        if x[i] == '\\':
            out.append(int(x[i + 1:i + 3], 16))
            i += 3
        else:
            out += x[i].encode('latin1')
            i += 1
    return bytes(out)


class Module:
    def __init__(s, text):
        s.types = {}
        s.globals = {}     # name -> (Op init|None, const?, Ty)
        s.fns = {}
        s.decls = set()
        s.md = {}
        s.aliases = {}
        s._parse(text)
        s._debug()

    # ---------- layout
    def res(s, ty):
        while ty.k == 'named':
            ty = s.types[ty.name]
        return ty

    def align(s, ty):
        ty = s.res(ty)
        if ty.k == 'int':
            b = (ty.n + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8
        if ty.k == 'ptr':
            return 8
        if ty.k == 'arr':
            return s.align(ty.el)
        if ty.k == 'struct':
            if ty.name == 'packed':
                return 1
            return max([s.align(e) for e in ty.el] or [1])
        if ty.k == 'fp':
            return {64: 8, 32: 4, 80: 16, 16: 2}[ty.n]
        raise IRError('align %r' % ty)

    def size(s, ty):
        ty = s.res(ty)
        if ty.k == 'int':
            b = (ty.n + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if ty.k == 'ptr':
            return 8
        if ty.k == 'arr':
            return ty.n * s.size(ty.el)
        if ty.k == 'struct':
            o = 0
            for e in ty.el:
                if ty.name != 'packed':
                    a = s.align(e)
                    o = (o + a - 1) // a * a
                o += s.size(e)
            a = s.align(ty)
            return (o + a - 1) // a * a
        if ty.k == 'fp':
            return {64: 8, 32: 4, 80: 16, 16: 2}[ty.n]
        raise IRError('size %r' % ty)

    def field_off(s, ty, idx):
        ty = s.res(ty)
        o = 0
        for i, e in enumerate(ty.el):
            if ty.name != 'packed':
                a = s.align(e)
                o = (o + a - 1) // a * a
            if i == idx:
                return o, e
            o += s.size(e)
        raise IRError('field idx')

    # ---------- parsing
    def _parse(s, text):
        lines = text.split('\n')
        i = 0
        cur = None
        blk = None
        n = len(lines)
        while i < n:
            L = lines[i]
            i += 1
            if not L or L[0] == ';':
                continue
            if cur is None:
                if L[0] == '%' and ' = type ' in L:
                    nm, rest = L.split(' = type ', 1)
                    s.types[nm] = P(s, TOK.findall(rest)).type()
                elif L[0] == '@':
                    s._global(L)
                elif L.startswith('define '):
                    cur = s._header(L)
                    blk = None
                elif L.startswith('declare '):
                    m = re.search(r'@("[^"]*"|[\w.$-]+)\(', L)
                    s.decls.add('@' + m.group(1))
                elif L[0] == '!':
                    m = re.match(r'(![\w.]+) = (.*)', L)
                    if m:
                        s.md[m.group(1)] = m.group(2)
                continue
            if L == '}':
                s.fns[cur.name] = cur
                cur = None
                continue
            if L[0] != ' ':
                m = re.match(r'("[^"]*"|[\w.$-]+):', L)
                if not m:
                    raise IRError('line? ' + L)
                blk = '%' + m.group(1)
                cur.blocks[blk] = []
                cur.order.append(blk)
                continue
            # instruction, join continuation lines
            while True:
                if re.search(r'switch .*\[\s*$', L) and ']' not in L.split('[')[-1]:
                    while True:
                        L += ' ' + lines[i].strip()
                        i += 1
                        if lines[i - 1].strip().startswith(']'):
                            break
                    break
                if i < n and re.match(r'\s{8,}(to label|catch|cleanup|filter)\b', lines[i]):
                    L += ' ' + lines[i].strip()
                    i += 1
                    continue
                break
            if blk is None:
                blk = '%entry'
                cur.blocks[blk] = []
                cur.order.append(blk)
            ins = s._ins(L)
            if ins is not None:
                cur.blocks[blk].append(ins)

    def _global(s, L):
        m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', L)
        nm, rest = m.group(1), m.group(2)
        rest = re.sub(r'(, align \d+)?(, !dbg ![0-9]+)?$', '', rest)
        toks = TOK.findall(rest)
        p = P(s, toks)
        const = None
        while True:
            t = p.peek()
            if t in ('global', 'constant'):
                const = t == 'constant'
                p.next()
                break
            if t == 'alias':
                s.aliases[nm] = toks[-1]
                return
            if t is None:
                return
            p.next()
            if t == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
        ext = 'external' in toks[:p.i]
        try:
            ty = p.type()
            init = None
            if not ext and p.peek() is not None:
                init = p.value(ty)
            s.globals[nm] = (init, const, ty)
        except IRError:
            s.globals[nm] = (None, const, None)

    def _header(s, L):
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', L)
        fn = Fn('@' + m.group(1))
        pre = L[7:m.start()]
        fn.linkage = 'internal' if 'internal ' in pre else 'external'
        toks = [t for t in TOK.findall(pre) if t not in (
            'dso_local', 'internal', 'hidden', 'linkonce_odr', 'weak', 'weak_odr', 'noundef', 'noalias', 'nonnull', 'zeroext',
            'signext', 'unnamed_addr', 'local_unnamed_addr', 'private', 'available_externally', 'linkonce', 'comdat', 'protected', 'default', 'range')]
        # drop attribute arguments such as align 8 / dereferenceable(8)
        out = []
        k = 0
        while k < len(toks):
            if toks[k] == 'align':
                k += 2
                continue
            if toks[k] in ('dereferenceable', 'dereferenceable_or_null'):
                k += 4
                continue
            out.append(toks[k])
            k += 1
        fn.ret = P(s, out).type()
        # parameters
        d = 0
        j = m.end() - 1
        st = j + 1
        while True:
            if L[j] == '(':
                d += 1
            elif L[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        p = P(s, TOK.findall(L[st:j]))
        while p.peek() is not None:
            if p.acc('...'):
                fn.vararg = True
                break
            ty = p.type()
            p.attrs()
            nm = p.next() if p.peek() and p.peek()[0] == '%' else '%%arg%d' % len(fn.params)
            fn.params.append((nm, ty))
            p.acc(',')
        fn.sp = None
        return fn

    def _ins(s, L):
        dbg = None
        m = re.search(r', !dbg (![0-9]+)', L)
        if m:
            dbg = m.group(1)
        L = re.sub(r', !(dbg|llvm\.loop|srcloc|range|tbaa|prof|heapallocsite|noundef|nonnull|nosanitize) ![0-9]+', '', L)
        if '@llvm.dbg.' in L:
            return None
        toks = TOK.findall(L)
        p = P(s, toks)
        res = None
        if p.peek(1) == '=':
            res = p.next()
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()
        ins = s._op(op, res, p)
        ins.dbg = dbg
        return ins

    def _op(s, op, res, p):
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Ins(op, res, ty, [a, b])
        if op == 'icmp':
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Ins(op, res, ty, [a, b], pred)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            a = p.tv()
            p.exp('to')
            ty = p.type()
            return Ins(op, res, ty, [a])
        if op == 'freeze':
            a = p.tv()
            return Ins(op, res, a.ty, [a])
        if op == 'select':
            c = p.tv()
            p.exp(',')
            a = p.tv()
            p.exp(',')
            b = p.tv()
            return Ins(op, res, a.ty, [c, a, b])
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.exp(',')
            a = p.tv()
            return Ins(op, res, ty, [a])
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            v = p.tv()
            p.exp(',')
            a = p.tv()
            return Ins(op, None, v.ty, [v, a])
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            sty = p.type()
            args = []
            while p.acc(','):
                args.append(p.tv())
            return Ins(op, res, PTR, args, sty)
        if op == 'alloca':
            ty = p.type()
            cnt = None
            if p.acc(','):
                if p.peek() != 'align':
                    cnt = p.tv()
            return Ins(op, res, PTR, [cnt] if cnt else [], ty)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Ins('br', None, None, [], [p.next()])
            c = p.tv()
            p.exp(',')
            p.exp('label')
            a = p.next()
            p.exp(',')
            p.exp('label')
            b = p.next()
            return Ins('br', None, None, [c], [a, b])
        if op == 'switch':
            v = p.tv()
            p.exp(',')
            p.exp('label')
            d = p.next()
            p.exp('[')
            cases = []
            while not p.acc(']'):
                ty = p.type()
                k = p.value(ty)
                p.exp(',')
                p.exp('label')
                cases.append((k.v, p.next()))
            return Ins('switch', None, None, [v], (d, cases))
        if op == 'ret':
            if p.peek() == 'void':
                return Ins('ret')
            return Ins('ret', None, None, [p.tv()])
        if op == 'phi':
            ty = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(ty)
                p.exp(',')
                b = p.next()
                p.exp(']')
                inc.append((v, b))
                if not p.acc(','):
                    break
            return Ins('phi', res, ty, [], inc)
        if op == 'unreachable':
            return Ins(op)
        if op in ('call', 'invoke'):
            while p.peek() in ('fastcc', 'ccc', 'noalias', 'noundef', 'nonnull', 'zeroext', 'signext', 'align',
                               'dereferenceable', 'dereferenceable_or_null', 'range'):
                t = p.next()
                if t == 'align':
                    p.next()
                elif p.peek() == '(':
                    while p.next() != ')':
                        pass
            ty = p.type()
            if p.peek() == '(':
                d = 0
                while True:
                    t = p.next()
                    if t == '(':
                        d += 1
                    elif t == ')':
                        d -= 1
                        if d == 0:
                            break
            if p.peek() == 'asm':
                return Ins('asm', res, ty, [])
            cal = p.value(PTR)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    args.append(p.tv())
                    if not p.acc(','):
                        break
                p.exp(')')
            x = {'callee': cal}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.exp('to')
                p.exp('label')
                x['normal'] = p.next()
                p.exp('unwind')
                p.exp('label')
                x['unwind'] = p.next()
            return Ins(op, res, ty, args, x)
        if op == 'landingpad':
            ty = p.type()
            clauses = []
            while p.peek() is not None:
                t = p.next()
                if t == 'cleanup':
                    clauses.append(('cleanup', None))
                elif t in ('catch', 'filter'):
                    ety = p.type()
                    clauses.append((t, p.value(ety)))
                else:
                    break
            return Ins(op, res, ty, [], clauses)
        if op == 'resume':
            return Ins(op, None, None, [p.tv()])
        if op in ('extractvalue', 'insertvalue'):
            a = p.tv()
            args = [a]
            p.exp(',')
            if op == 'insertvalue':
                args.append(p.tv())
                p.exp(',')
            idx = [int(p.next())]
            while p.acc(','):
                idx.append(int(p.next()))
            return Ins(op, res, a.ty, args, idx)
        if op == 'va_arg':
            a = p.tv()
            p.exp(',')
            return Ins(op, res, p.type(), [a], None)
        if op in ('atomicrmw', 'cmpxchg', 'fence'):
            return Ins(op, res, None, [], None)
        return Ins('unsupported', res, None, [], op)

    # ---------- debug info
    def _mdfields(s, t):
        d = {}
        m = re.match(r'(?:distinct )?!(\w+)\((.*)\)\s*$', t)
        if not m:
            return None, d
        for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,]+)', m.group(2)):
            d[k] = v.strip('"')
        return m.group(1), d

    def _debug(s):
        s.fields = {}    # struct name -> {field: (bitoff, bitsize)}
        s.enums = {}     # enumerator -> value
        tagname = {}
        members = []
        typedefs = {}
        for k, t in s.md.items():
            if 'DICompositeType' in t or 'DIDerivedType' in t:
                kind, d = s._mdfields(t)
                if kind == 'DICompositeType':
                    tagname[k] = d.get('name')
                elif d.get('tag') == 'DW_TAG_member':
                    members.append(d)
                elif d.get('tag') == 'DW_TAG_typedef':
                    typedefs[d.get('baseType')] = d.get('name')
            elif 'DIEnumerator' in t:
                kind, d = s._mdfields(t)
                try:
                    s.enums[d['name']] = int(d['value'])
                except Exception:
                    pass
        for d in members:
            nm = tagname.get(d.get('scope')) or typedefs.get(d.get('scope'))
            if nm:
                s.fields.setdefault(nm, {})[d['name']] = (int(d.get('offset', '0')), int(d.get('size', '0')))
        s._loc = {}

    def line(s, dbg):
        if dbg is None:
            return 0
        if dbg in s._loc:
            return s._loc[dbg]
        t = s.md.get(dbg, '')
        m = re.search(r'line: (\d+)', t)
        r = int(m.group(1)) if m else 0
        s._loc[dbg] = r
        return r

"""Mechanical extraction of the real code of /repo/src into one Verus file, with the contracts of /verif/contracts spliced in.

What the extraction drops or rewrites (nothing else is changed):
  * comments, doc comments, attributes; items, fields and statements that are configured out with
    the features std, _test, _check-cache, fuzzing, test, defmt, postcard off
  * module structure: all modules are flattened into one; `use` lines dropped; `crate::`, `super::`, `self::`,
    `item::`, `cache::`, `mod::` path prefixes dropped; visibility qualifiers replaced by `pub`
  * `async fn` -> `fn`, `.await` dropped (a cancelled operation is an early return at a flash call)
  * `run_with_auto_repair!` is expanded with the macro's own definition
  * `dyn Value` type argument and the rewrites listed in contracts/rewrites.json (each is logged)
"""
import json, os, re

class Lost(Exception):
    """an anchor is lost or a construct is not supported: nothing is decided"""

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''(?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*(?:[^*]|\*(?!/))*\*/)|(?P<str>b?r\#*"(?:.|\n)*?"\#*|b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')|(?P<life>'[A-Za-z_]\w*)|(?P<num>\d[\w]*(?:\.\d\w*)?)|(?P<id>(?:r\#)?[A-Za-z_]\w*)|(?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|.)''', re.S)

def toks(src):
    """list of token texts without comments; whitespace is kept as single blanks/newlines in tokens of their own"""
    out = []
    for m in TOK.finditer(src):
        k = m.lastgroup
        if k in ('lc', 'bc'):
            continue
        if k == 'ws':
            if out and not out[-1].isspace():
                out.append('\n' if '\n' in m.group() else ' ')
            continue
        out.append(m.group())
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}

def match(t, i):
    """index of the bracket that closes the one at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in (')', ']', '}'):
            d -= 1
            if d == 0:
                return j
    raise Lost('unbalanced brackets')

def skipws(t, i):
    while i < len(t) and t[i].isspace():
        i += 1
    return i

def norm(x):
    if isinstance(x, str):
        x = toks(x)
    return [y for y in x if not y.isspace()]

def text(t):
    return ''.join(t)

# ---------------------------------------------------------------- cfg
def cfg_eval(t, on):
    t = norm(t)
    def ev(i):
        n = t[i]
        if i + 1 < len(t) and t[i + 1] == '(' and n in ('all', 'any', 'not'):
            args, j = [], i + 2
            while t[j] != ')':
                v, j = ev(j)
                args.append(v)
                if t[j] == ',':
                    j += 1
            v = all(args) if n == 'all' else any(args) if n == 'any' else not args[0]
            return v, j + 1
        if n == 'feature':
            return t[i + 2].strip('"') in on, i + 3
        return n in on, i + 1
    return ev(0)[0]

def strip_attrs(t, on, is_item):
    """drop attributes; drop what a false cfg attribute applies to"""
    out, i = [], 0
    while i < len(t):
        if t[i] == '#':
            k = skipws(t, i + 1)
            if k < len(t) and t[k] == '!':
                k = skipws(t, k + 1)
            if k < len(t) and t[k] == '[':
                e = match(t, k)
                inner = t[k + 1:e]
                name = inner[skipws(inner, 0)]
                i = skipws(t, e + 1)
                if name == 'derive' and is_item:
                    ds = [x for x in norm(inner) if x in ('Clone', 'Copy', 'PartialEq', 'Eq')]
                    if ds:
                        out += toks('#[derive(%s)] ' % ', '.join(ds))
                    continue
                if name == 'cfg':
                    a = skipws(inner, 1)
                    ok = cfg_eval(inner[a + 1:match(inner, a)], on)
                    if not ok:
                        # skip further attributes
                        while t[i] == '#':
                            e = match(t, skipws(t, i + 1))
                            i = skipws(t, e + 1)
                        # skip the element: up to a `,` or `;` at depth 0, or a closing bracket, or a block
                        isfn = False
                        while i < len(t):
                            if t[i] in ('(', '['):
                                i = match(t, i) + 1
                                continue
                            if t[i] in ('fn', 'impl', 'mod', 'struct', 'enum', 'trait', 'macro_rules'):
                                isfn = True
                            if t[i] == '{':
                                i = match(t, i) + 1
                                n = skipws(t, i)
                                if n < len(t) and t[n] in (',', ';') and not isfn:
                                    i = n + 1
                                break
                            if t[i] in (',', ';'):
                                i += 1
                                break
                            if t[i] in (')', ']', '}'):
                                break
                            i += 1
                continue
        out.append(t[i])
        i += 1
    return out

# ---------------------------------------------------------------- items
class Item:
    def __init__(s, kind, name, head, body):
        s.kind, s.name, s.head, s.body = kind, name, head, body   # head: tokens before `{` / `;`; body: tokens inside the braces or None
        s.items = []

KINDS = ('fn', 'struct', 'enum', 'trait', 'impl', 'mod', 'use', 'const', 'static', 'type', 'macro_rules', 'extern')

def parse_items(t):
    out, i = [], 0
    while True:
        i = skipws(t, i)
        if i >= len(t):
            return out
        s = i
        kind = name = None
        while i < len(t):
            x = t[i]
            if kind is None and x in KINDS:
                # `const fn` is a fn; `extern crate`
                nxt = t[skipws(t, i + 1)]
                if not (x == 'const' and nxt in ('fn', 'async', 'unsafe')) and not (x == 'extern' and nxt != 'crate'):
                    kind = x
                    j = skipws(t, i + 1)
                    name = t[j] if kind != 'impl' else None
                    if kind == 'macro_rules':
                        name = t[skipws(t, j + 1)]
            if x in ('(', '['):
                i = match(t, i) + 1
                continue
            if x == '{':
                if kind == 'const' or kind == 'use' or kind == 'static':
                    i = match(t, i) + 1
                    continue
                e = match(t, i)
                it = Item(kind, name, t[s:i], t[i + 1:e])
                i = e + 1
                break
            if x == ';':
                it = Item(kind, name, t[s:i], None)
                i += 1
                break
            if kind is None and x == '!' :
                pass
            i += 1
        else:
            if s < len(t) and text(t[s:]).strip():
                raise Lost('item not understood: ' + text(t[s:])[:80])
            return out
        if kind in ('impl', 'trait'):
            it.items = parse_items(it.body)
        out.append(it)

def generic_end(t, i):
    """t[i] == '<': index after the matching '>'"""
    d = 0
    while i < len(t):
        if t[i] == '<':
            d += 1
        elif t[i] == '>':
            d -= 1
            if d == 0:
                return i + 1
        elif t[i] in OPEN:
            i = match(t, i)
        i += 1
    raise Lost('generics')

def type_name(t):
    """last path segment of a type, without generics/lifetimes"""
    t = norm(t)
    i = 0
    while i < len(t) and (t[i] in ('&', 'mut', 'dyn') or t[i].startswith("'")):
        i += 1
    if i < len(t) and t[i] in ('[', '('):
        return ''.join(t[i:])
    name = None
    while i < len(t):
        if re.match(r'[A-Za-z_]', t[i]):
            name = t[i]
        elif t[i] != '::':
            break
        i += 1
    return name

def impl_name(head):
    """('Type', 'Trait' or None) of an impl header"""
    t = norm(head)
    i = t.index('impl') + 1
    if t[i] == '<':
        i = generic_end(t, i)
    d, forpos, where = 0, None, len(t)
    for j in range(i, len(t)):
        if t[j] == '<': d += 1
        elif t[j] == '>': d -= 1
        elif t[j] == 'for' and d == 0: forpos = j
        elif t[j] == 'where' and d == 0:
            where = j
            break
    if forpos is None:
        return type_name(t[i:where]), None
    return type_name(t[forpos + 1:where]), type_name(t[i:forpos])

# ---------------------------------------------------------------- loops and statements in a body
def find_loops(t):
    """positions (keyword index, index of the loop's `{`) of the loops in source order"""
    out = []
    for i, x in enumerate(t):
        if x in ('loop', 'while', 'for'):
            if x == 'for':
                n = skipws(t, i + 1)
                if t[n] == '<':
                    continue
            j = i + 1
            # the body is the first `{` at depth 0 that isn't part of a pattern / struct literal / closure or match block in the condition
            d = 0
            while True:
                y = t[j]
                if y in ('(', '['):
                    j = match(t, j) + 1
                    continue
                if y == 'match':
                    # skip scrutinee then block
                    while t[j] != '{':
                        j = match(t, j) + 1 if t[j] in ('(', '[') else j + 1
                    j = match(t, j) + 1
                    continue
                if y == '{':
                    # struct pattern `Name { .. } =`? only when followed by `=`/`)`: a loop body never is
                    e = match(t, j)
                    n = skipws(t, e + 1)
                    if n < len(t) and t[n] == '=' :
                        j = e + 1
                        continue
                    break
                j += 1
            out.append((i, j))
    return out

def find_seq(t, pat, start=0):
    """first index in t (with whitespace) where the whitespace-free token list pat occurs -> (start, end)"""
    idx = [i for i in range(len(t)) if not t[i].isspace()]
    tt = [t[i] for i in idx]
    n = len(pat)
    res = []
    for k in range(len(tt) - n + 1):
        if tt[k:k + n] == pat:
            res.append((idx[k], idx[k + n - 1] + 1))
    return res

# ---------------------------------------------------------------- rewriting
MODULES = {'crate', 'super', 'self', 'item', 'cache', 'map', 'queue', 'buffered', 'key_pointers', 'page_pointers', 'page_states'}

def drop_paths(t, log):
    out, i = [], 0
    while i < len(t):
        if t[i] in MODULES and i + 1 < len(t) and t[i + 1] == '::' and not (out and out[-1] == '::'):
            i += 2
            continue
        if t[i:i + 4] == ['alloc', '::', 'vec', '::'] and i + 4 < len(t):
            i += 4
            continue
        if (t[i] == 'embassy_sync' or t[i:i + 4] == ['core', '::', 'cell', '::']) and not (out and out[-1] == '::'):
            while t[i + 1] == '::' and t[i][0].islower():
                i += 2
            continue
        if t[i:i + 3] == ['alloc', '::', 'vec']:
            i += 2
            continue
        out.append(t[i])
        i += 1
    return out

def drop_vis(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == 'pub':
            k = skipws(t, i + 1)
            i = k
            if t[k] == '(' and norm(t[k + 1:match(t, k)])[0] in ('crate', 'super', 'self', 'in'):
                i = skipws(t, match(t, k) + 1)
            continue
        out.append(t[i])
        i += 1
    return out

def drop_await(t, log):
    out, i = [], 0
    while i < len(t):
        if t[i] == '.':
            k = skipws(t, i + 1)
            if k < len(t) and t[k] == 'await':
                while out and out[-1].isspace():
                    out.pop()
                i = k + 1
                log('await')
                continue
        out.append(t[i])
        i += 1
    return out

def split_args(t):
    """split token list at depth-0 commas (also outside of `<..>` is not considered)"""
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i] in OPEN:
            e = match(t, i)
            cur += t[i:e + 1]
            i = e + 1
            continue
        if t[i] == ',':
            out.append(cur)
            cur = []
        else:
            cur.append(t[i])
        i += 1
    if norm(cur):
        out.append(cur)
    return out

def strip(t):
    a, b = 0, len(t)
    while a < b and t[a].isspace():
        a += 1
    while b > a and t[b - 1].isspace():
        b -= 1
    return t[a:b]

def macro_calls(t, name, fn, log):
    """replace name!( .. ) by fn(args tokens)"""
    out, i = [], 0
    while i < len(t):
        if t[i] == name and i + 1 < len(t):
            k = skipws(t, i + 1)
            if t[k] == '!':
                k = skipws(t, k + 1)
                e = match(t, k)
                out += fn(macro_calls(t[k + 1:e], name, fn, log))
                log(name + '!')
                i = e + 1
                continue
        out.append(t[i])
        i += 1
    return out

def expand_repair(args):
    a = split_args(args)
    if len(a) != 2 or norm(a[0])[:2] != ['function', '='] or norm(a[1])[:2] != ['repair', '=']:
        raise Lost('run_with_auto_repair!')
    f = strip(a[0]); f = f[f.index('=') + 1:]
    r = strip(a[1]); r = r[r.index('=') + 1:]
    return toks('match ') + f + toks(' { Err ( Error :: Corrupted { .. } ) => { ') + r + toks(' ; ') + f + toks(' } val => val , } ')

REPAIR_DEF = norm('''( function = $function:expr , repair = $repair_function:expr ) => {
        match $function {
            Err(Error::Corrupted { .. }) => {
                $repair_function;
                $function
            }
            val => val,
        }
    };''')

def check_repair_def(body, on):
    b = norm(strip_attrs(body, on, False))
    if b != REPAIR_DEF:
        raise Lost('definition of run_with_auto_repair! changed: ' + ' '.join(b))

def postfix_start(t, i):
    """index where the postfix expression that ends before index i starts"""
    j = i
    while True:
        k = j - 1
        while k >= 0 and t[k].isspace():
            k -= 1
        if k < 0:
            break
        x = t[k]
        if x in (')', ']'):
            d = 0
            while True:
                if t[k] in (')', ']', '}'):
                    d += 1
                elif t[k] in OPEN:
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            j = k
            continue
        if x == '?':
            j = k
            continue
        if re.match(r'[A-Za-z_0-9]', x) and x not in ('return', 'break', 'let', 'if', 'match', 'while', 'in', 'mut', 'else'):
            j = k
            p = k - 1
            while p >= 0 and t[p].isspace():
                p -= 1
            if p >= 0 and t[p] in ('.', '::'):
                j = p
                continue
            break
        break
    return j

def find_norm(t, pat):
    """like find_seq but pat may contain '$x' wildcards for a single token; yields (start, end, binding)"""
    idx = [i for i in range(len(t)) if not t[i].isspace()]
    tt = [t[i] for i in idx]
    n = len(pat)
    for k in range(len(tt) - n + 1):
        b = {}
        for a, c in zip(pat, tt[k:k + n]):
            if a.startswith('$') and len(a) > 1:
                if b.setdefault(a, c) != c:
                    break
            elif a != c:
                break
        else:
            yield idx[k], idx[k + n - 1] + 1, b

def rw_from_le(t, log):
    for ty in ('u16', 'u32', 'u64'):
        while True:
            r = find_seq(t, [ty, '::', 'from_le_bytes', '('])
            if not r:
                break
            s, e = r[0]
            close = match(t, e - 1)
            arg = strip(t[e:close])
            if arg and arg[-1] == ',':
                arg = strip(arg[:-1])
            tail = norm('.try_into().unwrap()')
            idx = [i for i in range(len(arg)) if not arg[i].isspace()]
            if [arg[i] for i in idx[-len(tail):]] != tail:
                raise Lost('from_le_bytes argument')
            core = arg[:idx[-len(tail)]]
            t = t[:s] + [ty + '_from_le_bytes', '(', '&'] + core + [')'] + t[close + 1:]
            log('from_le_bytes(X.try_into().unwrap()) -> trusted le function')
    return t

def rw_from_le_generic(t, log):
    """Self::from_le_bytes(E.try_into().unwrap()), <T>::from_le_bytes(..) -> <T as LeBytes>::from_le(E)"""
    tail = norm('.try_into().unwrap()')
    while True:
        r = find_seq(t, ['::', 'from_le_bytes', '('])
        if not r:
            return t
        s, e = r[0]
        k = s - 1
        if t[k] == '>':
            q = k
            while t[q] != '<':
                q -= 1
            ty = t[q + 1:k]
        else:
            q = k
            ty = [t[k]]
        close = match(t, e - 1)
        arg = strip(t[e:close])
        if arg and arg[-1] == ',':
            arg = strip(arg[:-1])
        idx = [i for i in range(len(arg)) if not arg[i].isspace()]
        if [arg[i] for i in idx[-len(tail):]] != tail:
            raise Lost('from_le_bytes argument')
        core = arg[:idx[-len(tail)]]
        t = t[:q] + toks('<') + ty + [' '] + toks('as LeBytes>::from_le(') + core + [')'] + t[close + 1:]
        log('T::from_le_bytes(E.try_into().unwrap()) -> trusted from_le(E)')

def rw_to_array(t, log):
    tail = norm('.try_into().unwrap()')
    while True:
        r = find_seq(t, tail)
        if not r:
            return t
        s, e = r[0]
        p = postfix_start(t, s)
        t = t[:p] + toks('slice_to_array(') + strip(t[p:s]) + toks(')') + t[e:]
        log('E.try_into().unwrap() -> trusted slice_to_array(E)')

def rw_size_of(t, log):
    out, i = [], 0
    while i < len(t):
        if t[i] == 'size_of' and norm(t[i + 1:i + 4])[:2] == ['::', '<']:
            out.append('le_size')
            log('size_of::<T>() of a number -> trusted le_size::<T>()')
        else:
            out.append(t[i])
        i += 1
    return out

def rw_chunks_zip(t, log):
    """for (A, B) in X.chunks_exact[_mut](E).zip(Y.iter[_mut]()) { BODY } -> index loop"""
    n = 0
    i = 0
    while i < len(t):
        if t[i] == 'for' and t[skipws(t, i + 1)] == '(':
            b = block_start(t, skipws(t, i + 1))
            h = strip(t[i + 1:b])
            pe = match(h, 0)
            names = [norm(x) for x in split_args(h[1:pe])]
            nh = norm(h[pe + 1:])
            m = None
            for ch, it in (('chunks_exact_mut', 'iter'), ('chunks_exact', 'iter_mut')):
                if ch in nh and nh[-1] == ')' and it in nh:
                    m = (ch, it)
                    break
            if m and nh[0] == 'in' and len(names) == 2 and all(len(x) == 1 for x in names):
                ch, it = m
                c = nh.index(ch)
                X = nh[1:c - 1]
                ce = match(nh, c + 1)
                E = nh[c + 2:ce]
                if nh[ce + 1:ce + 4] != ['.', 'zip', '('] or nh[-6:] != ['.', it, '(', ')', ')'][-6:] and nh[-5:] != ['.', it, '(', ')', ')']:
                    raise Lost('zip')
                Y = nh[ce + 4:-5]
                n += 1
                v = '__z%d' % n
                e = match(t, b)
                X, E, Y = ' '.join(X), ' '.join(E), ' '.join(Y)
                mx, my = ('mut ' if ch.endswith('_mut') else ''), ('mut ' if it == 'iter_mut' else '')
                t = t[:i] + toks('{ let mut %s: usize = 0; while %s < %s.len() / %s && %s < %s.len() { { let %s = &%s%s[%s * %s..(%s + 1) * %s]; let %s = &%s%s[%s]; ' % (v, v, X, E, v, Y, names[0][0], mx, X, v, E, v, E, names[1][0], my, Y, v)) \
                    + t[b + 1:e] + toks(' } %s = %s + 1; } }' % (v, v)) + t[e + 1:]
                log('for (a, b) in X.chunks_exact(E).zip(Y.iter()) -> index loop')
        i += 1
    return t

def rw_count_zeros(t, log):
    pat = ['.', 'iter', '(', ')', '.', 'map', '(', '|', '$v', '|', '$v', '.', 'count_zeros', '(', ')', ')', '.', 'sum', '::', '<', 'u32', '>', '(', ')']
    while True:
        r = next(find_norm(t, pat), None)
        if not r:
            return t
        s, e, b = r
        p = postfix_start(t, s)
        t = t[:p] + ['count_zero_bits', '(', '&'] + strip(t[p:s]) + [')'] + t[e:]
        log('X.iter().map(|v| v.count_zeros()).sum::<u32>() -> trusted count_zero_bits(&X)')

def rw_take_all(t, log):
    while True:
        r = next(find_norm(t, ['.', 'iter', '(', ')', '.', 'take', '(']), None)
        if not r:
            return t
        s, e, b = r
        close = match(t, e - 1)
        n = t[e:close]
        k = norm(t[close + 1:])[:6]
        if k[:3] != ['.', 'all', '('] or k[3] != '|' or k[5] != '|':
            raise Lost('iter().take()')
        q = skipws(t, close + 1)
        q = skipws(t, q + 1)
        q = skipws(t, q + 1)
        cl = match(t, q)
        inner = norm(t[q + 1:cl])
        v, body = inner[1], inner[3:]
        p = postfix_start(t, s)
        t = t[:p] + toks('slice_take_all(&') + strip(t[p:s]) + toks(', ') + n + toks(', |%s: &u8| -> (r: bool) ensures r == (%s) { %s })' % (v, ' '.join(body), ' '.join(body))) + t[cl + 1:]
        log('X.iter().take(n).all(closure) -> trusted slice_take_all(&X, n, closure)')

MODES = {'true': ('all', 'Skip::All'), 'false': ('none', 'Skip::None'), 'header . crc . is_none ( )': ('erased', 'Skip::Erased')}

def closure_of(a):
    """normalized tokens `|a, b| body` -> (a, b, body)"""
    bar2 = a.index('|', 1)
    ps = [x for x in a[1:bar2] if x != ',']
    body = a[bar2 + 1:]
    if body and body[-1] == ',':
        body = body[:-1]
    if len(ps) != 2:
        raise Lost('closure of traverse')
    # canonical parameter names
    if ps[0] != '_':
        body = ['header' if x == ps[0] else x for x in body]
    if ps[1] != '_' and ps[1] in body:
        raise Lost('closure of traverse uses the address')
    if body and body[0] == '{' and body[-1] == '}':
        body = body[1:-1]
    return body

def rw_traverse(t, log):
    """a call of the generic traverse with a closure literal -> call of the copy of traverse with that closure inlined"""
    while True:
        r = find_seq(t, ['.', 'traverse', '('])
        if not r:
            return t
        s, e = r[0]
        close = match(t, e - 1)
        a = norm(t[e:close])
        if '|' not in a:
            raise Lost('traverse without a closure literal')
        bar = a.index('|')
        body = ' '.join(closure_of(a[bar:]))
        if body not in MODES:
            raise Lost('traverse with an unknown closure: ' + body)
        pre = a[:bar]
        while pre and pre[-1] == ',':
            pre = pre[:-1]
        t = t[:s] + ['.', 'traverse_' + MODES[body][0], '('] + toks(' '.join(pre).replace('& mut', '&mut ')) + [')'] + t[close + 1:]
        log('traverse(flash, closure) -> the copy of traverse with the closure inlined')

def rw_get_pages(t, log):
    n = 0
    while True:
        r = next(find_norm(t, ['.', 'get_pages', '(']), None)
        if not r:
            return t
        s, e, b = r
        close = match(t, e - 1)
        arg = t[e:close]
        p = postfix_start(t, s)
        recv = strip(t[p:s])
        after = norm(t[close + 1:])
        if after[:4] == ['.', 'count', '(', ')']:
            q = find_seq(t[close + 1:], ['.', 'count', '(', ')'])[0][1] + close + 1
            t = t[:p] + recv + toks('.get_pages_len(') + arg + [')'] + t[q:]
            log('get_pages(x).count() -> get_pages_len(x)')
            continue
        # for PAT in recv.get_pages(arg) {
        k = p - 1
        while t[k].isspace():
            k -= 1
        if t[k] != 'in' or after[0] != '{':
            raise Lost('use of get_pages')
        f = k
        while t[f] != 'for':
            f -= 1
        pat = strip(t[f + 1:k])
        if len(norm(pat)) != 1:
            raise Lost('loop pattern of get_pages')
        br = skipws(t, close + 1)
        end = match(t, br)
        body = t[br + 1:end]
        n += 1
        v = '__%d' % n
        t = t[:f] + toks('{ let start%s: usize = ' % v) + arg + toks('; let count%s: usize = ' % v) + recv + toks('.get_pages_len(start%s); let mut i%s: usize = 0; while i%s < count%s { let ' % (v, v, v, v)) + pat \
            + toks(': usize = ') + recv + toks('.get_pages_at(start%s, i%s); i%s = i%s + 1; ' % (v, v, v, v)) + body + toks('} }') + t[end + 1:]
        log('for x in get_pages(y) -> while loop over get_pages_len/get_pages_at')

def tail_into_loop(t, l, var, k, b, end, i):
    """what follows the loop moves to its only break"""
    outer = strip(t)[0] == '{' and match(t, skipws(t, 0)) == len(t) - 1
    if t[:l].count('{') != t[:l].count('}') + outer:
        raise Lost('break with value in an inner block')
    last = len(t) - outer
    semi = skipws(t, end + 1)
    rest = t[semi + 1:last]
    # the last statement of the rest is its value
    cut = 0
    j = 0
    while j < len(rest):
        if rest[j] in OPEN:
            j = match(rest, j)
        elif rest[j] == ';':
            cut = j + 1
        j += 1
    if not strip(rest[cut:]):
        raise Lost('break with value: nothing follows')
    used = set(x for x in rest if re.match(r'[a-z_]\w*$', x)) - {var}
    j = b
    while j < end:
        if t[j] == 'let':
            e = j
            while t[e] not in ('=', ';'):
                e = match(t, e) + 1 if t[e] in OPEN else e + 1
            if used & set(t[j + 1:e]):
                raise Lost('break with value: names clash')
        j += 1
    j = i
    while t[j] != ';':
        j = match(t, j) + 1 if t[j] in OPEN else j + 1
    new = toks('{ let %s =' % var) + t[i + 1:j] + toks(';') + rest[:cut] + toks(' return ') + strip(rest[cut:]) + toks('; }')
    return t[:l] + t[k:i] + new + t[j + 1:end + 1] + toks('\n') + t[last:]

def rw_break_value(t, log):
    """`let V = loop { .. break E; .. };` and tail `loop { .. break E; .. }`"""
    while True:
        done = True
        for (k, b) in find_loops(t):
            if t[k] != 'loop':
                continue
            end = match(t, b)
            # find `break E` at this loop's level
            inner = find_loops(t[b + 1:end])
            ranges = [(x + b + 1, match(t, y + b + 1)) for (x, y) in inner]
            br = [i for i in range(b + 1, end) if t[i] == 'break' and not any(x <= i <= y for x, y in ranges)]
            br = [i for i in br if t[skipws(t, i + 1)] not in (';', ',', '}') and not t[skipws(t, i + 1)].startswith("'")]
            if not br:
                continue
            p = k - 1
            while p >= 0 and t[p].isspace():
                p -= 1
            if p >= 0 and t[p] == '=':
                q = p - 1
                while t[q].isspace():
                    q -= 1
                var = t[q]
                l = q - 1
                while t[l].isspace():
                    l -= 1
                if t[l] != 'let' or t[skipws(t, end + 1)] != ';':
                    raise Lost('break with value')
                if var in t[b:end] and len(br) == 1:
                    t = tail_into_loop(t, l, var, k, b, end, br[0])
                    log('let V = loop { .. break E; .. }; REST -> loop { .. { let V = E; return REST } .. }')
                    done = False
                    break
                for i in reversed(br):
                    j = i
                    while t[j] != ';':
                        j = match(t, j) + 1 if t[j] in OPEN else j + 1
                    t = t[:i] + toks('{ %s =' % var) + t[i + 1:j] + toks('; break; }') + t[j + 1:]
                t = t[:q] + toks(var + ' ; ') + t[k:]
                log('let V = loop { break E } -> let V; loop { V = E; break; }')
            else:
                if strip(t[end + 1:]) and not all(x in ('}', ',') or x.isspace() for x in t[end + 1:]):
                    raise Lost('break with value')
                for i in br:
                    t[i] = 'return'
                log('break E of a loop in tail position -> return E')
            done = False
            break
        if done:
            return t

def rw_labelled_block(t, log):
    i = 0
    while i < len(t):
        if t[i].startswith("'") and not t[i].endswith("'") and i + 1 < len(t) and t[i + 1] == ':':
            k = skipws(t, i + 2)
            if t[k] == '{':
                e = match(t, k)
                t = t[:k] + toks('loop ') + t[k:e] + toks(' break %s; ' % t[i]) + t[e:]
                log("labelled block -> labelled loop that ends with break")
        i += 1
    return t

def block_start(t, j):
    """index of the `{` that ends a condition/scrutinee starting at j"""
    while t[j] != '{':
        j = match(t, j) + 1 if t[j] in ('(', '[') else j + 1
    return j

def rw_let_chain(t, log):
    """if let P = E && C { A } else B -> match E { P if C => { A } _ => { B } }"""
    i = 0
    while i < len(t):
        if t[i] == 'if' and t[skipws(t, i + 1)] == 'let':
            k = skipws(t, i + 1)
            b = block_start(t, k)
            cond = t[k + 1:b]
            d, amp, eq = 0, None, None
            j = 0
            while j < len(cond):
                if cond[j] in ('(', '[', '{'):
                    j = match(cond, j) + 1
                    continue
                if cond[j] == '=' and eq is None:
                    eq = j
                if cond[j] == '&&' and amp is None:
                    amp = j
                j += 1
            if amp is None:
                i += 1
                continue
            if 'let' in cond[amp:]:
                raise Lost('let chain')
            e = match(t, b)
            n = skipws(t, e + 1)
            end = e + 1
            rest = []
            if n < len(t) and t[n] == 'else':
                q = skipws(t, n + 1)
                f = q
                while True:
                    f = match(t, block_start(t, f)) + 1
                    m = skipws(t, f)
                    if m < len(t) and t[m] == 'else':
                        f = m + 1
                        continue
                    break
                rest = t[q:f]
                end = f
            t = t[:i] + toks('{ match ') + cond[eq + 1:amp] + toks(' { ') + cond[:eq] + toks(' if ') + cond[amp + 1:] + toks(' => ') + t[b:e + 1] + toks(' _ => { ') + rest + toks(' } } }') + t[end:]
            log('if let P = E && C {A} else B -> match E { P if C => A, _ => B }')
            continue
        i += 1
    return t

def rw_for_iter_mut(t, log):
    """for X in E.iter_mut() { B } -> index loop"""
    n = 0
    i = 0
    while i < len(t):
        if t[i] == 'for' and t[skipws(t, i + 1)] != '<':
            b = block_start(t, i)
            h = t[i + 1:b]
            nh = norm(h)
            if nh[-4:] == ['.', 'iter_mut', '(', ')'] and 'in' in h and len(norm(h[:h.index('in')])) == 1:
                k = h.index('in')
                var = norm(h)[0]
                r = find_seq(h, ['.', 'iter_mut', '(', ')'])[-1]
                recv = h[k + 1:r[0]]
                e = match(t, b)
                n += 1
                v = '__m%d' % n
                t = t[:i] + toks('{ let mut %s: usize = 0; while %s < ' % (v, v)) + recv + toks('.len() { { let %s = &mut ' % var) + recv + toks('[%s]; ' % v) + t[b + 1:e] + toks(' } %s = %s + 1; } }' % (v, v)) + t[e + 1:]
                log('for x in E.iter_mut() -> index loop')
        i += 1
    return t

def rw_for_ref_pat(t, log):
    """for &X in NAME { B } -> index loop with X by value"""
    n = 0
    i = 0
    while i < len(t):
        if t[i] == 'for' and t[skipws(t, i + 1)] != '<':
            b = block_start(t, i)
            nh = norm(t[i + 1:b])
            if len(nh) == 4 and nh[0] == '&' and nh[2] == 'in' and re.match(r'[A-Za-z_]\w*$', nh[3]):
                e = match(t, b)
                n += 1
                v = '__v%d' % n
                t = t[:i] + toks('{ let mut %s: usize = 0; while %s < %s.len() { { let %s = %s[%s]; ' % (v, v, nh[3], nh[1], nh[3], v)) + t[b + 1:e] + toks(' } %s = %s + 1; } }' % (v, v)) + t[e + 1:]
                log('for &x in NAME -> index loop')
        i += 1
    return t

def rw_q_map(t, log):
    """E?.map(|x| B) where E? is an Option -> match E? { Some(x) => Some(B), None => None }"""
    while True:
        r = next(find_norm(t, ['?', '.', 'map', '(', '|']), None)
        if not r:
            return t
        s, e, b = r
        op = s + norm_index(t[s:e], '(')
        close = match(t, op)
        pat, c = closure(t[op + 1:close])
        p = postfix_start(t, s)
        t = t[:p] + toks('(match ') + strip(t[p:s]) + toks('? { Some(%s) => Some(%s), None => None })' % (pat, c)) + t[close + 1:]
        log('E?.map(|x| B) of an Option -> match E? { Some(x) => Some(B), None => None }')

def rw_lock(t, log):
    """NAME.ring.lock(|r| B) -> a critical section on a copy of the ring: the copy is taken out by rt_acquire (what it then holds is only
    known up to what other threads may have done) and handed back by rt_release (which demands that what happened to it is allowed)"""
    n = 0
    while True:
        r = next(find_norm(t, ['.', 'lock', '(', '|']), None)
        if not r:
            break
        s, e, b = r
        op = s + norm_index(t[s:e], '(')
        close = match(t, op)
        pat, body = closure(t[op + 1:close])
        pat = pat.strip()
        body = toks(body)
        p = postfix_start(t, s)
        recv = text(t[p:s]).strip()
        # inside: r.borrow() and r.borrow_mut()
        for m, w in (('borrow', '(&__g)'), ('borrow_mut', '(&mut __g)')):
            for (a, z, _) in list(find_norm(body, [pat, '.', m, '(', ')']))[::-1]:
                body[a:z] = toks(w)
        if pat in norm(body):
            raise Lost('critical section uses its argument in another way')
        qs = [i for i, x in enumerate(body) if x == '?']
        if 'return' in body or len(qs) > 1:
            raise Lost('critical section with return or several ?')
        if qs:
            # { stmts; TAIL } where TAIL's first evaluated part is X?
            q = qs[0]
            a = postfix_start(body, q)
            d, k = 0, 0
            inner = strip(body)
            if inner[0] == '{' and match(inner, 0) == len(inner) - 1:
                inner = inner[1:-1]
            q = inner.index('?')
            a = postfix_start(inner, q)
            k, d = 0, 0
            i = 0
            while i < a:
                if inner[i] in OPEN and match(inner, i) < a:
                    i = match(inner, i)
                elif inner[i] == ';' and not any(inner[j] in OPEN and match(inner, j) > i for j in range(i)):
                    k = i + 1
                i += 1
            pre = norm(inner[k:a])
            if any(x not in ('Some', '(', '{', 'Ok') for x in pre) or ';' in inner[q:]:
                raise Lost('critical section with ? in the middle')
            body = toks('{ ') + inner[:k] + toks(' match ') + inner[a:q] + toks(' { None => None, Some(__q) => ') + inner[k:a] + toks('__q') + inner[q + 1:] + toks(' } }')
        n += 1
        t = t[:p] + toks('({ let mut __g = rt_acquire(&%s, Ghost(__last)); let ghost __a = __g; let __res = ' % recv) + body + toks('; proof { __last = Some(__g); } rt_release(&%s, __g, Ghost(__a), Ghost(__job)); __res })' % recv) + t[close + 1:]
    if n:
        log('X.lock(|r| B) -> critical section between rt_acquire and rt_release')
        t = toks('let ghost mut __last: Option<RamRing<N>> = None; let ghost mut __job: Job = Job::Read; ') + t
    return t

def rw_unwrap_or_else(t, log):
    """E.unwrap_or_else(|| D) -> match E { Some(v) => v, None => D }"""
    while True:
        r = next(find_norm(t, ['.', 'unwrap_or_else', '(', '||']), None)
        if not r:
            return t
        s, e, b = r
        op = s + norm_index(t[s:e], '(')
        close = match(t, op)
        d = t[e:close]
        p = postfix_start(t, s)
        t = t[:p] + toks('(match ') + strip(t[p:s]) + toks(' { Some(__v) => __v, None => ') + strip(d) + toks(' })') + t[close + 1:]
        log('E.unwrap_or_else(|| D) -> match E { Some(v) => v, None => D }')

def rw_map_pattern(t, log):
    """E.map(|(PAT)| B) -> match E { Ok((PAT)) => Ok(B), Err(e) => Err(e) }"""
    while True:
        r = next(find_norm(t, ['.', 'map', '(', '|', '(']), None)
        if not r:
            return t
        s, e, b = r
        op = s + norm_index(t[s:e], '(')
        close = match(t, op)
        pc = match(t, e - 1)
        q = skipws(t, pc + 1)
        if t[q] != '|':
            raise Lost('closure of map')
        p = postfix_start(t, s)
        t = t[:p] + toks('(match ') + strip(t[p:s]) + toks(' { Ok(') + t[e - 1:pc + 1] + toks(') => Ok(') + strip(t[q + 1:close]) + toks('), Err(__e) => Err(__e) })') + t[close + 1:]
        log('E.map(|(PAT)| B) -> match E { Ok((PAT)) => Ok(B), Err(e) => Err(e) }')

def rw_opt_map(t, log, head):
    """in a function that returns an Option: a tail expression E.map(|x| B) -> match E { Some(x) => Some(B), None => None }"""
    if norm(head)[:2] != ['Option', '<']:
        return t
    for r in list(find_norm(t, ['.', 'map', '(', '|']))[::-1]:
        s, e, b = r
        op = s + norm_index(t[s:e], '(')
        close = match(t, op)
        if any(x.strip() and x != '}' for x in t[close + 1:]):
            continue
        pat, body = closure(t[op + 1:close])
        p = s
        while p > 0 and t[p - 1] not in (';', '{', '}', '='):
            p -= 1
        if p and t[p - 1] != ';':
            continue
        t = t[:p] + toks('match ') + strip(t[p:s]) + toks(' { Some(' + pat + ') => Some(' + body + '), None => None }') + t[close + 1:]
        log('tail expression E.map(|x| B) of a function that returns an Option -> match E { Some(x) => Some(B), None => None }')
    return t

def chain_calls(t, i):
    """the method calls `.name(args)` that follow each other from index i: [(name, args, end)]"""
    out = []
    while True:
        k = skipws(t, i)
        if k >= len(t) or t[k] != '.':
            return out
        n = skipws(t, k + 1)
        q = skipws(t, n + 1)
        if q >= len(t) or t[q] != '(':
            return out
        e = match(t, q)
        out.append((t[n], t[q + 1:e], e + 1))
        i = e + 1

def closure(args):
    """|PAT| BODY -> (PAT, BODY)"""
    a = strip(args)
    if not a or a[0] != '|':
        raise Lost('closure expected')
    d, j = 0, 1
    while a[j] != '|':
        j = match(a, j) + 1 if a[j] in OPEN else j + 1
    return text(a[1:j]).strip(), text(a[j + 1:]).strip().rstrip(',')

def rw_is_some_and(t, log):
    """E.is_some_and(|P| C) -> match E { Some(P) => C, None => false }"""
    while True:
        r = next(find_norm(t, ['.', 'is_some_and', '(', '|']), None)
        if not r:
            return t
        s, e, b = r
        op = s + norm_index(t[s:e], '(')
        close = match(t, op)
        pat, c = closure(t[op + 1:close])
        p = postfix_start(t, s)
        t = t[:p] + toks('(match ') + strip(t[p:s]) + toks(' { Some(%s) => %s, None => false })' % (pat, c)) + t[close + 1:]
        log('E.is_some_and(|P| C) -> match E { Some(P) => C, None => false }')

def rw_find_chain(t, log):
    """searches over X.iter() / X.iter_mut() written as iterator chains -> index loops (index __f1, result __r1)"""
    n, i = 0, 0
    while i < len(t):
        if t[i] not in ('iter', 'iter_mut') or i == 0:
            i += 1
            continue
        dot = i - 1
        while dot > 0 and t[dot].isspace():
            dot -= 1
        if t[dot] != '.':
            i += 1
            continue
        cc = chain_calls(t, dot)
        names = [c[0] for c in cc]
        p = postfix_start(t, dot)
        X = text(strip(t[p:dot]))
        n1 = n + 1
        f, r = '__f%d' % n1, '__r%d' % n1
        new = None
        if names[:4] == ['iter', 'flatten', 'find', 'map']:
            P, C = closure(cc[2][1])
            P2, E = closure(cc[3][1])
            end = cc[3][2]
            new = '{ let mut %s = None; let mut %s: usize = 0; while %s < %s.len() && %s.is_none() { match %s[%s].as_ref() { Some(__e) => { let %s = __e; if %s { let %s = __e; %s = Some(%s); } } None => {} } %s = %s + 1; } %s }' % (r, f, f, X, r, X, f, P, C, P2, r, E, f, f, r)
            why = 'X.iter().flatten().find(|P| C).map(|Q| E) -> index loop'
        elif names[:5] == ['iter_mut', 'enumerate', 'filter_map', 'find', 'map']:
            IV, B = closure(cc[2][1])
            mm = re.match(r'\(\s*(\w+)\s*,\s*(\w+)\s*\)$', IV)
            if not mm:
                raise Lost('filter_map')
            I, V = mm.groups()
            bt = toks(B)
            if norm(bt)[:6] != [V, '.', 'as_mut', '(', ')', '.']:
                raise Lost('filter_map')
            c2 = chain_calls(bt, bt.index('.'))
            if [x[0] for x in c2] != ['as_mut', 'map']:
                raise Lost('filter_map')
            AB, TUP = closure(c2[1][1])
            P, C = closure(cc[3][1])
            P2, E = closure(cc[4][1])
            end = cc[4][2]
            new = ('{ let mut %s: Option<usize> = None; let mut %s: usize = 0; while %s < %s.len() && %s.is_none() { ' % (r, f, f, X, r)
                   + 'let __t = match %s[%s].as_ref() { Some(%s) => { let %s = %s; Some(%s) } None => None }; ' % (X, f, AB, I, f, TUP)
                   + 'match __t { Some(__t) => { let %s = &__t; if %s { %s = Some(%s); } } None => {} } %s = %s + 1; } ' % (P, C, r, f, f, f)
                   + 'match %s { Some(__i) => { let __t = match %s[__i].as_mut() { Some(%s) => { let %s = __i; Some(%s) } None => None }; match __t { Some(%s) => Some(%s), None => None } } None => None } }' % (r, X, AB, I, TUP, P2, E))
            why = 'X.iter_mut().enumerate().filter_map(..).find(|P| C).map(|Q| E) -> index loop with shared access, then one mutable access'
        elif names[:3] == ['iter_mut', 'enumerate', 'find']:
            P, C = closure(cc[2][1])
            end = cc[2][2]
            new = ('{ let mut %s: Option<usize> = None; let mut %s: usize = 0; while %s < %s.len() && %s.is_none() { ' % (r, f, f, X, r)
                   + 'let __t = (%s, &%s[%s]); let %s = &__t; if %s { %s = Some(%s); } %s = %s + 1; } ' % (f, X, f, P, C, r, f, f, f)
                   + 'match %s { Some(__i) => Some((__i, &mut %s[__i])), None => None } }' % (r, X))
            why = 'X.iter_mut().enumerate().find(|P| C) -> index loop with shared access, then one mutable access'
        elif names[:2] in (['iter', 'position'], ['iter_mut', 'position']):
            P, C = closure(cc[1][1])
            end = cc[1][2]
            new = '{ let mut %s: Option<usize> = None; let mut %s: usize = 0; while %s < %s.len() && %s.is_none() { let %s = &%s[%s]; if %s { %s = Some(%s); } %s = %s + 1; } %s }' % (r, f, f, X, r, P, X, f, C, r, f, f, f, r)
            why = 'X.iter().position(|P| C) -> index loop'
        if new is None:
            i += 1
            continue
        n = n1
        new = rw_is_some_and(toks(new), log)
        t = t[:p] + new + t[end:]
        log(why)
        i = p
        while i < len(t) and not (t[i] == r):
            i += 1
    return t

def norm_index(t, x):
    return t.index(x)

def rw_asserts(t, log):
    def a(args):
        c = split_args(args)[0]
        return toks('rt_assert(') + strip(c) + [')']
    t = macro_calls(t, 'assert', a, log)
    t = macro_calls(t, 'debug_assert', a, log)
    def ae(args):
        c = split_args(args)
        return toks('rt_assert(') + strip(c[0]) + toks(' == ') + strip(c[1]) + [')']
    t = macro_calls(t, 'assert_eq', ae, log)
    t = macro_calls(t, 'debug_assert_eq', ae, log)
    t = macro_calls(t, 'unreachable', lambda x: toks('rt_unreachable()'), log)
    t = macro_calls(t, 'panic', lambda x: toks('rt_unreachable()'), log)
    return t

def rw_cfg_macro(t, on, log):
    return macro_calls(t, 'cfg', lambda x: ['true' if cfg_eval(x, on) else 'false'], log)

def rw_local_const(t, log):
    out, i = [], 0
    while i < len(t):
        if t[i] == 'const' and re.match(r'[A-Z_]+$', t[skipws(t, i + 1)]):
            out.append('let')
            log('local const -> let')
        else:
            out.append(t[i])
        i += 1
    return out

def rw_name_iters(t, log):
    """`for P in E {` -> `for P in __itN: E {` (names the ghost iterator)"""
    n = 0
    while True:
        for (k, b) in find_loops(t):
            if t[k] != 'for':
                continue
            j = k + 1
            while t[j] != 'in':
                j = match(t, j) + 1 if t[j] in OPEN else j + 1
            q = skipws(t, j + 1)
            if t[q].startswith('__it'):
                continue
            t = t[:q] + ['__it%d' % n, ':', ' '] + t[q:]
            n += 1
            break
        else:
            return t

def rw_le_bytes(t, log):
    while True:
        r = find_seq(t, ['.', 'to_le_bytes', '('])
        if not r:
            return t
        s, e = r[0]
        t = t[:s] + ['.', 'le_bytes', '('] + t[e:]
        log('.to_le_bytes() -> trusted .le_bytes()')

def rw_flash_range_clone(t, log):
    while True:
        hit = None
        for pat in (['flash_range', '.', 'clone', '(', ')'], ['flash_range', '(', ')', '.', 'clone', '(', ')']):
            hit = next(find_norm(t, pat), None)
            if hit:
                break
        if not hit:
            return t
        s, e, b = hit
        dots = [i for i in range(s, e) if t[i] == '.']
        d = dots[-1]
        p = postfix_start(t, d)
        t = t[:p] + toks('range_clone(&') + strip(t[p:d]) + toks(')') + t[e:]
        log('flash_range.clone() -> range_clone(&flash_range)')

def rw_map_err(t, log):
    n = 0
    while True:
        hits = [h for h in find_norm(t, ['.', 'map_err', '(', '|', '$e', '|', 'Error', '::', 'Storage', '{'])]
        if not hits:
            return t
        s, e, b = hits[0]
        c = match(t, e - 1)
        v = b['$e']
        k = next(i for i in range(s, e) if t[i] == '|')
        t = t[:k] + toks('|%s: S::Error| -> (__er: Error<S::Error>) ensures __er is Storage { Error::Storage {' % v) + t[e:c + 1] + toks(' }') + t[c + 1:]
        log('closure |e| Error::Storage {..}: result annotated')

def rw_res_combinators(t, log):
    """.map_err(Path) / .ok_or_else(|| B) -> match"""
    while True:
        hit = next((h for h in find_norm(t, ['.', 'map_err', '(']) if '|' not in t[h[1]:match(t, h[1] - 1)]), None)
        if not hit:
            break
        s, e, _ = hit
        c = match(t, e - 1)
        p = postfix_start(t, s)
        t = t[:p] + toks('(match ') + strip(t[p:s]) + toks(' { Ok(__v) => Ok(__v), Err(__e) => Err(') + t[e:c] + toks('(__e)) })') + t[c + 1:]
        log('E.map_err(Path) -> match E { Ok(v) => Ok(v), Err(e) => Err(Path(e)) }')
    while True:
        hit = next(find_norm(t, ['.', 'ok_or_else', '(', '|', '|']), None) or next(find_norm(t, ['.', 'ok_or_else', '(', '||']), None)
        if not hit:
            break
        s, e, _ = hit
        op = s + norm_index(t[s:e], '(')
        c = match(t, op)
        p = postfix_start(t, s)
        t = t[:p] + toks('(match ') + strip(t[p:s]) + toks(' { Some(__v) => Ok(__v), None => Err(') + t[e:c] + toks(') })') + t[c + 1:]
        log('E.ok_or_else(|| B) -> match E { Some(v) => Ok(v), None => Err(B) }')
    return t

def rw_crc_eq(t, log):
    while True:
        hit = next(find_norm(t, ['.', 'crc', '==', 'Some', '(']), None)
        if not hit:
            return t
        s, e, b = hit
        p = postfix_start(t, s)
        c = match(t, e - 1)
        t = t[:p] + toks('opt_nz_eq(') + strip(t[p:s]) + toks('.crc, Some(') + t[e:c] + toks('))') + t[c + 1:]
        log('X.crc == Some(Y) -> opt_nz_eq(X.crc, Some(Y))')

def rw_subst(t, rules, log):
    for a, b, why in rules:
        pat = norm(a)
        for s, e in reversed(find_seq(t, pat)):
            if b.startswith(a) and norm(''.join(t[e:]))[:2] == norm(b[len(a):])[:2]:
                continue
            t = t[:s] + toks(b) + t[e:]
            log(why)
    return t

SUBST = [
    ('::<dyn Value>', '::<V>', 'trait object type argument -> the generic parameter'),
    ('% page_count', '% page_count.get()', '% NonZeroUsize -> % .get()'),
    ('NonZero::get', 'NonZeroU32::get', 'NonZero::get -> NonZeroU32::get'),
]

def rewrite_body(t, on, log):
    t = strip_attrs(t, on, False)
    t = drop_await(t, log)
    t = macro_calls(t, 'run_with_auto_repair', expand_repair, log)
    t = drop_paths(t, log)
    t = rw_cfg_macro(t, on, log)
    t = rw_asserts(t, log)
    t = rw_local_const(t, log)
    t = rw_from_le(t, log)
    t = rw_from_le_generic(t, log)
    t = rw_to_array(t, log)
    t = rw_size_of(t, log)
    t = rw_chunks_zip(t, log)
    t = rw_count_zeros(t, log)
    t = rw_take_all(t, log)
    t = rw_traverse(t, log)
    t = rw_get_pages(t, log)
    t = rw_let_chain(t, log)
    t = rw_for_iter_mut(t, log)
    t = rw_for_ref_pat(t, log)
    t = rw_q_map(t, log)
    t = rw_find_chain(t, log)
    t = rw_is_some_and(t, log)
    t = rw_unwrap_or_else(t, log)
    t = rw_map_pattern(t, log)
    t = rw_break_value(t, log)
    t = rw_labelled_block(t, log)
    t = rw_lock(t, log)
    t = rw_le_bytes(t, log)
    t = rw_flash_range_clone(t, log)
    t = rw_crc_eq(t, log)
    t = rw_map_err(t, log)
    t = rw_res_combinators(t, log)
    t = rw_name_iters(t, log)
    t = rw_subst(t, SUBST, log)
    return t

# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(s, name):
        s.name, s.props, s.ret, s.spec, s.loops, s.at, s.after = name, [], 'r', '', {}, [], []
        s.bodies = {}
        s.trusted = False
        s.attrs = ''
        s.loopkinds = None
        s.pre = ''

def read_contracts(paths):
    """-> contracts, raw text blocks, drops, trait/impl insertions"""
    cs, raw, drops, ins = {}, [], {}, {}
    for p in paths:
        cur, sink = None, None
        for line in open(p):
            if line.startswith('# ') or line == '#\n':
                continue
            m = re.match(r'@(\w+)\s*(.*)', line)
            if not m:
                if sink is None:
                    if line.strip() and not line.startswith('#'):
                        raise Exception('%s: stray %r' % (p, line))
                    continue
                sink.append(line)
                continue
            d, rest = m.group(1), m.group(2).strip()
            if d == 'fn':
                w = rest.split()
                cur = Contract(w[0])
                for x in w[1:]:
                    if x.startswith('props='):
                        cur.props = x[6:].split(',')
                    elif x.startswith('ret='):
                        cur.ret = x[4:]
                    elif x == 'trusted':
                        cur.trusted = True
                    elif x.startswith('attr='):
                        cur.attrs += '#[%s]\n' % x[5:]
                    else:
                        raise Exception('%s: %r' % (p, line))
                if w[0] in cs:
                    raise Exception('two contracts for ' + w[0])
                cs[w[0]] = cur
                sink = cur.spec = []
            elif d == 'loop':
                sink = cur.loops.setdefault(int(rest), [])
            elif d == 'body':
                sink = cur.bodies.setdefault(int(rest), [])
            elif d == 'start':
                sink = cur.pre = []
            elif d in ('before', 'after'):
                mm = re.match(r'`(.*)`(?:\s+n=(\d+))?(\s+optional)?$', rest)
                sink = []
                (cur.at if d == 'before' else cur.after).append((mm.group(1), int(mm.group(2) or 0), sink, bool(mm.group(3))))
            elif d == 'raw':
                sink = []
                raw.append(sink)
            elif d == 'drop':
                n, _, why = rest.partition(' -- ')
                drops[n.strip()] = why
                sink = None
            elif d == 'end':
                sink = None
            elif d == 'insert':
                sink = ins.setdefault(rest, [])
            else:
                raise Exception('%s: unknown directive %s' % (p, d))
    return cs, raw, drops, ins

def splice_body(name, body, c, log):
    """insert loop specs and proof text into a body"""
    inserts = []     # (position, text)
    loops = find_loops(body)
    for n, txt in c.loops.items():
        if n >= len(loops):
            raise Lost('%s: loop %d is gone' % (name, n))
        inserts.append((loops[n][1], '\n' + ''.join(txt)))
    for n, txt in c.bodies.items():
        inserts.append((loops[n][1] + 1, '\n' + ''.join(txt)))
    if c.loops and len(loops) != len(c.loops):
        raise Lost('%s: has %d loops, contract knows %d' % (name, len(loops), len(c.loops)))
    if not c.loops and loops and not c.trusted and c.name:
        raise Lost('%s: loop without invariant' % name)
    if c.pre:
        inserts.append((0, ''.join(c.pre)))
    for lst, after in ((c.at, False), (c.after, True)):
        for pat, n, txt, optional in lst:
            r = find_seq(body, norm(pat))
            if n >= len(r):
                if optional:
                    continue
                raise Lost('%s: anchor `%s` is gone' % (name, pat))
            s, e = r[n]
            inserts.append((e if after else s, ''.join(txt)))
    out = body
    for pos, txt in sorted(inserts, key=lambda x: -x[0]):
        out = out[:pos] + ['\n' + txt] + out[pos:]
    return out

# ---------------------------------------------------------------- emission
class Out:
    def __init__(s):
        s.lines = []
        s.n = 1
        s.fnspan = []     # (first line, last line, function name)
        s.lost = {}       # functions whose body could not be brought under its contract -> why
        s.force_lost, s.force_nospec, s.vacuity = set(), set(), False
    def put(s, txt):
        s.lines.append(txt)
        s.n += txt.count('\n')

def render_type_item(it, on):
    head = drop_vis(drop_paths(strip_attrs(it.head, on, True), lambda x: None))
    txt = text(head).strip()
    derive = ''
    m = re.match(r'#\[derive\(([^)]*)\)\]\s*', txt)
    ds = []
    if m:
        ds = [x for x in re.split(r'[ ,]+', m.group(1)) if x]
        txt = txt[m.end():]
    if it.kind == 'enum':
        body = strip_attrs(it.body, on, True)
        fieldless = not any(x in ('(', '{') for x in body)
        if fieldless and 'PartialEq' in ds and 'Eq' in ds:
            ds = ['Structural'] + ds
        elif not fieldless:
            ds = [d for d in ds if d not in ('PartialEq', 'Eq')]
        d = '#[derive(%s)]\n' % ', '.join(ds) if ds else ''
        return d + 'pub ' + txt + ' {' + text(drop_paths(body, lambda x: None)) + '}\n'
    ds = [d for d in ds if d not in ('PartialEq', 'Eq')]
    d = '#[derive(%s)]\n' % ', '.join(ds) if ds else ''
    if it.body is None:
        # tuple or unit struct
        txt = re.sub(r'\(\s*', '(pub ', txt, count=1) if '(' in txt else txt
        return d + 'pub ' + txt + ';\n'
    body = drop_vis(drop_paths(strip_attrs(it.body, on, True), lambda x: None))
    fields, cur, depth, i = [], [], 0, 0
    while i < len(body):
        x = body[i]
        if x in OPEN:
            e = match(body, i)
            cur += body[i:e + 1]
            i = e + 1
            continue
        if x == '<': depth += 1
        if x == '>': depth -= 1
        if x == ',' and depth == 0:
            fields.append(cur)
            cur = []
        else:
            cur.append(x)
        i += 1
    fields.append(cur)
    fs = ['    pub ' + text(strip(f)) + ',\n' for f in fields if norm(f)]
    return d + 'pub ' + txt + ' {\n' + ''.join(fs) + '}\n'

def render_fn(it, name, c, on, log, pub, out, spec_only):
    head = strip_attrs(it.head, on, True)
    head = drop_vis(drop_paths(head, log))
    h = [x for x in head if x not in ('async',)]
    # const fn -> fn
    i = skipws(h, 0)
    if h[i] == 'const' :
        h = h[i + 1:]
    h = strip(h)
    txt = text(h)
    # split off where clause and return type
    n = norm(h)
    # find parameter list
    k = h.index('fn')
    k = skipws(h, k + 1) + 1
    k = skipws(h, k)
    if h[k] == '<':
        k = skipws(h, generic_end(h, k))
    close = match(h, k)
    mutself = False
    q = skipws(h, k + 1)
    if h[q] == 'mut' and h[skipws(h, q + 1)] == 'self':
        mutself = True
        h = h[:q] + h[q + 1:]
        close -= 1
        log('`mut self` -> `let mut __self = self`')
    sig = text(h[:close + 1])
    rest = strip(h[close + 1:])
    ret, where = [], []
    d = 0
    for j, x in enumerate(rest):
        if x == 'where':
            where = rest[j:]
            rest = rest[:j]
            break
    rest = strip(rest)
    if rest and rest[0] == '->':
        ret = strip(rest[1:])
        r = norm(ret)
        if r[:2] == ['impl', 'Future']:
            # impl Future<Output = T> -> T
            a = ret.index('=')
            b = len(ret) - 1
            while ret[b] != '>':
                b -= 1
            ret = strip(ret[a + 1:b])
            log('impl Future<Output = T> -> T')
    rn = c.ret if c else 'r'
    trusted = bool(c and c.trusted)
    if it.body is None:
        tail = ';\n'
    elif name in out.force_lost or trusted:
        trusted = True
    else:
        try:
            body = rewrite_body(it.body, on, log)
            body = rw_opt_map(body, log, ret)
            if mutself:
                body = toks(' let mut __self = self; ') + ['__self' if x == 'self' else x for x in body]
            if c and not trusted:
                body = splice_body(name, body, c, log)
            tail = '{' + text(body) + '}\n'
        except Lost as e:
            out.lost[name] = str(e)
            trusted = True
    if it.body is not None and (trusted or out.vacuity):
        tail = '{ unimplemented!() }\n' if trusted else '{ proof { assert(false); /*vacuity*/ } vac_any() }\n'
    s = ('pub ' if pub else '') + sig + (' -> (%s: %s)' % (rn, text(ret)) if ret else '')
    if where:
        s += '\n    ' + text(where)
    first = out.n
    pre = ''
    if trusted:
        pre = '#[verifier::external_body]\n'
    elif it.body is not None and not out.vacuity and any(x in ('loop', 'while', 'for') for x in body):
        pre = '#[verifier::loop_isolation(false)]\n'
    if c and c.attrs:
        pre += c.attrs
    out.put(pre + s + '\n')
    if c and c.spec and name not in out.force_nospec:
        out.put(''.join(c.spec))
    out.put(tail)
    out.fnspan.append((first, out.n, name))
    out.put('\n')

def all_fns(items, prefix=None):
    pass

FEATURES = {'alloc', 'feature_alloc'}

def extract(src_dir, files, contracts, on=('alloc', 'shared-ram-ring'), force_lost=(), force_nospec=(), vacuity=False, modhead=None):
    """-> (text, meta). meta: functions with spans, rewrites logged, unknown functions, dropped items"""
    cs, raw, drops, ins = contracts
    out = Out()
    out.force_lost, out.force_nospec, out.vacuity = set(force_lost), set(force_nospec), vacuity
    meta = {'rewrites': {}, 'dropped': [], 'nocontract': [], 'functions': [], 'missing': []}
    seen = set()
    inserted = set()
    def logger(fn):
        def log(x):
            meta['rewrites'].setdefault(x, set()).add(fn)
        return log
    def dropped(n):
        if n in drops:
            meta['dropped'].append(n)
            return True
        for d in drops:
            if d.endswith('*') and n.startswith(d[:-1]):
                meta['dropped'].append(n)
                return True
        return False
    def do_fn(f, name, pub, spec_only=False):
        if dropped(name):
            return
        c = subst_c(cs.get(name))
        seen.add(name)
        if c is None:
            meta['nocontract'].append(name)
        meta['functions'].append(name)
        if name == 'GenericStorage::get_pages':
            return do_get_pages(f, name)
        if name == 'ItemHeaderIter::traverse':
            return do_traverse(f, name)
        render_fn(f, name, c, on, logger(name), pub, out, spec_only)
    def do_traverse(f, name):
        c = cs.get(name)
        if c is None:
            raise Lost('no contract for ' + name)
        # parameter `callback: impl Fn(&ItemHeader, u32) -> bool`
        h = drop_vis(f.head)
        j = len(h) - 1
        k = h.index('(')
        # generics have no parentheses here
        close = match(h, k)
        params = split_args(h[k + 1:close])
        cb = [p for p in params if 'Fn' in p]
        if len(cb) != 1 or norm(cb[0])[2:] != norm('impl Fn(&ItemHeader, u32) -> bool'):
            raise Lost('callback parameter of traverse')
        cbname = norm(cb[0])[0]
        params = [p for p in params if 'Fn' not in p]
        ps = []
        for p in params:
            ps += p + [',']
        for bodytext, (suf, mode) in MODES.items():
            hh = h[:k + 1] + ps + h[close:]
            nm = hh.index('traverse')
            hh = hh[:nm] + ['traverse_' + suf] + hh[nm + 1:]
            b = f.body
            b2 = []
            i = 0
            n = 0
            while i < len(b):
                if b[i] == cbname:
                    q = skipws(b, i + 1)
                    if b[q] != '(':
                        raise Lost('use of the callback of traverse')
                    e = match(b, q)
                    args = split_args(b[q + 1:e])
                    b2 += toks('{ let header: &ItemHeader = ') + args[0] + toks('; let _address: u32 = ') + args[1] + toks('; ' + bodytext + ' }')
                    i = e + 1
                    n += 1
                    continue
                b2.append(b[i])
                i += 1
            cc = Contract(name)
            cc.__dict__.update(c.__dict__)
            sub = lambda xs: [x.replace('MODE', mode) for x in xs]
            cc.spec = sub(c.spec)
            cc.loops = {k2: sub(v) for k2, v in c.loops.items()}
            cc.bodies = {k2: sub(v) for k2, v in c.bodies.items()}
            cc.pre = sub(c.pre)
            cc.at = [(p, n2, sub(x), o) for p, n2, x, o in c.at]
            cc.after = [(p, n2, sub(x), o) for p, n2, x, o in c.after]
            it = Item('fn', 'traverse_' + suf, hh, b2)
            render_fn(it, name, cc, on, logger(name), True, out, False)
        logger(name)('generic traverse -> one copy per closure')
    def do_get_pages(f, name):
        body = rewrite_body(f.body, on, logger(name))
        b = norm(body)
        # let page_count = E ; ( 0 .. N ) . map ( move | index | BODY )
        k = None
        for i in range(len(b) - 1):
            if b[i] == '(' and b[i + 1] == '0' and b[i + 2] == '..':
                k = i
        if k is None:
            raise Lost('get_pages is not (0..n).map(..)')
        e = match(b, k)
        pre, cnt = b[:k], b[k + 3:e]
        tail = b[e + 1:]
        if tail[:4] != ['.', 'map', '(', 'move'] or tail[4] != '|' or tail[6] != '|':
            raise Lost('get_pages is not (0..n).map(..)')
        m = match(tail, 2)
        if tail[m + 1:]:
            raise Lost('get_pages is not (0..n).map(..)')
        idx, bod = tail[5], tail[7:m]
        h = drop_vis(strip_attrs(f.head, on, True))
        j = h.index('(')
        params = norm(h[j + 1:match(h, j)])
        p = ' '.join(params).rstrip(',').strip()
        for suf, extra, expr in (('_len', '', cnt), ('_at', ', %s: usize' % idx, bod)):
            c = cs.get(name + suf)
            if c is None:
                raise Lost('no contract for ' + name + suf)
            seen.add(name + suf)
            first = out.n
            out.put('pub fn get_pages%s(%s%s) -> (r: usize)\n' % (suf, p, extra) + ''.join(c.spec) + '{ ' + ''.join(c.pre) + ' '.join(pre) + ' ' + ' '.join(expr) + ' }\n')
            out.fnspan.append((first, out.n, name))
        logger(name)('(0..N).map(move |index| BODY) -> get_pages_len = N and get_pages_at(index) = BODY')
    out.put(''.join(''.join(x) for x in raw[:0]))
    types, rest = [], []
    macros = {}
    ctx = {'var': None, 'ty': None}
    def subst_c(c):
        if ctx['var'] is None or c is None:
            return c
        f = lambda xs: [x.replace('$' + ctx['var'], ctx['ty']) for x in xs]
        cc = Contract(c.name)
        cc.__dict__.update(c.__dict__)
        cc.spec, cc.pre = f(c.spec), f(c.pre)
        cc.loops = {k: f(v) for k, v in c.loops.items()}
        cc.bodies = {k: f(v) for k, v in c.bodies.items()}
        cc.at = [(p, n, f(x), o) for p, n, x, o in c.at]
        cc.after = [(p, n, f(x), o) for p, n, x, o in c.after]
        return cc
    def expansions(items):
        """items with the impl macros of one type argument expanded; sets ctx"""
        for it in items:
            if it.kind == 'macro_rules':
                b = norm(it.body)
                if b[:7] and b[0] == '(' and b[1] == '$' and b[3:6] == [':', 'ty', ')'] and b[6] == '=>':
                    body = it.body
                    k = body.index('=>')
                    k = skipws(body, k + 1)
                    macros[it.name] = (b[2], body[k + 1:match(body, k)])
                yield it
                continue
            h = norm(it.head)
            if it.kind is None and len(h) >= 4 and h[0] in macros and h[1] == '!' and h[2] == '(':
                var, body = macros[h[0]]
                ty = ''.join(h[3:-1])
                b, i = [], 0
                while i < len(body):
                    if body[i] == '$' and body[i + 1] == var:
                        b.append(ty)
                        i += 2
                    else:
                        b.append(body[i])
                        i += 1
                ctx['var'], ctx['ty'] = var, ty
                for x in parse_items(strip_attrs(b, on, True)):
                    yield x
                ctx['var'] = ctx['ty'] = None
                continue
            yield it
    def alias(nm):
        """name of an impl inside a macro: with the macro variable instead of its value"""
        if ctx['var'] is None:
            return nm
        return re.sub(r'(^|\[)%s(?=;|::|$)' % re.escape(ctx['ty']), lambda m: m.group(1) + '$' + ctx['var'], nm)
    for fn in files:
        src = open(os.path.join(src_dir, fn)).read()
        if modhead:
            out.put(modhead(fn))
        t = toks(src)
        t = strip_attrs(t, on, True)
        for it in expansions(parse_items(t)):
            k = it.kind
            if k in ('use', 'extern', 'mod', 'static'):
                continue
            if k == 'macro_rules':
                if it.name == 'run_with_auto_repair':
                    check_repair_def(it.body, on)
                continue
            if k in ('struct', 'enum'):
                if not dropped(it.name):
                    out.put(render_type_item(it, on))
                continue
            if k == 'const':
                nm = it.name
                if not dropped(nm):
                    out.put('pub ' + text(drop_vis(drop_paths(it.head, lambda x: None))).strip() + ';\n')
                continue
            if k == 'fn':
                do_fn(it, it.name, True)
                continue
            if k == 'trait':
                if dropped(it.name):
                    continue
                h = text(drop_vis(drop_paths(it.head, lambda x: None))).strip()
                h = re.sub(r'\+\s*Debug\b', '', h)
                key = 'trait ' + it.name
                if key + ' super' in ins:
                    h = h + ' ' + ''.join(ins[key + ' super']).strip()
                out.put('pub ' + h + ' {\n' + ''.join(ins.get(key, [])))
                for f in it.items:
                    if f.kind == 'fn':
                        do_fn(f, it.name + '::' + f.name, False)
                    else:
                        out.put(text(f.head) + ';\n')
                out.put('}\n\n')
                continue
            if k == 'impl':
                ty, tr = impl_name(it.head)
                nm = alias(ty + ('::' + tr if tr else ''))
                if tr and tr not in ('Deref', 'DerefMut', 'From') and dropped('impl ' + nm):
                    continue
                if dropped('impl ' + nm):
                    continue
                h = text(drop_paths(it.head, lambda x: None)).strip()
                if tr == 'NorFlashExt':
                    # the const block becomes the body of a function
                    blk = [f for f in it.items if f.kind == 'const'][0]
                    b = blk.head[blk.head.index('=') + 1:]
                    b = rw_subst(drop_paths(b, lambda x: None), [('Self::', 'S::', 'Self -> S')], logger('NorFlashExt::WORD_SIZE'))
                    c = cs.get('NorFlashExt::WORD_SIZE')
                    if c is None:
                        raise Lost('NorFlashExt')
                    seen.add('NorFlashExt::WORD_SIZE')
                    first = out.n
                    out.put('pub fn norflashext_word_size<S: NorFlash>() -> (r: usize)\n' + ''.join(c.spec) + text(strip(b)) + '\n')
                    out.fnspan.append((first, out.n, 'NorFlashExt::WORD_SIZE'))
                    logger('NorFlashExt::WORD_SIZE')('associated const block -> body of a function')
                    meta['functions'].append('NorFlashExt::WORD_SIZE')
                    continue
                out.put(h + ' {\n' + ('' if 'impl ' + nm in inserted and ctx['var'] is None else ''.join(x.replace('$' + (ctx['var'] or '$$'), ctx['ty'] or '') for x in ins.get('impl ' + nm, []))))
                inserted.add('impl ' + nm)
                for f in it.items:
                    if f.kind == 'fn':
                        do_fn(f, nm + '::' + f.name, tr is None)
                    elif f.kind == 'const':
                        out.put(('' if tr else 'pub ') + text(drop_vis(f.head)).strip() + ';\n')
                    elif f.kind == 'type':
                        out.put(text(f.head).strip() + ';\n')
                out.put('}\n\n')
                continue
            meta['dropped'].append('macro ' + text(it.head)[:60].strip())
    for n in cs:
        if n not in seen:
            meta['missing'].append(n)
    return out, meta, raw

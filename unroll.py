"""Full unwinding of loops that run a fixed number of times at most.

`=== NAME #unroll=K` in a contract file: every loop of NAME is replaced by K copies of its
body, each nested where the one before it goes round again, and a call of `unreached()`
(whose precondition is false) after the last. The verifier has to prove that call out of
reach, so the unwinding is part of the proof and K is no bound on what is covered.
"""
import re


class Cannot(Exception):
    pass


def close(s, i):
    """index just past the bracket opened at s[i]"""
    d = 0
    j = i
    while j < len(s):
        c = s[j]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return j + 1
        elif c == '"':
            j += 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[j:])
            if m:
                j += m.end() - 1
        j += 1
    raise Cannot('brackets')


def skip(s, i):
    """one token or bracketed group"""
    if s[i] in '([{':
        return close(s, i)
    if s[i] == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == '\\' else 1
        return j + 1
    m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
    if m:
        return i + m.end()
    return i + 1


def stmts(s):
    out, i, st = [], 0, 0
    while i < len(s):
        if s[i] == ';':
            out.append(s[st:i].strip())
            st = i + 1
            i += 1
        else:
            i = skip(s, i)
    out.append(s[st:].strip())
    return [x for x in out if x]


JUMP = re.compile(r"\b(break|continue)\b")


def block_after(s, i):
    """the scrutinee or condition starting at i, and the block after it: (start, end)"""
    if re.match(r'\s*let\b', s[i:]):
        while not re.match(r'=(?![=>])', s[i:]):
            i = skip(s, i)
        i += 1
    while s[i] in ' \n':
        i += 1
    if s[i] == '{':
        i = close(s, i)     # a condition that is a block itself
    while i < len(s) and s[i] != '{':
        i = skip(s, i)
    if i >= len(s):
        raise Cannot('no block')
    return i, close(s, i)


def cps(b, fall, cont):
    """Block text b; `fall` follows where b ends normally, `cont` where it goes round again."""
    out = ''
    l = stmts(b)
    for k, s in enumerate(l):
        if JUMP.search(s):
            if re.fullmatch(r'break', s):
                return out
            if re.fullmatch(r"continue( '\w+)?", s):
                return out + cont
            rest = cps('; '.join(l[k + 1:]), fall, cont) if l[k + 1:] else fall
            return out + stmt(s, rest, cont)
        if k == len(l) - 1 and re.match(r'(match|if)\b|\{', s):
            return out + stmt(s, fall, cont)
        out += s + ';\n'
    return out + fall


def stmt(s, fall, cont):
    if s.startswith('{'):
        e = close(s, 0)
        if s[e:].strip():
            raise Cannot('text after a block')
        return '{ ' + cps(s[1:e - 1], fall, cont) + ' }\n'
    m = re.match(r'if\b', s)
    if m:
        a, e = block_after(s, 2)
        o = s[:a] + '{ ' + cps(s[a + 1:e - 1], fall, cont) + ' }'
        r = s[e:].strip()
        if not r:
            return o + ' else { ' + fall + ' }\n'
        m = re.match(r'else\s*', r)
        if not m:
            raise Cannot('text after if')
        return o + ' else { ' + stmt(r[m.end():], fall, cont) + ' }\n'
    m = re.match(r'match\b', s)
    if m:
        a, e = block_after(s, 5)
        if s[e:].strip():
            raise Cannot('text after match')
        arms, i, t = '', 0, s[a + 1:e - 1]
        while t[i:].strip(' \n,'):
            st = i
            while t[i:i + 2] != '=>':
                i = skip(t, i)
                if i >= len(t):
                    raise Cannot('match arm')
            pat = t[st:i].strip(' \n,')
            i += 2
            while t[i] in ' \n':
                i += 1
            if t[i] == '{':
                j = close(t, i)
                x = t[i + 1:j - 1]
                if re.match(r'\s*[.?]', t[j:]):
                    raise Cannot('match arm')
            else:
                j = i
                while j < len(t) and t[j] != ',':
                    j = skip(t, j)
                x = t[i:j]
            i = j
            arms += pat + ' => { ' + cps(x, fall, cont) + ' },\n'
        return s[:a] + '{ ' + arms + '}\n'
    raise Cannot('jump inside ' + s[:60])


def unroll(body, ids, k, ret='()'):
    """body with the loops `ids` unwound k times (inner loops have higher numbers)"""
    for n in sorted(ids, reverse=True):
        m = re.search(r"('\w+: )?loop /\*@loop %d\*/ " % n, body)
        if not m or body[m.end()] != '{':
            raise Cannot('loop form')
        e = close(body, m.end())
        b = re.sub(r'/\*@\w+( \d+)?\*/', '', body[m.end() + 1:e - 1])
        # a loop that is only left by returning has any type, the one that is wanted here most likely the result's
        t = 'unreached::<()>();' if re.search(r'\bbreak\b', b) else 'unreached::<%s>()' % ret
        for _ in range(k + 1):
            t = cps(b, t, t)
        body = body[:m.start()] + '{ ' + t + ' }' + body[e:]
    return body

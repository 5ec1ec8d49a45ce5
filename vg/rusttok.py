"""A tokenizer for Rust source (comments dropped), and extraction of macro bodies."""
import re

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<raw>b?c?r(?P<h>\#*)")
|(?P<str>[bc]?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'\n])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w.]*)
|(?P<id>(?:r\#)?[A-Za-z_]\w*)
|(?P<p>.)
''', re.X | re.S)


def tokens(src):
    i, n, line = 0, len(src), 1
    out = []
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        j = m.end()
        if k == 'bc':
            d = 1
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
        elif m.group('raw'):
            end = '"' + m.group('h')
            e = src.index(end, j)
            j = e + len(end)
            out.append(('str', src[i:j], line))
        elif k not in ('ws', 'lc'):
            t = src[i:j]
            out.append((k, t, line))
        line += src.count('\n', i, j)
        i = j
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


def macro_bodies(toks, names):
    """Yields (macro name, line, body tokens) for each invocation name!(...)."""
    for i in range(len(toks) - 2):
        if toks[i][0] == 'id' and toks[i][1] in names and toks[i + 1][1] == '!' and toks[i + 2][1] in OPEN:
            depth, j = 0, i + 2
            while j < len(toks):
                t = toks[j]
                if t[0] == 'p':
                    if t[1] in OPEN:
                        depth += 1
                    elif t[1] in OPEN.values():
                        depth -= 1
                        if depth == 0:
                            break
                j += 1
            yield toks[i][1], toks[i][2], toks[i + 3:j]

#!/usr/bin/env python3
"""usage: fakecat.py DIR: stands for a PostgreSQL server on the socket DIR/.s.PGSQL.5432 that holds what DIR/rows.json says:
{kind: [row, ...]} with kind = what the query asks for."""
import json, os, re, socket, struct, sys, threading

D = sys.argv[1]
ROWS = json.load(open(os.path.join(D, 'rows.json')))
T = {'n': 19, 't': 25, 'N': 1003, 'b': 16, 's': 21, 'S': 1005, 'l': 20}
KINDS = [('sequence', 'pg_sequence', 'nnnlllllbnn'), ('view', 'pg_get_viewdef', 'nnttbbbbb'), ('index', 'pg_index', 'nnnbnsTSt'),
         ('column', 'attnotnull', 'nnsntbt'), ('function', 'pg_proc', 'nttntt'), ('foreign', 'confdeltype', 'nnnNnnNbbttt'),
         ('check', 'check_clause', 'nnntbb'), ('unique', "'u'", 'nnnnNbb'), ('primary', "'p'", 'nnnnNbb'),
         ('table', 'relkind', 'nn'), ('schema', 'pg_namespace', 'n')]

def kind(sql):
    for k, word, cols in KINDS:
        if k == 'primary' and 'conkey' not in sql: continue
        if word in sql: return k, cols
    return None, ''

def msg(t, b): return t + struct.pack('>i', len(b) + 4) + b
def oid(c): return 1009 if c == 'T' else T[c]
def enc(c, x):
    if x is None: return None
    if c in 'nt': return x.encode()
    if c == 'b': return struct.pack('?', x)
    if c == 's': return struct.pack('>h', x)
    if c == 'l': return struct.pack('>q', x)
    el = {'N': 19, 'T': 25, 'S': 21}[c]
    v = [enc({'N': 'n', 'T': 't', 'S': 's'}[c], y) for y in x]
    return struct.pack('>iiiii', 1, 0, el, len(v), 1) + b''.join(struct.pack('>i', len(y)) + y for y in v)

def serve(s):
    def read(n):
        b = b''
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x: raise EOFError
            b += x
        return b
    n = struct.unpack('>i', read(4))[0]
    b = read(n - 4)
    if struct.unpack('>i', b[:4])[0] == 80877103:
        s.sendall(b'N')
        read(struct.unpack('>i', read(4))[0] - 4)
    st = 'I'
    ready = lambda: msg(b'Z', st.encode())
    s.sendall(msg(b'R', b'\0\0\0\0') + msg(b'S', b'client_encoding\0UTF8\0') + msg(b'K', b'\0' * 8) + ready())
    out, stmts, bound = b'', {}, ''
    while True:
        t = read(1)
        b = read(struct.unpack('>i', read(4))[0] - 4)
        z = lambda b: b.split(b'\0', 1)
        if t == b'X': return
        if t == b'Q':
            w = z(b)[0].decode().split()[0].upper()
            st = 'T' if w in ('BEGIN', 'START') else 'I'
            out += msg(b'C', w.encode() + b'\0') + ready()
        elif t == b'S': out += ready()
        elif t == b'P':
            n, r = z(b)
            stmts[n] = z(r)[0].decode()
            out += msg(b'1', b'')
        elif t == b'D':
            sql = stmts[b[1:-1]]
            cols = kind(sql)[1]
            out += msg(b't', struct.pack('>h', 1) + struct.pack('>i', 1009) if '$1' in sql else struct.pack('>h', 0))
            out += msg(b'T', struct.pack('>h', len(cols)) + b''.join(b'c\0' + struct.pack('>ihihih', 0, 0, oid(c), -1, -1, 1) for c in cols)) if cols else msg(b'n', b'')
        elif t == b'B':
            bound = stmts[z(z(b)[1])[0]]
            out += msg(b'2', b'')
        elif t == b'E':
            k, cols = kind(bound)
            for row in ROWS.get(k, []):
                v = [enc(c, x) for c, x in zip(cols, row)]
                out += msg(b'D', struct.pack('>h', len(v)) + b''.join(struct.pack('>i', -1) if x is None else struct.pack('>i', len(x)) + x for x in v))
            out += msg(b'C', b'SELECT 1\0')
        elif t == b'C': out += msg(b'3', b'')
        if t in b'QSH':
            s.sendall(out)
            out = b''

def main(s):
    try: serve(s)
    except (EOFError, OSError): pass
    finally: s.close()

l = socket.socket(socket.AF_UNIX)
l.bind(os.path.join(D, '.s.PGSQL.5432'))
l.listen(4)
while True:
    threading.Thread(target=main, args=(l.accept()[0],), daemon=True).start()

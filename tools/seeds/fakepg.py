#!/usr/bin/env python3
"""usage: fakepg.py DIR: stands for a PostgreSQL server on the socket DIR/.s.PGSQL.5432.

Queries of the version table run on SQLite (files in DIR), every other statement is only recorded, within the
transaction, in the table `ddl` of DIR/main.db. FAIL=<text> in DIR/fail rejects statements that contain the text;
DIR/hang: the connection ends there; DIR/pause: it waits there (DIR/paused appears) while the file is there."""
import os, re, socket, sqlite3, struct, sys, threading, time

D = sys.argv[1]
os.makedirs(D, exist_ok=True)
TYPES = {'name': 1043, 'previous': 1043, 'changes': 25, 'up': 1009, 'down': 1009, 'applied_at': 25, 'applied_order': 23}
txn = [0]
biglock = threading.Lock()

def rd(f):
    p = os.path.join(D, f)
    return open(p).read().strip('\n') if os.path.exists(p) else None

def msg(t, b): return t + struct.pack('>i', len(b) + 4) + b
def err(text): return msg(b'E', b'SERROR\0VERROR\0C53000\0M' + text.encode() + b'\0\0')
def ready(st): return msg(b'Z', st.encode())

class Conn:
    def __init__(self, s):
        self.s, self.stmts, self.st, self.out, self.skip, self.tx, self.lock = s, {}, 'I', b'', False, False, False
        self.db = sqlite3.connect(os.path.join(D, 'main.db'), isolation_level=None, timeout=20)
        self.db.execute('CREATE TABLE IF NOT EXISTS ns(name)')
        self.db.execute('CREATE TABLE IF NOT EXISTS ddl(sql)')
        self.db.execute('CREATE TABLE IF NOT EXISTS log(sql)')
        self.db.execute('PRAGMA journal_mode=WAL')
        self.attached = set()
    def read(self, n):
        b = b''
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x: raise EOFError
            b += x
        return b
    def attach(self, schema):
        if schema not in self.attached:
            f = os.path.join(D, re.sub(r'\W', '_', schema) + '.meta.db')
            self.db.execute(f"ATTACH '{f}' AS \"{schema}\"")
            self.db.execute(f'PRAGMA "{schema}".journal_mode=WAL')
            self.attached.add(schema)
    def meta(self, sql):
        """the version table of which schema, if any"""
        m = re.search(r'(?:FROM|INTO|TABLE)\s+"((?:[^"]|"")+)"\."?version"?', sql)
        return m and m.group(1)
    def params(self, sql):
        n = max([int(x) for x in re.findall(r'\$(\d)', sql)] or [0])
        if 'pg_namespace' in sql: return [19]
        if sql.startswith('INSERT'):
            cols = [c.strip() for c in re.search(r'\(([^)]*)\)', sql.split('version', 1)[1]).group(1).split(',')]
            return [TYPES[c] for c in cols][:n]
        if n == 2: return [23, 23]
        return [1043] * n
    def columns(self, sql):
        if not sql.startswith('SELECT'): return None
        if 'EXISTS' in sql: return [('exists', 16)]
        c = [x.strip().split('::')[0] for x in sql[6:sql.index(' FROM ')].split(',')]
        return [(x, TYPES[x]) for x in c]
    def run(self, sql, par):
        fail, hang = rd('fail'), rd('hang')
        open(os.path.join(D, 'statements'), 'a').write(sql.replace('\n', ' ') + '\n')
        if hang and hang in sql: raise EOFError
        while rd('pause') and rd('pause') in sql:
            open(os.path.join(D, 'paused'), 'w').close()
            time.sleep(0.02)
        if fail and fail in sql: raise sqlite3.Error('rejected')
        up = sql.strip().rstrip(';').upper()
        if up.startswith(('BEGIN', 'START')):
            txn[0] += 1
            self.st = 'T'
            return []
        if up in ('COMMIT', 'ROLLBACK', 'END'):
            self.end('ROLLBACK' if self.st == 'E' else up)
            return []
        if 'pg_namespace' in sql:
            return [[struct.pack('?', self.db.execute('SELECT count(*) FROM ns WHERE name=?', (par[0].decode(),)).fetchone()[0] > 0)]]
        m = re.match(r'CREATE SCHEMA "((?:[^"]|"")+)"$', sql)
        if m: self.begin(); self.db.execute('INSERT INTO ns VALUES (?)', (m.group(1),))
        sch = self.meta(sql)
        if sch and sql.startswith('LOCK'):
            if self.st != 'I' and not self.lock:
                biglock.acquire()
                self.lock = True
            return []
        if sch and self.st == 'I' or sch and sch not in self.attached:
            raise sqlite3.Error('no such schema')
        if sch and sql.startswith('CREATE TABLE'):
            self.begin()
            self.db.execute(f'CREATE TABLE IF NOT EXISTS "{sch}".version(name TEXT PRIMARY KEY, previous, changes, up, down, applied_at, applied_order INTEGER)')
            return []
        if sch:
            q = re.sub(r'::\w+', '', sql)
            if q.startswith('INSERT'):
                q = re.sub(r'\) VALUES \((.*)\)$', r', applied_at, applied_order) VALUES (\1, %d, (SELECT coalesce(max(applied_order), 0) + 1 FROM "%s".version))' % (txn[0], sch), q)
            v = []
            for p, t in zip(par, self.params(sql)):
                v.append(None if p is None else struct.unpack('>i', p)[0] if t == 23 else p if t == 1009 else p.decode())
            q = re.sub(r'\$(\d)', r':p\1', q)
            v = {f'p{i + 1}': x for i, x in enumerate(v)}
            if not q.startswith('SELECT'): self.begin()
            rows = self.db.execute(q, v).fetchall()
            enc = lambda x: None if x is None else struct.pack('>i', x) if isinstance(x, int) else x if isinstance(x, bytes) else x.encode()
            return [[enc(str(x)) if c[0] == 'applied_at' else enc(x) for x, c in zip(r, self.columns(sql))] for r in rows]
        self.begin()
        self.db.execute('INSERT INTO ddl VALUES (?)', (sql,))
        return []
    # READ COMMITTED: a transaction of SQLite begins with the first change
    def begin(self):
        if self.st != 'I' and not self.tx:
            self.db.execute('BEGIN IMMEDIATE')
            self.tx = True
    def end(self, how):
        if self.tx: self.db.execute(how)
        if self.lock: biglock.release()
        self.tx = self.lock = False
        self.st = 'I'
    def guard(self, f):
        try:
            f()
        except sqlite3.Error as e:
            self.out += err(str(e))
            if self.st == 'T': self.st = 'E'
            self.skip = True
    def serve(self):
        n = struct.unpack('>i', self.read(4))[0]
        b = self.read(n - 4)
        if struct.unpack('>i', b[:4])[0] == 80877103:
            self.s.sendall(b'N')
            n = struct.unpack('>i', self.read(4))[0]
            b = self.read(n - 4)
        # attaching does not work in a transaction
        for f in (rd('schemas') or 'podo_meta').split('\n'): self.attach(f)
        self.s.sendall(msg(b'R', b'\0\0\0\0') + msg(b'S', b'client_encoding\0UTF8\0') + msg(b'K', b'\0' * 8) + ready('I'))
        while True:
            t = self.read(1)
            b = self.read(struct.unpack('>i', self.read(4))[0] - 4)
            z = lambda b: b.split(b'\0', 1)
            if t == b'X': return
            if t == b'Q':
                sql = z(b)[0].decode()
                def q():
                    if self.st == 'E' and sql.strip().upper() not in ('COMMIT', 'ROLLBACK'): raise sqlite3.Error('transaction is aborted')
                    self.run(sql, [])
                    self.out += msg(b'C', sql.split()[0].encode() + b'\0')
                self.guard(q)
                self.skip = False
                self.out += ready(self.st)
            elif t == b'S':
                self.skip = False
                self.out += ready(self.st)
            elif self.skip: continue
            elif t == b'P':
                n, r = z(b); sql = z(r)[0].decode()
                def p():
                    if self.st == 'E': raise sqlite3.Error('transaction is aborted')
                    self.stmts[n] = sql
                    self.out += msg(b'1', b'')
                self.guard(p)
            elif t == b'D':
                sql = self.stmts[b[1:-1]]
                ps, cs = self.params(sql), self.columns(sql)
                if b[:1] == b'S': self.out += msg(b't', struct.pack('>h', len(ps)) + b''.join(struct.pack('>i', x) for x in ps))
                self.out += msg(b'n', b'') if cs is None else msg(b'T', struct.pack('>h', len(cs)) + b''.join(c.encode() + b'\0' + struct.pack('>ihihih', 0, 0, o, -1, -1, 1) for c, o in cs))
            elif t == b'B':
                _, r = z(b); n, r = z(r)
                k = struct.unpack('>h', r[:2])[0]; r = r[2 + 2 * k:]
                k = struct.unpack('>h', r[:2])[0]; r = r[2:]
                par = []
                for _ in range(k):
                    l = struct.unpack('>i', r[:4])[0]; r = r[4:]
                    par.append(None if l < 0 else r[:l]); r = r[max(l, 0):]
                self.bound = (self.stmts[n], par)
                self.out += msg(b'2', b'')
            elif t == b'E':
                def e():
                    if self.st == 'E': raise sqlite3.Error('transaction is aborted')
                    for row in self.run(*self.bound):
                        self.out += msg(b'D', struct.pack('>h', len(row)) + b''.join(struct.pack('>i', -1) if x is None else struct.pack('>i', len(x)) + x for x in row))
                    self.out += msg(b'C', self.bound[0].split()[0].encode() + b' 1\0')
                self.guard(e)
            elif t == b'C':
                self.out += msg(b'3', b'')
            if t in b'QSH':
                self.s.sendall(self.out)
                self.out = b''
    def main(self):
        try:
            self.serve()
        except (EOFError, OSError):
            pass
        finally:
            self.end('ROLLBACK')
            self.db.close()
            self.s.close()

l = socket.socket(socket.AF_UNIX)
l.bind(os.path.join(D, '.s.PGSQL.5432'))
l.listen(16)
while True:
    c, _ = l.accept()
    threading.Thread(target=lambda c=c: Conn(c).main(), daemon=True).start()

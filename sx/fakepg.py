"""minipg behind PostgreSQL's wire protocol on a loopback port, for runs of the real binary."""
import socket
import struct
import threading

from pg import SqlError

OID = {"text": 25, "text[]": 1009, "int": 23, "int8": 20, "bool": 16, "json": 114, "time": 1114, "oid": 26, "int16": 21, "int16[]": 1005, "int[]": 1007, "bool[]": 1000, "int8[]": 1016, "oid[]": 1028}
NAME = {v: k for k, v in OID.items()}
NAME[1043] = NAME[19] = NAME[1042] = "text"


def enc(v, ty):
    if v is None:
        return None
    if ty in ("text", "json"):
        return v.encode()
    if ty == "int" or ty == "oid":
        return struct.pack("!i", v)
    if ty == "int8":
        return struct.pack("!q", v)
    if ty == "int16":
        return struct.pack("!h", v)
    if ty == "bool":
        return b"\x01" if v else b"\x00"
    if ty == "time":
        return struct.pack("!q", 0)
    if ty.endswith("[]"):
        out = struct.pack("!iii", 1 if v else 0, 1 if None in v else 0, OID[ty[:-2]])
        if v:
            out += struct.pack("!ii", len(v), 1)
        for x in v:
            b = enc(x, ty[:-2])
            out += struct.pack("!i", -1) if b is None else struct.pack("!i", len(b)) + b
        return out
    raise SqlError("XX000", "encode " + ty)


def dec(b, ty):
    if b is None:
        return None
    if ty in ("text", "json"):
        return b.decode()
    if ty == "int" or ty == "oid":
        return struct.unpack("!i", b)[0]
    if ty == "int8":
        return struct.unpack("!q", b)[0]
    if ty == "bool":
        return b != b"\x00"
    if ty == "text[]":
        nd = struct.unpack("!i", b[:4])[0]
        if nd == 0:
            return []
        n = struct.unpack("!i", b[12:16])[0]
        out, i = [], 20
        for _ in range(n):
            l = struct.unpack("!i", b[i:i + 4])[0]
            out.append(b[i + 4:i + 4 + l].decode())
            i += 4 + l
        return out
    raise SqlError("XX000", "decode " + ty)


class Conn(threading.Thread):
    def __init__(self, fake, sock):
        super().__init__(daemon=True)
        self.fake, self.s = fake, sock
        self.buf = b""
        self.out = b""
        self.stm, self.portal = {}, {}
        self.tx = None            # explicit transaction
        self.failed = False       # skip until Sync

    def recv(self, n):
        while len(self.buf) < n:
            d = self.s.recv(65536)
            if not d:
                raise EOFError
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def send(self, t, b=b""):
        self.out += t + struct.pack("!i", len(b) + 4) + b

    def flush(self):
        if self.out:
            self.s.sendall(self.out)
            self.out = b""

    def ready(self):
        st = b"I" if self.tx is None else (b"E" if self.tx.aborted else b"T")
        self.send(b"Z", st)
        self.flush()

    def error(self, e):
        f = b""
        for k, v in ((b"S", "ERROR"), (b"V", "ERROR"), (b"C", e.code if len(e.code) == 5 else "XX000"), (b"M", str(e.msg))):
            f += k + v.encode() + b"\0"
        self.send(b"E", f + b"\0")

    def run(self):
        try:
            while True:
                n = struct.unpack("!i", self.recv(4))[0]
                b = self.recv(n - 4)
                code = struct.unpack("!i", b[:4])[0]
                if code in (80877103, 80877104):
                    self.s.sendall(b"N")
                    continue
                break
            self.send(b"R", struct.pack("!i", 0))
            for k, v in (("server_version", "15.0"), ("client_encoding", "UTF8"), ("standard_conforming_strings", "on"), ("DateStyle", "ISO")):
                self.send(b"S", k.encode() + b"\0" + v.encode() + b"\0")
            self.send(b"K", struct.pack("!ii", 1, 1))
            self.ready()
            while True:
                t = self.recv(1)
                n = struct.unpack("!i", self.recv(4))[0]
                b = self.recv(n - 4)
                if t == b"X":
                    return
                if t == b"S":
                    self.failed = False
                    self.ready()
                    continue
                if t == b"H":
                    self.flush()
                    continue
                if self.failed:
                    continue
                with self.fake.lock:
                    try:
                        self.handle(t, b)
                    except SqlError as e:
                        self.error(e)
                        if t == b"Q":
                            self.ready()
                        else:
                            self.failed = True
        except (EOFError, OSError):
            pass
        except Exception as e:
            self.fake.errors.append(repr(e))
        finally:
            try:
                self.s.close()
            except OSError:
                pass
            self.fake.done(self)

    def cstr(self, b, i):
        j = b.index(b"\0", i)
        return b[i:j].decode(), j + 1

    def exec(self, sql, params=None, ptypes=None):
        w = sql.strip().rstrip(";").upper()
        if w in ("BEGIN", "START TRANSACTION"):
            self.tx = self.fake.srv.begin()
            return None, "BEGIN"
        if w == "COMMIT":
            bad = self.tx is not None and self.tx.aborted
            if self.tx is not None:
                self.tx.commit()
            self.tx = None
            return None, "ROLLBACK" if bad else "COMMIT"
        if w == "ROLLBACK":
            self.tx = None
            return None, "ROLLBACK"
        if not w:
            return None, ""
        tx = self.tx or self.fake.srv.begin()
        r = tx.run(sql, params, ptypes)
        if self.tx is None:
            tx.commit()
        return r, "OK"

    def describe(self, sql):
        """parameter types and columns, without effects"""
        from minipg import Stmt
        srv = self.fake.srv
        if srv.is_user is not None and srv.is_user(sql):
            return [], None
        if self.tx is not None and self.tx.aborted:
            raise SqlError("25P02", "current transaction is aborted")
        tx = self.tx or srv.begin()
        st = Stmt(tx, sql, None, None)
        try:
            cols, _, _ = st.run()
        except SqlError:
            if self.tx is not None:
                self.tx.aborted = True
            raise
        return [st.ptypes[k] for k in sorted(st.ptypes)], cols

    def rowdesc(self, cols):
        b = struct.pack("!h", len(cols))
        for n, ty in cols:
            b += n.encode() + b"\0" + struct.pack("!ihihih", 0, 0, OID[ty], -1, -1, 1)
        self.send(b"T", b)

    def handle(self, t, b):
        if t == b"Q":
            sql, _ = self.cstr(b, 0)
            parts = [sql]
            if not (self.fake.srv.is_user and self.fake.srv.is_user(sql)):
                parts = [x for x in sql.split(";") if x.strip()] or [""]
            for q in parts:
                r, tag = self.exec(q)
                if tag == "":
                    self.send(b"I")
                else:
                    self.send(b"C", tag.encode() + b"\0")
            self.ready()
        elif t == b"P":
            n, i = self.cstr(b, 0)
            sql, i = self.cstr(b, i)
            pts, cols = self.describe(sql)
            self.stm[n] = (sql, pts, cols)
            self.send(b"1")
        elif t == b"D":
            k, (n, _) = b[:1], self.cstr(b, 1)
            if k == b"S":
                sql, pts, cols = self.stm[n]
                self.send(b"t", struct.pack("!h", len(pts)) + b"".join(struct.pack("!i", OID[p]) for p in pts))
            else:
                sql, pts, cols = self.stm[self.portal[n][0]]
            if cols:
                self.rowdesc(cols)
            else:
                self.send(b"n")
        elif t == b"B":
            p, i = self.cstr(b, 0)
            n, i = self.cstr(b, i)
            nf = struct.unpack("!h", b[i:i + 2])[0]
            i += 2 + 2 * nf
            np = struct.unpack("!h", b[i:i + 2])[0]
            i += 2
            vals = []
            for _ in range(np):
                l = struct.unpack("!i", b[i:i + 4])[0]
                i += 4
                if l < 0:
                    vals.append(None)
                else:
                    vals.append(b[i:i + l])
                    i += l
            self.portal[p] = (n, vals)
            self.send(b"2")
        elif t == b"E":
            p, i = self.cstr(b, 0)
            n, vals = self.portal[p]
            sql, pts, cols = self.stm[n]
            vs = [dec(v, ty) for v, ty in zip(vals, pts)]
            r, tag = self.exec(sql, vs, [ty for ty in pts])
            if r is not None and r[0]:
                for row in r[1]:
                    d = struct.pack("!h", len(row))
                    for v, (_, ty) in zip(row, r[0]):
                        e = enc(v, ty)
                        d += struct.pack("!i", -1) if e is None else struct.pack("!i", len(e)) + e
                    self.send(b"D", d)
                tag = "SELECT %d" % len(r[1])
            elif r is not None:
                tag = "INSERT 0 %d" % (r[2] or 0)
            self.send(b"C", (tag or "OK").encode() + b"\0")
        elif t == b"C":
            k, (n, _) = b[:1], self.cstr(b, 1)
            (self.stm if k == b"S" else self.portal).pop(n, None)
            self.send(b"3")
        else:
            raise SqlError("08P01", "message %r" % t)


class Fake:
    def __init__(self, srv):
        self.srv = srv
        self.lock = threading.Lock()
        self.errors = []
        self.conns = set()
        self.cv = threading.Condition()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(8)
        self.port = self.sock.getsockname()[1]
        self.url = "postgresql://podo@127.0.0.1:%d/db" % self.port
        self.stopped = False
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            c = Conn(self, s)
            with self.cv:
                self.conns.add(c)
            c.start()

    def done(self, c):
        with self.cv:
            self.conns.discard(c)
            self.cv.notify_all()

    def settle(self, timeout=5):
        """wait until every connection is closed"""
        with self.cv:
            self.cv.wait_for(lambda: not self.conns, timeout)
        if self.errors:
            raise RuntimeError("fake server: " + "; ".join(self.errors))

    def stop(self):
        self.sock.close()

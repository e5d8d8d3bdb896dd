"""Stand-in for `lmdb` (py-lmdb), pure Python.

Keeps the semantics keripy relies on: named sub databases with persistent flags,
lexicographic bytes order, dupsort, snapshot reads next to one writer, atomic
commit/abort of write transactions, cursor positioning rules, 511 byte limits,
persistence across close/open of a directory.

Fault injection: `_vf_fault(n)` makes the n-th following write commit raise
`_VfCrash` without applying (the process "dies" there); `_vf_commits()` counts.
"""
import marshal
import os
from bisect import bisect_left, bisect_right

MAXKEY = 511


class Error(Exception):
    pass


class KeyExistsError(Error): pass
class NotFoundError(Error): pass
class PageNotFoundError(Error): pass
class CorruptedError(Error): pass
class PanicError(Error): pass
class VersionMismatchError(Error): pass
class InvalidError(Error): pass
class MapFullError(Error): pass
class DbsFullError(Error): pass
class ReadersFullError(Error): pass
class TlsFullError(Error): pass
class TxnFullError(Error): pass
class CursorFullError(Error): pass
class PageFullError(Error): pass
class MapResizedError(Error): pass
class IncompatibleError(Error): pass
class BadDbiError(Error): pass
class BadRslotError(Error): pass
class BadTxnError(Error): pass
class BadValsizeError(Error): pass
class ReadonlyError(Error): pass
class InvalidParameterError(Error): pass
class LockError(Error): pass
class MemoryError(Error): pass
class DiskError(Error): pass


class _VfCrash(BaseException):
    """Simulated process death at a commit."""


_fault = [None, 0]  # [commits left until crash | None, commits so far]


def _vf_fault(n):
    _fault[0] = n


def _vf_commits():
    return _fault[1]


def version(subpatch=False):
    return (0, 9, 33)


_CLOSED = "Attempt to operate on closed/deleted/dropped object."
_open_paths = {}


def _b(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        raise TypeError("Won't implicitly convert Unicode to bytes; use .encode()")
    return bytes(memoryview(x))


class _Store:
    """One sub database: sorted list of (key, val)."""
    __slots__ = ("rows", "dupsort")

    def __init__(self, dupsort=False, rows=None):
        self.rows = rows if rows is not None else []
        self.dupsort = dupsort


class _Database:
    def __init__(self, env, name, dupsort):
        self._env, self._name, self._dupsort = env, name, dupsort

    def flags(self, *args):
        return {"reverse_key": False, "dupsort": self._dupsort, "integerkey": False,
                "integerdup": False, "dupfixed": False, "reverse_dup": False}


class Environment:
    def __init__(self, path, map_size=10485760, subdir=True, readonly=False, metasync=True,
                 sync=True, map_async=False, mode=0o755, create=True, readahead=True,
                 writemap=False, meminit=True, max_readers=126, max_dbs=0,
                 max_spare_txns=1, lock=True):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        self._path = path
        self._readonly = bool(readonly)
        self._max_dbs = max_dbs
        if subdir:
            if not os.path.isdir(path):
                if not create or readonly:
                    raise Error(f"{path}: No such file or directory")
                os.mkdir(path, mode)
            self._file = os.path.join(path, "data.mdb")
        else:
            self._file = path
        self._real = os.path.realpath(self._file)
        if self._real in _open_paths:
            raise Error(f"The environment '{path}' is already open in this process.")
        self._stores = {None: _Store()}
        self._dbs = {}
        self._dirty = False
        self._writer = None
        if os.path.exists(self._file):
            with _pyopen(self._file, "rb") as f:
                data = f.read()
            if data:
                try:
                    for name, dup, rows in marshal.loads(data):
                        self._stores[name] = _Store(dup, rows)
                except (ValueError, EOFError, TypeError) as ex:
                    raise InvalidError(f"{path}: MDB_INVALID: File is not an LMDB file") from ex
        elif readonly:
            raise Error(f"{path}: No such file or directory")
        else:
            with _pyopen(self._file, "wb"):
                pass
            if subdir:
                with _pyopen(os.path.join(path, "lock.mdb"), "wb"):
                    pass
        self._open = True
        _open_paths[self._real] = self
        self._dbs[None] = _Database(self, None, False)

    # -- persistence
    def _save(self):
        if self._dirty and not self._readonly:
            d = os.path.dirname(self._file)
            if os.path.isdir(d):
                tmp = self._file + ".tmp"
                with _pyopen(tmp, "wb") as f:
                    f.write(marshal.dumps([(n, s.dupsort, s.rows) for n, s in self._stores.items()]))
                os.replace(tmp, self._file)
            self._dirty = False

    def _check(self):
        if not self._open:
            raise Error(_CLOSED)

    def close(self):
        if self._open:
            self._save()
            self._open = False
            _open_paths.pop(self._real, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            if self._open:
                self.close()
        except Exception:
            pass

    def path(self):
        return self._path

    def sync(self, force=False):
        self._check()
        self._save()

    def flags(self):
        self._check()
        return {"readonly": self._readonly, "subdir": True}

    def max_key_size(self):
        return MAXKEY

    def max_readers(self):
        return 126

    def info(self):
        self._check()
        return {"map_addr": 0, "map_size": 104857600, "last_pgno": 1, "last_txnid": _fault[1],
                "max_readers": 126, "num_readers": 1}

    def _stat(self, rows):
        return {"psize": 4096, "depth": 1, "branch_pages": 0, "leaf_pages": 1,
                "overflow_pages": 0, "entries": len(rows)}

    def stat(self):
        self._check()
        return self._stat(self._stores[None].rows)

    def copy(self, path, compact=False, txn=None):
        self._check()
        with _pyopen(os.path.join(path, "data.mdb"), "wb") as f:
            f.write(marshal.dumps([(n, s.dupsort, s.rows) for n, s in self._stores.items()]))

    def set_mapsize(self, n):
        pass

    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False, create=True,
                integerkey=False, integerdup=False, dupfixed=False):
        self._check()
        if key is not None:
            key = _b(key)
        if key in self._dbs:
            return self._dbs[key]
        if len(self._dbs) - 1 >= self._max_dbs:
            raise DbsFullError("mdb_dbi_open: MDB_DBS_FULL: Environment maxdbs limit reached")
        st = self._stores.get(key)
        if st is None:
            if self._readonly or not create:
                raise NotFoundError("mdb_dbi_open: MDB_NOTFOUND: No matching key/data pair found")
            if self._writer is not None and txn is None:
                raise Error("open_db inside an open write transaction would deadlock")
            st = self._stores[key] = _Store(bool(dupsort))
            main = list(self._stores[None].rows)
            i = bisect_left(main, (key,))
            main.insert(i, (key, b"\0named"))
            self._stores[None].rows = main
            self._dirty = True
        db = self._dbs[key] = _Database(self, key, st.dupsort)
        return db

    def begin(self, db=None, parent=None, write=False, buffers=False):
        return Transaction(self, db=db, parent=parent, write=write, buffers=buffers)

    def reader_check(self):
        return 0

    def readers(self):
        return "(no active readers)\n"


def open(path, **kwa):  # noqa: A001
    return Environment(path, **kwa)


_pyopen = __builtins__["open"] if isinstance(__builtins__, dict) else __builtins__.open


class Transaction:
    def __init__(self, env, db=None, parent=None, write=False, buffers=False):
        env._check()
        if write and env._readonly:
            raise ReadonlyError(f"{env._path}: Permission denied")
        if write:
            if env._writer is not None:
                raise Error("write transaction already active in this thread (would deadlock)")
            env._writer = self
        self._env = env
        self._db = db if db is not None else env._dbs[None]
        if self._db._env is not env:
            self._live = False
            if write:
                env._writer = None
            raise Error("Database handle belongs to another environment.")
        self._write = write
        self._buffers = buffers
        # snapshot: rows lists are never mutated in place once committed
        self._snap = {n: s.rows for n, s in env._stores.items()}
        self._mine = {}
        self._live = True
        self._mod = 0

    # -- life cycle
    def __enter__(self):
        self._check()
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        else:
            self.abort()

    def _check(self):
        if not self._live or not self._env._open:
            raise Error(_CLOSED)

    def commit(self):
        self._check()
        try:
            if self._write:
                if self._mine:
                    if _fault[0] is not None:
                        _fault[0] -= 1
                        if _fault[0] < 0:
                            raise _VfCrash()
                    _fault[1] += 1
                    for n, rows in self._mine.items():
                        self._env._stores[n].rows = rows
                    self._env._dirty = True
        finally:
            self._end()

    def abort(self):
        if self._live:
            self._end()

    def _end(self):
        self._live = False
        if self._write and self._env._writer is self:
            self._env._writer = None

    def __del__(self):
        if getattr(self, "_live", False):
            self.abort()

    def id(self):
        return _fault[1]

    # -- helpers
    def _rows(self, db):
        n = db._name
        rows = self._mine.get(n)
        if rows is not None:
            return rows
        if n not in self._snap:  # opened after this snapshot was taken
            self._snap[n] = self._env._stores[n].rows
        return self._snap[n]

    def _wrows(self, db):
        if not self._write:
            raise ReadonlyError("mdb: Permission denied")
        n = db._name
        rows = self._mine.get(n)
        if rows is None:
            rows = self._mine[n] = list(self._rows(db))
        return rows

    def _out(self, v):
        return memoryview(v) if self._buffers else v

    def _thedb(self, db):
        self._check()
        db = db if db is not None else self._db
        if db._env is not self._env:
            raise Error("Database handle belongs to another environment.")
        return db

    # -- operations
    def stat(self, db):
        return self._env._stat(self._rows(self._thedb(db)))

    def drop(self, db, delete=True):
        db = self._thedb(db)
        self._wrows(db)[:] = []
        self._mod += 1

    def get(self, key, default=None, db=None):
        db = self._thedb(db)
        key = _b(key)
        if not key:
            raise BadValsizeError("mdb_get: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, "
                                  "or wrong DUPFIXED size")
        rows = self._rows(db)
        i = bisect_left(rows, (key,))
        if i < len(rows) and rows[i][0] == key:
            return self._out(rows[i][1])
        return default

    def _put(self, db, key, value, dupdata, overwrite):
        key, value = _b(key), _b(value)
        if not key or len(key) > MAXKEY or (db._dupsort and len(value) > MAXKEY):
            raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, "
                                  "or wrong DUPFIXED size")
        rows = self._wrows(db)
        i = bisect_left(rows, (key,))
        there = i < len(rows) and rows[i][0] == key
        if there and not overwrite:
            return False, i
        if not db._dupsort:
            if there:
                rows[i] = (key, value)
            else:
                rows.insert(i, (key, value))
                self._mod += 1
            return True, i
        i = bisect_left(rows, (key, value))
        if i < len(rows) and rows[i] == (key, value):
            return bool(dupdata), i
        rows.insert(i, (key, value))
        self._mod += 1
        return True, i

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        return self._put(self._thedb(db), key, value, dupdata, overwrite)[0]

    def replace(self, key, value, db=None):
        db = self._thedb(db)
        old = self.get(key, db=db)
        if db._dupsort:
            self.delete(key, db=db)
        self._put(db, key, value, True, True)
        return old

    def pop(self, key, db=None):
        old = self.get(key, db=db)
        self.delete(key, db=db)
        return old

    def delete(self, key, value=b"", db=None):
        db = self._thedb(db)
        key, value = _b(key), _b(value)
        if not key:
            raise BadValsizeError("mdb_del: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, "
                                  "or wrong DUPFIXED size")
        rows = self._rows(db)
        i = bisect_left(rows, (key,))
        if not (i < len(rows) and rows[i][0] == key):
            if not self._write:
                raise ReadonlyError("mdb_del: Permission denied")
            return False
        rows = self._wrows(db)
        if db._dupsort and value:
            i = bisect_left(rows, (key, value))
            if i < len(rows) and rows[i] == (key, value):
                del rows[i]
                self._mod += 1
                return True
            return False
        j = i
        while j < len(rows) and rows[j][0] == key:
            j += 1
        del rows[i:j]
        self._mod += 1
        return True

    def cursor(self, db=None):
        return Cursor(self._thedb(db), self)


class Cursor:
    def __init__(self, db, txn):
        txn._check()
        self._db, self._txn = db, txn
        self._i = None       # index while positioned
        self._cur = None     # (key, val) while positioned
        self._seen = txn._mod

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._i = self._cur = None

    # -- position helpers
    def _rows(self):
        self._txn._check()
        return self._txn._rows(self._db)

    def _at(self, i):
        rows = self._rows()
        self._seen = self._txn._mod
        if 0 <= i < len(rows):
            self._i, self._cur = i, rows[i]
            return True
        self._i = self._cur = None
        return False

    def _pos(self):
        """Current index, re-found when the txn changed under the cursor."""
        if self._cur is not None and self._seen != self._txn._mod:
            self._i = bisect_left(self._rows(), self._cur if self._db._dupsort else (self._cur[0],))
            self._seen = self._txn._mod
        return self._i

    def _dup(self):
        if not self._db._dupsort:
            raise IncompatibleError("mdb_cursor_get: MDB_INCOMPATIBLE: Operation and DB incompatible, "
                                    "or DB flags changed")

    def key(self):
        self._rows()
        return self._txn._out(self._cur[0] if self._cur else b"")

    def value(self):
        self._rows()
        return self._txn._out(self._cur[1] if self._cur else b"")

    def item(self):
        return self.key(), self.value()

    def first(self):
        return self._at(0)

    def last(self):
        return self._at(len(self._rows()) - 1)

    def next(self):
        i = self._pos()
        return self.first() if i is None else self._at(i + 1)

    def prev(self):
        i = self._pos()
        return self.last() if i is None else self._at(i - 1)

    def next_nodup(self):
        i = self._pos()
        if i is None:
            return self.first()
        rows, k = self._rows(), self._cur[0]
        while i < len(rows) and rows[i][0] == k:
            i += 1
        return self._at(i)

    def prev_nodup(self):
        i = self._pos()
        if i is None:
            return self.last()
        rows, k = self._rows(), self._cur[0]
        while i >= 0 and rows[i][0] == k:
            i -= 1
        return self._at(i)

    def next_dup(self):
        self._dup()
        i, rows = self._pos(), self._rows()
        if i is not None and i + 1 < len(rows) and rows[i + 1][0] == self._cur[0]:
            return self._at(i + 1)
        return self._at(-1)

    def prev_dup(self):
        self._dup()
        i, rows = self._pos(), self._rows()
        if i is not None and i and rows[i - 1][0] == self._cur[0]:
            return self._at(i - 1)
        return self._at(-1)

    def first_dup(self):
        self._dup()
        if self._pos() is None:
            return False
        return self._at(bisect_left(self._rows(), (self._cur[0],)))

    def last_dup(self):
        self._dup()
        i = self._pos()
        if i is None:
            return False
        rows, k = self._rows(), self._cur[0]
        while i + 1 < len(rows) and rows[i + 1][0] == k:
            i += 1
        return self._at(i)

    def set_range(self, key):
        key = _b(key)
        return self._at(bisect_left(self._rows(), (key,))) if key else self.first()

    def set_key(self, key):
        key = _b(key)
        if not key:
            raise BadValsizeError("mdb_cursor_get: MDB_BAD_VALSIZE: Unsupported size of key/DB "
                                  "name/data, or wrong DUPFIXED size")
        rows = self._rows()
        i = bisect_left(rows, (key,))
        return self._at(i if i < len(rows) and rows[i][0] == key else -1)

    def set_key_dup(self, key, value):
        self._dup()
        rows, kv = self._rows(), (_b(key), _b(value))
        i = bisect_left(rows, kv)
        return self._at(i if i < len(rows) and rows[i] == kv else -1)

    def set_range_dup(self, key, value):
        self._dup()
        rows, kv = self._rows(), (_b(key), _b(value))
        i = bisect_left(rows, kv)
        return self._at(i if i < len(rows) and rows[i][0] == kv[0] else -1)

    def get(self, key, default=None):
        return self.value() if self.set_key(key) else default

    def count(self):
        self._dup()
        i = self._pos()
        if i is None:
            raise Error("mdb_cursor_count: Invalid argument")
        return sum(1 for r in self._rows() if r[0] == self._cur[0])

    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        ok, i = self._txn._put(self._db, key, val, dupdata, overwrite)
        self._at(i)
        return ok

    def putmulti(self, items, dupdata=True, overwrite=True, append=False):
        n = a = 0
        for k, v in items:
            n += 1
            a += bool(self.put(k, v, dupdata, overwrite))
        return n, a

    def replace(self, key, val):
        return self._txn.replace(key, val, db=self._db)

    def pop(self, key):
        return self._txn.pop(key, db=self._db)

    def delete(self, dupdata=False):
        self._rows()
        if not self._txn._write:
            raise ReadonlyError("mdb_cursor_del: Permission denied")
        i = self._pos()
        if i is None:
            return False
        rows = self._txn._wrows(self._db)
        if dupdata and self._db._dupsort:
            k = self._cur[0]
            i = bisect_left(rows, (k,))
            j = i
            while j < len(rows) and rows[j][0] == k:
                j += 1
            del rows[i:j]
        else:
            del rows[i]
        self._txn._mod += 1
        self._at(i)
        return True

    # -- iteration: yields the current item first, then moves
    def _iter(self, move, keys, values):
        started = False
        while True:
            if started:
                move()
            started = True
            if self._cur is None:
                self._rows()
                return
            if keys and values:
                yield self.item()
            elif keys:
                yield self.key()
            else:
                yield self.value()

    def iternext(self, keys=True, values=True):
        if self._cur is None:
            self.first()
        return self._iter(self.next, keys, values)

    __iter__ = iternext

    def iterprev(self, keys=True, values=True):
        if self._cur is None:
            self.last()
        return self._iter(self.prev, keys, values)

    def iternext_nodup(self, keys=True, values=False):
        if self._cur is None:
            self.first()
        return self._iter(self.next_nodup, keys, values)

    def iterprev_nodup(self, keys=True, values=False):
        if self._cur is None:
            self.last()
        return self._iter(self.prev_nodup, keys, values)

    def iternext_dup(self, keys=False, values=True):
        self._dup()
        return self._iter(self.next_dup, keys, values)

    def iterprev_dup(self, keys=False, values=True):
        self._dup()
        return self._iter(self.prev_dup, keys, values)

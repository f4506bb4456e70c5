"""Simulated durable storage and the ORM glue a persistence package adds.

The store is the only thing that survives a simulated crash.  It trusts the
object's own report of what changed: a new object is written whole, any other
object only at the top-level names it reports as modified."""
from __future__ import annotations
from .sim import SimCrash, InjectedFault


def plain(v):
    """Deep copy containers to builtin list/dict."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


class SimStore:

    def __init__(self, sim):
        self.sim = sim
        self.rows = {}
        self.log = []

    def attach(self, cls, fields, temp=(), clear_temp=True, key='id',
               refs=()):
        """Give `cls` the storage hooks of a persistence package."""
        store = self
        cls._dst_fields = tuple(fields)
        cls._dst_refs = dict(refs)

        def _database_write(self):
            store.write(self)

        def _orm_delete(self):
            store.delete(self)

        cls._database_write = _database_write
        cls._orm_delete = _orm_delete
        cls._dst_clear_temp = clear_temp
        cls._dst_key = key
        return cls

    def rowkey(self, obj):
        return (type(obj).__name__, getattr(obj, type(obj)._dst_key))

    def write(self, obj):
        sim = self.sim
        f = sim.hit('store.write')
        kind = f['kind'] if f else None
        if kind == 'error':
            raise InjectedFault('store.write', f['n'], kind)
        if kind == 'interrupt':
            raise KeyboardInterrupt('injected')
        if kind == 'crash_before':
            raise SimCrash()
        cls = type(obj)
        if cls._dst_clear_temp:
            obj._clear_temp_fields()
        key = self.rowkey(obj)
        new = obj.is_new
        row = dict(self.rows.get(key, {})) if not new else {}
        if new:
            names = set(cls._dst_fields)
        else:
            names = {n.split('.')[0] for n in obj.persisted_modified_fields}
        for name in sorted(names):
            if name in cls._dst_refs:
                rk = cls._dst_refs[name]
                row[rk] = plain(getattr(obj, rk))
            elif name in cls._dst_fields:
                row[name] = plain(getattr(obj, name))
        self.rows[key] = row
        self.log.append(('write', key, new, tuple(sorted(names))))
        sim.ev('write', list(key), new, sorted(names), row)
        if kind == 'crash_after':
            raise SimCrash()
        if kind == 'ack_lost':
            raise InjectedFault('store.write', f['n'], kind)
        obj._mark_unmodified()

    def delete(self, obj):
        sim = self.sim
        f = sim.hit('store.delete')
        kind = f['kind'] if f else None
        if kind == 'error':
            raise InjectedFault('store.delete', f['n'], kind)
        if kind == 'crash_before':
            raise SimCrash()
        key = self.rowkey(obj)
        self.rows.pop(key, None)
        self.log.append(('delete', key))
        sim.ev('delete', list(key))
        if kind == 'crash_after':
            raise SimCrash()
        if kind == 'ack_lost':
            raise InjectedFault('store.delete', f['n'], kind)
        obj._is_deleted = True

"""A reference collection, a view of it, and the model of both."""
from __future__ import annotations

import numpy

from . import env, gen, model
from .world import World


class ViewWorld(World):
    """World whose reference collection is seen through a view.

    vars: specifications of the view variables, vparts: partition key ->
    {view variable: raw rows}; a key of vparts is a partition of the view,
    whose axis values at the last synchronisation are in vaxis.
    """

    def __init__(self, schema, batch, *, select=None, same=True, sync=None,
                 **kwargs):
        import zcollection
        super().__init__(schema, batch, **kwargs)
        try:
            self.vplace = self.place if same else env.Place(
                'local' if self.place.kind == 'memory' else 'memory')
            self.vbase = self.vplace.path('view')
            self.vvars: dict = {}
            self.vkeys = self.keys if select is None else self.pick(select)
            chosen = [self.scheme(k) for k in self.vkeys]
            filters = None
            if select is not None:
                filters = lambda keys: keys in chosen  # noqa: E731
            self.view = zcollection.create_view(
                self.vbase, zcollection.view.ViewReference(
                    self.base, self.place.fs),
                filesystem=self.vplace.fs, filters=filters,
                synchronizer=sync)
            self.vparts = {k: {} for k in self.vkeys}
            self.vaxis = {k: self.parts[k][self.schema['axis']]
                          for k in self.vkeys}
        except BaseException:
            self.close()
            raise

    def close(self):
        super().close()
        other = getattr(self, 'vplace', None)
        if other is not None and other is not self.place:
            other.close()

    @property
    def seen(self):
        """Partitions of the view: present in both collections."""
        return sorted(set(self.vparts) & set(self.parts))

    def vpath(self, key):
        return self.vbase + '/' + model.key_dir(self.part, key)

    @property
    def alldims(self):
        return {**self.dims,
                **{n: tuple(v['dims']) for n, v in self.vvars.items()}}

    @property
    def allfills(self):
        return {**self.fills,
                **{n: model.decode_fill(v['dtype'], v['fill'])
                   for n, v in self.vvars.items()}}

    def shape(self, var, key):
        sizes = {**self.schema['extra'], self.dim: self.size(key)}
        return tuple(sizes[d] for d in var['dims'])

    def blank(self, var, key):
        dtype = numpy.dtype(var['dtype'])
        return numpy.full(self.shape(var, key),
                          model.decode_fill(var['dtype'], var['fill']), dtype)

    # -- operations --------------------------------------------------------

    def add(self, var):
        self.view.add_variable(gen.meta_variable(var))
        self.note_add(var)

    def note_add(self, var):
        self.vvars[var['name']] = var
        for key in self.seen:
            self.vparts[key][var['name']] = self.blank(var, key)

    def drop(self, name):
        self.view.drop_variable(name)
        del self.vvars[name]
        for part in self.vparts.values():
            part.pop(name, None)

    def reopen_view(self, **kwargs):
        import zcollection
        return zcollection.open_view(self.vbase, filesystem=self.vplace.fs,
                                     **kwargs)

    # -- comparison --------------------------------------------------------

    def vexpected(self, keys=None, names=None):
        keys = self.seen if keys is None else sorted(keys)
        if not keys:
            return {}
        out = model.content(self.schema, self.parts, keys)
        out.update(self.imm)
        dims = self.alldims
        for name in self.vvars:
            out[name] = model.concat([self.vparts[k][name] for k in keys],
                                     dims[name], self.dim)
        if names is not None:
            out = {k: v for k, v in out.items() if k in names}
        return out

    def vcompare(self, zds, where, keys=None, names=None, delayed=None,
                 expected=None):
        expected = self.vexpected(keys, names) if expected is None \
            else expected
        model.compare(zds, expected, self.alldims, self.allfills, where,
                      delayed)

    def vcheck(self, where, view=None, lazy=True):
        view = view or self.view
        got = list(view.partitions())
        want = [self.vpath(k) for k in self.seen]
        assert got == want, f'{where}: view partitions {got} != {want}'
        if self.vvars:
            self.vcompare(view.load(delayed=False), f'{where} view')
            if lazy:
                self.vcompare(view.load(delayed=True), f'{where} lazy view')

"""A real collection together with its reference model.

The model is a plain map: partition key -> {variable: raw numpy rows}, plus the
values of the variables that do not depend on the partitioned dimension.
"""
from __future__ import annotations

import copy

import numpy

from . import env, gen, model


class World:

    def __init__(self, schema: dict, batch, *, delayed=False, chunk=None,
                 name='col', attrs=None, place=None, insert=True, **kwargs):
        self.schema = copy.deepcopy(schema)
        for ix, var in enumerate(self.schema['vars']):
            var['vix'] = ix
        self.count = len(self.schema['vars'])
        self.own = place is None
        self.place = place or env.Place(schema['fs'])
        self.name = name
        self.base = self.place.path(name)
        self.parts: dict = {}
        self.imm: dict = {}
        self.written = False
        try:
            data = model.arrays(self.schema, batch)
            zds = gen.build(self.schema, data, delayed, chunk, attrs=attrs)
            self.col = gen.create(self.schema, zds, self.place, name, **kwargs)
            if insert:
                self.insert(batch, delayed=delayed, chunk=chunk)
        except BaseException:
            self.close()
            raise

    def close(self):
        if self.own:
            self.place.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    # -- description -------------------------------------------------------

    @property
    def part(self):
        return self.schema['part']

    @property
    def dim(self):
        return self.schema['dim']

    @property
    def dims(self):
        return model.var_dims(self.schema)

    @property
    def fills(self):
        return model.var_fill(self.schema)

    @property
    def keys(self):
        return sorted(self.parts)

    def path(self, key) -> str:
        return self.base + '/' + model.key_dir(self.part, key)

    def scheme(self, key) -> dict:
        return model.key_dict(self.part, key)

    def labelled(self, key):
        return model.labelled(self.part, key)

    def only(self, keys):
        """Filter function selecting exactly these keys."""
        chosen = [self.scheme(k) for k in keys]
        return lambda keys_: keys_ in chosen

    def pick(self, mask: int):
        """Subset of the stored keys designated by the bits of an integer."""
        return [k for ix, k in enumerate(self.keys) if mask >> ix & 1]

    def size(self, key) -> int:
        return len(self.parts[key][self.schema['axis']])

    def skippable(self, mask: int):
        """Variables an inserted dataset may leave out: they have a fill value
        and the remaining ones still define their dimensions."""
        fills, dims = self.fills, self.dims
        skip = []
        for ix, var in enumerate(self.schema['vars']):
            name = var['name']
            if not mask >> ix & 1 or fills[name] is None or \
                    self.dim not in dims[name]:
                continue
            rest = {
                d
                for other, these in dims.items()
                if other != name and other not in skip for d in these
            }
            if set(dims[name]) <= rest:
                skip.append(name)
        return skip

    # -- operations on both sides -----------------------------------------

    def new_parts(self, batch, skip=()):
        """Model of the partitions a dataset is split into."""
        data = model.arrays(self.schema, batch)
        fills = self.fills
        for name in skip:
            data[name] = numpy.full(data[name].shape, fills[name],
                                    data[name].dtype)
        return model.split(self.schema, batch, data)

    def dataset(self, batch, *, delayed=False, chunk=None, skip=(), version=0,
                attrs=None):
        data = model.arrays(self.schema, batch, version)
        return gen.build(self.schema, data, delayed, chunk, skip=skip,
                         attrs=attrs)

    def note_insert(self, batch, skip=(), version=0):
        data = model.arrays(self.schema, batch, version)
        if not self.written:
            self.imm = {
                k: v
                for k, v in data.items() if self.dim not in self.dims[k]
            }
            self.written = True
        parts = self.new_parts(batch, skip)
        self.parts.update(parts)
        return parts

    def insert(self, batch, *, delayed=False, chunk=None, skip=(), version=0,
               **kwargs):
        zds = self.dataset(batch, delayed=delayed, chunk=chunk, skip=skip,
                           version=version)
        given = dict(zds.variables)
        got = self.col.insert(zds, **kwargs)
        # The variables given are left as they were (the missing ones are
        # added to the dataset).
        assert all(zds[name] is var for name, var in given.items()), \
            f'dataset given to insert: {list(zds.variables)} {list(given)}'
        parts = self.note_insert(batch, skip, version)
        return sorted(got), sorted(self.path(k) for k in parts)

    # -- comparison --------------------------------------------------------

    def expected(self, keys=None, names=None, imm=True) -> dict:
        keys = self.keys if keys is None else sorted(keys)
        if not keys:
            return {}
        out = model.content(self.schema, self.parts, keys)
        if imm:
            out.update(self.imm)
        if names is not None:
            out = {k: v for k, v in out.items() if k in names}
        return out

    def compare(self, zds, where, keys=None, names=None, delayed=None,
                expected=None):
        expected = self.expected(keys, names) if expected is None else expected
        model.compare(zds, expected, self.dims, self.fills, where, delayed)

    def check(self, where='', col=None, lazy=True, each=False):
        """The whole content of the collection is that of the model."""
        col = col or self.col
        got = list(col.partitions())
        want = [self.path(k) for k in self.keys]
        assert got == want, f'{where}: partitions {got} != {want}'
        self.compare(col.load(delayed=False), f'{where} eager')
        if lazy:
            self.compare(col.load(delayed=True), f'{where} lazy')
        if each:
            for key in self.keys:
                self.compare(
                    col.load(delayed=False, filters=self.only([key])),
                    f'{where} partition {key}', keys=[key])

    def reopen(self, mode='w', **kwargs):
        import zcollection
        return zcollection.open_collection(self.base, mode=mode,
                                           filesystem=self.place.fs, **kwargs)

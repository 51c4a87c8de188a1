"""C29: file-tree helpers walk and copy every file once, unchanged."""
import os
import random

from hypothesis import strategies as st

from .. import env
from ..core import Sub

RULE = ('A case is a directory tree (up to 12 entries, nested, empty '
        'directories and files, hidden and unusual names, contents from 0 to '
        '300 kB; part large: up to 11 MiB, or 50 to 300 files), a source and a target file system among local and '
        'in-memory. Walking it, sorted or not, must yield the tree that was '
        'laid out, each directory and file once; copying one file, a list of '
        'files, and the tree reproduces every byte at the same relative path, '
        'leaves the source and the neighbours of the target unchanged, and '
        'refuses an existing target. paths: joining and normalising paths '
        'with redundant separators and protocols designates the same files. '
        'Non-trivial: at least two files in different directories.')
ASSUMPTIONS = ['local and in-memory fsspec file systems stand for all']

NAMES = ('a', 'b', 'zz', 'B', '.hidden', '.zattrs', '0.0', '10', '9',
         'year=2000', 'with space', 'caf\u00e9', 'x.y.z', 'a.b', 'a-b', 'a0',
         'b.', 'c..', ' d', 'e ', '0', 'f~', '-g', '#h', 'i%20', 'j+k',
         'l'*120)


@st.composite
def trees(draw):
    """List of [path, content size or None for a directory]."""
    dirs = ['']
    out = []
    used = set()
    for _ in range(draw(st.integers(0, 12))):
        path = draw(st.sampled_from(dirs)) + '/' + draw(
            st.sampled_from(NAMES))
        if path in used:
            continue
        used.add(path)
        if draw(st.integers(0, 2)) == 0:
            out.append([path, None])
            dirs.append(path)
        else:
            out.append([path, draw(st.sampled_from([0, 1, 7, 1000, 70000,
                                                    300000]))])
    return out


@st.composite
def cases(draw):
    return dict(tree=draw(trees()),
                source=draw(st.sampled_from(['memory', 'local'])),
                target=draw(st.sampled_from(['memory', 'local'])),
                slash=draw(st.booleans()),
                deep=draw(st.booleans()),
                sort=draw(st.booleans()),
                picks=draw(st.integers(0, 4095)))


SIZES = [2**16, 2**18 + 1, 2**20 - 1, 2**20, 2**20 + 1, 3 * 2**20 + 5,
         4 * 2**20, 5 * 2**20 + 1, 8 * 2**20, 11 * 2**20 + 3]


@st.composite
def large_cases(draw):
    """Large files, or many of them."""
    if draw(st.booleans()):
        tree = [['/d', None]] + [
            [f'{where}/f{ix}', size] for ix, (where, size) in enumerate(
                draw(st.lists(st.tuples(st.sampled_from(['', '/d']),
                                        st.sampled_from(SIZES)),
                              min_size=1, max_size=2)))]
    else:
        count = draw(st.integers(50, 300))
        width = draw(st.sampled_from([1, 7, 40]))
        tree = [[f'/d{ix}', None] for ix in range(count // width + 1)]
        tree += [[f'/d{ix // width}/{ix}', ix % 5] for ix in range(count)]
    return dict(draw(cases()), tree=tree)


def content(path, size):
    return random.Random(path).randbytes(size)


def layout(place, tree, base='src'):
    root = place.path(base)
    place.fs.makedirs(root, exist_ok=True)
    for path, size in tree:
        if size is None:
            place.fs.makedirs(root + path, exist_ok=True)
        else:
            with place.fs.open(root + path, 'wb') as stream:
                stream.write(content(path, size))
    return root


def all_dirs(fs, root):
    out = set()
    todo = [root]
    while todo:
        here = todo.pop()
        for info in fs.ls(here, detail=True):
            if info['type'] == 'directory':
                name = info['name'].rstrip('/')
                out.add(name[len(root):])
                todo.append(name)
    return out


def run(case, ctx):
    from zcollection import fs_utils
    tree = case['tree']
    files = {p: content(p, s) for p, s in tree if s is not None}
    dirs = {p for p, s in tree if s is None}
    with env.Place(case['source']) as src, env.Place(case['target']) as dst:
        root = layout(src, tree)
        # walk
        seen = {}
        order = []
        for where, subdirs, names in fs_utils.fs_walk(
                src.fs, root + ('/' if case['slash'] else ''),
                sort=case['sort']):
            assert where not in seen, f'{where} visited twice'
            seen[where] = (list(subdirs), list(names))
            order.append(where)
        want = {root + d: ([], []) for d in dirs | {''}}
        for d in dirs:
            want[(root + d).rsplit('/', 1)[0]][0].append(root + d)
        for f in files:
            up, name = (root + f).rsplit('/', 1)
            want[up][1].append(name)
        assert set(seen) == set(want), f'walk: {sorted(seen)}'
        for where, (subdirs, names) in seen.items():
            assert sorted(x.rstrip('/') for x in subdirs) == sorted(
                want[where][0]), f'{where}: {subdirs}'
            assert sorted(names) == sorted(want[where][1]), f'{where}: {names}'
            if case['sort']:
                assert subdirs == sorted(subdirs) and names == sorted(
                    names), f'{where} not sorted'
        if case['sort']:
            def walk(d):
                yield d
                for item in sorted(want[d][0]):
                    yield from walk(item)
            assert order == list(walk(root)), f'order {order}'
        got = list(fs_utils.fs_walk(src.fs, src.path('missing')))
        assert got == [('', [], [])], got
        # copies
        before = src.snapshot()
        dst.fs.makedirs(dst.path('near'), exist_ok=True)
        with dst.fs.open(dst.path('near', 'other'), 'wb') as stream:
            stream.write(b'other')
        target = dst.path('deep', 'er', 'tgt') if case['deep'] else dst.path(
            'tgt')
        if case['deep']:
            dst.fs.makedirs(dst.path('deep', 'er'), exist_ok=True)
        fs_utils.copy_tree(root, target, src.fs, dst.fs)
        assert src.snapshot() == before, 'source changed'
        snap = dst.snapshot(target)
        assert snap == files, f'copied {sorted(snap)} not {sorted(files)}'
        assert all_dirs(dst.fs, target) == dirs, 'directories differ'
        rest = {k for k in dst.snapshot() if not k.startswith(
            target[len(dst.root):] + '/')}
        assert rest == {'/near/other'}, rest
        assert dst.fs.cat_file(dst.path('near', 'other')) == b'other'
        full = dst.snapshot()
        try:
            fs_utils.copy_tree(root, target, src.fs, dst.fs)
        except ValueError:
            pass
        else:
            raise AssertionError('existing target accepted')
        assert dst.snapshot() == full, 'refused copy changed the target'
        picked = [p for ix, p in enumerate(sorted(files))
                  if case['picks'] >> ix & 1]
        byname = {p.rsplit('/', 1)[-1]: p for p in picked}
        if byname:
            dst.fs.makedirs(dst.path('flat'), exist_ok=True)
            fs_utils.copy_files([root + p for p in byname.values()],
                                dst.path('flat'), src.fs, dst.fs)
            assert dst.snapshot(dst.path('flat')) == {
                '/' + k: files[v] for k, v in byname.items()}
            name = next(iter(byname.values()))
            # Over an existing, longer file.
            with dst.fs.open(dst.path('one'), 'wb') as stream:
                stream.write(b'x' * 400000)
            fs_utils.copy_file(root + name, dst.path('one'), src.fs, dst.fs)
            assert dst.fs.cat_file(dst.path('one')) == files[name]
        assert src.snapshot() == before, 'source changed'
    ctx.label(f"{case['source']}-{case['target']}")
    ctx.nt(len({f.rsplit('/', 1)[0] for f in files}) > 1)


@st.composite
def path_cases(draw):
    return dict(kind=draw(st.sampled_from(['memory', 'local'])),
                parts=draw(st.lists(st.sampled_from(NAMES), min_size=1,
                                    max_size=4)),
                noise=draw(st.lists(st.sampled_from(['/', '//', '/./']),
                                    min_size=4, max_size=4)),
                proto=draw(st.booleans()), slash=draw(st.booleans()))


def run_paths(case, ctx):
    import fsspec

    from zcollection import fs_utils
    with env.Place(case['kind']) as place:
        root, fs, parts = place.root, place.fs, case['parts']
        assert fs_utils.join_path(root, *parts) == '/'.join([root] + parts)
        plain = '/'.join([root] + parts)
        fs.makedirs(plain, exist_ok=True)
        fs.pipe_file(plain + '/file', b'data')
        # fsspec memory paths are keys: only their own separators are safe.
        path = plain
        if case['kind'] == 'local':
            path = root + ''.join(n + p for n, p in zip(case['noise'], parts))
        if case['slash']:
            path += '/'
        if case['proto']:
            path = {'memory': 'memory://', 'local': 'file://'}[
                case['kind']] + path
        got = fs_utils.normalize_path(fs, path)
        assert fs.cat_file(fs_utils.join_path(got, 'file')) == b'data', got
        if case['kind'] == 'local':
            assert os.path.samefile(got, plain)
        again = fs_utils.normalize_path(fs, got)
        assert again == got, f'{got} normalised again gives {again}'
        assert fs_utils.get_fs(fs) is fs
        name = {'memory': 'memory', 'local': 'file'}[case['kind']]
        assert isinstance(fs_utils.get_fs(name), type(fs))
        assert isinstance(fs_utils.get_fs(), type(fsspec.filesystem('file')))
    ctx.nt(len(parts) > 1)


SUBS = [Sub('tree', cases(), run, 500, 8000),
        Sub('large', large_cases(), run, 12, 400),
        Sub('paths', path_cases(), run_paths, 150, 1500)]

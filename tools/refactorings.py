"""Edits that keep the behaviour, for tools/quiet.py."""
EDITS = {}

EDITS["write-osopen"] = [
    ("util/write_file.py", '''        with open(tmp_path, "xb") as file:
            file.write(data)
''', '''        fd = os.open(tmp_path, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666)
        with os.fdopen(fd, "wb") as file:
            view = memoryview(data)
            for pos in range(0, len(view), 4096):
                file.write(view[pos : pos + 4096])
            file.flush()
            os.fsync(file.fileno())
'''),
    ("util/write_file.py", '''        os.replace(tmp_path, path)
''', '''        os.rename(tmp_path, path)
'''),
]

EDITS["write-pathlib"] = [
    ("util/write_file.py", '''from uuid import uuid4
''', '''from pathlib import Path
from uuid import uuid4
'''),
    ("util/write_file.py", '''    tmp_path = join(dirname(path), f".{uuid4().hex}.tmp")
    try:
        with open(tmp_path, "xb") as file:
            file.write(data)
        if mode is not None:
            os.chmod(tmp_path, S_IMODE(mode))
        os.replace(tmp_path, path)
    except BaseException:
        try:
            os.unlink(tmp_path)
        except OSError:
            pass
        raise
''', '''    tmp = Path(dirname(path)) / f".{uuid4().hex}.tmp"
    done = False
    try:
        with tmp.open("xb") as file:
            file.write(data)
        if mode is not None:
            tmp.chmod(S_IMODE(mode))
        tmp.replace(path)
        done = True
    finally:
        if not done:
            try:
                tmp.unlink()
            except OSError:
                pass
'''),
    ("util/write_file.py", "from os.path import dirname, islink, join, realpath", "from os.path import dirname, islink, realpath"),
]

EDITS["write-mkstemp"] = [
    ("util/write_file.py", '''from uuid import uuid4
''', '''from tempfile import NamedTemporaryFile
'''),
    ("util/write_file.py", '''    tmp_path = join(dirname(path), f".{uuid4().hex}.tmp")
    try:
        with open(tmp_path, "xb") as file:
            file.write(data)
        if mode is not None:
            os.chmod(tmp_path, S_IMODE(mode))
        os.replace(tmp_path, path)
    except BaseException:
        try:
            os.unlink(tmp_path)
        except OSError:
            pass
        raise
''', '''    umask = os.umask(0)
    os.umask(umask)
    tmp_path = None
    try:
        with NamedTemporaryFile(
            dir=dirname(path), prefix=".", suffix=".tmp", delete=False
        ) as file:
            tmp_path = file.name
            file.write(data)
        os.chmod(tmp_path, 0o666 & ~umask if mode is None else S_IMODE(mode))
        os.replace(tmp_path, path)
    except BaseException:
        if tmp_path is not None:
            try:
                os.unlink(tmp_path)
            except OSError:
                pass
        raise
'''),
    ("util/write_file.py", "from os.path import dirname, islink, join, realpath", "from os.path import dirname, islink, realpath"),
]

EDITS["read-pathlib"] = [
    ("resource/parse_resource.py", '''        with open(input, mode="rb") as file:
            source = file.read()
            input_is_file = True
''', '''        source = Path(input).read_bytes()
        input_is_file = True
'''),
    ("resource/parse_resource.py", "from typing import", "from pathlib import Path\nfrom typing import"),
    ("bin/build.py", '''    with open(from_path, "rb") as file:
        data = file.read()
    write_file(tgt_path, data)
''', '''    write_file(tgt_path, Path(from_path).read_bytes())
'''),
    ("bin/build.py", "from typing import", "from pathlib import Path\nfrom typing import"),
    ("paths/config.py", '''            with open(cfg_path, mode="rb") as file:
                toml = load(file)
''', '''            toml = loads(Path(cfg_path).read_text("utf-8"))
'''),
    ("paths/config.py", "from typing import", "from pathlib import Path\nfrom typing import"),
    ("paths/config.py", "tomllib import load\n", "tomllib import loads\n"),
    ("paths/config.py", "tomli import load\n", "tomli import loads\n"),
]

EDITS["read-chunks"] = [
    ("resource/parse_resource.py", '''        with open(input, mode="rb") as file:
            source = file.read()
            input_is_file = True
''', '''        with open(input, mode="rb", buffering=0) as file:
            chunks = []
            while chunk := file.read(97):
                chunks.append(chunk)
        source = b"".join(chunks)
        input_is_file = True
'''),
    ("bin/fix.py", '''            prev = file.read()
''', '''            file.seek(0, 2)
            size = file.tell()
            file.seek(0)
            log.debug(f"{size} bytes")
            prev = b"".join(iter(lambda: file.read(64), b""))
'''),
    ("bin/build.py", '''    with open(from_path, "rb") as file:
        data = file.read()
    write_file(tgt_path, data)
''', '''    data = bytearray()
    with open(from_path, "rb") as file:
        for line in file:
            data += line
    write_file(tgt_path, data)
'''),
]

EDITS["walk-scandir"] = [
    ("util/walk_files.py", "from os import sep, walk\n", "from os import scandir, sep\n"),
    ("util/walk_files.py", '''        for dirpath, dirnames, filenames in walk(dir, onerror=_walk_error):
            idx = len(dirnames) - 1
            while idx >= 0:
                rp = relpath(join(dirpath, dirnames[idx]), start=root)
                if sep != "/":
                    rp = rp.replace(sep, "/")
                if check_match(ignore, rp, is_dir=True):
                    del dirnames[idx]
                idx -= 1
            dirnames.sort()
            filenames.sort()
            for fn in filenames:
                path = join(dirpath, fn)
                rp = relpath(path, start=root)
                if sep != "/":
                    rp = rp.replace(sep, "/")
                if check_match(ignore, rp):
                    continue
                yield path
''', '''        stack = [dir]
        while stack:
            dirpath = stack.pop()
            try:
                with scandir(dirpath) as it:
                    entries = sorted(it, key=lambda e: e.name)
            except OSError as error:
                _walk_error(error)
                continue
            subdirs: list[str] = []
            files: list[str] = []
            for e in entries:
                try:
                    is_dir = e.is_dir()
                except OSError:
                    is_dir = False
                rp = relpath(e.path, start=root)
                if sep != "/":
                    rp = rp.replace(sep, "/")
                if not check_match(ignore, rp, is_dir=is_dir):
                    if not is_dir:
                        files.append(e.path)
                    elif not e.is_symlink():
                        subdirs.append(e.path)
            yield from files
            stack.extend(reversed(subdirs))
'''),
]

EDITS["walk-helper"] = [
    ("util/walk_files.py", '''            idx = len(dirnames) - 1
            while idx >= 0:
                rp = relpath(join(dirpath, dirnames[idx]), start=root)
                if sep != "/":
                    rp = rp.replace(sep, "/")
                if check_match(ignore, rp, is_dir=True):
                    del dirnames[idx]
                idx -= 1
            dirnames.sort()
            filenames.sort()
            for fn in filenames:
                path = join(dirpath, fn)
                rp = relpath(path, start=root)
                if sep != "/":
                    rp = rp.replace(sep, "/")
                if check_match(ignore, rp):
                    continue
                yield path
''', '''            dirnames[:] = sorted(
                dn for dn in dirnames if not _ignored(ignore, root, dirpath, dn, True)
            )
            yield from (
                join(dirpath, fn)
                for fn in sorted(filenames)
                if not _ignored(ignore, root, dirpath, fn, False)
            )
'''),
    ("util/walk_files.py", '''def walk_files(
''', '''def _ignored(rules: list[Rule], root: str, dir: str, name: str, is_dir: bool) -> bool:
    rp = relpath(join(dir, name), start=root)
    return check_match(rules, rp if sep == "/" else rp.replace(sep, "/"), is_dir=is_dir)


def walk_files(
'''),
]

EDITS["compare-split"] = [
    ("bin/compare.py", '''        try:
            tgt_messages = msg_ids(join(root, path))
            for msg in src_messages:
                if msg not in tgt_messages:
                    missing[path].append(msg)
        except FileNotFoundError:
            missing[path] = list(src_messages)
        except Exception as e:
            errors[path] = str(e)
''', '''        try:
            tgt_messages: Collection[str] = msg_ids(join(root, path))
        except FileNotFoundError:
            tgt_messages = ()
        except Exception as e:
            errors[path] = str(e)
            continue
        not_found = [msg for msg in src_messages if msg not in tgt_messages]
        if not_found:
            missing[path] = not_found
'''),
    ("bin/compare.py", '''        with open(source, encoding="utf-8") as f:
            source_data: dict[str, Collection[str]] = json.load(f)
''', '''        with open(source, "rb") as f:
            source_data: dict[str, Collection[str]] = json.loads(
                f.read().decode("utf-8")
            )
'''),
]

EDITS["exists-variants"] = [
    ("bin/build.py", '''    try:
        stat(path)
        return True
    except (FileNotFoundError, NotADirectoryError):
        return False
''', '''    found = True
    try:
        Path(path).stat()
    except OSError as err:
        if err.errno not in (ENOENT, ENOTDIR):
            raise
        found = False
    return found
'''),
    ("bin/build.py", "from typing import", "from errno import ENOENT, ENOTDIR\nfrom pathlib import Path\nfrom typing import"),
    ("migrate/__init__.py", '''    try:
        lstat(path)
        return True
    except (FileNotFoundError, NotADirectoryError):
        return False
''', '''    try:
        Path(path).lstat()
    except FileNotFoundError:
        return False
    except NotADirectoryError:
        return False
    return True
'''),
    ("migrate/__init__.py", "from typing import", "from pathlib import Path\nfrom typing import"),
    ("migrate/__init__.py", '''                        makedirs(dirname(tgt_path), exist_ok=True)
''', '''                        Path(tgt_path).parent.mkdir(parents=True, exist_ok=True)
'''),
]

EDITS["build-loops"] = [
    ("bin/build.py", '''        for locale in sorted(
            locales.intersection(path_locales) if path_locales else locales
        ):
            l10n_path''', '''        path_locales = path_locales or list(locales)
        for locale in sorted(lc for lc in locales if lc in path_locales):
            l10n_path'''),
    ("bin/build.py", '''            makedirs(dirname(tgt_path), exist_ok=True)
            if source:
''', '''            tgt_dir = dirname(tgt_path)
            if not isdir(tgt_dir):
                makedirs(tgt_dir, exist_ok=True)
            if source is not None:
'''),
    ("bin/build.py", "from os.path import ", "from os.path import isdir, "),
]

EDITS["discover-scan"] = [
    ("paths/discover.py", '''def _dir_contains(dir: str, path: str) -> bool:
    return relpath(path, dir).split(sep, 1)[0] != pardir
''', '''def _dir_contains(dir: str, path: str) -> bool:
    rel = relpath(path, dir)
    return rel != pardir and not rel.startswith(pardir + sep)


def _walk(root: str) -> Iterator[tuple[str, list[str], list[str]]]:
    try:
        names = listdir(root)
    except OSError:
        return
    dirs: list[str] = []
    files: list[str] = []
    for name in names:
        (dirs if isdir(join(root, name)) else files).append(name)
    yield root, dirs, files
    for name in dirs:
        if not islink(join(root, name)):
            yield from _walk(join(root, name))
'''),
    ("paths/discover.py", '''                walk(root, topdown=True), walk(ref_root, topdown=True)
''', '''                _walk(root), _walk(ref_root)
'''),
    ("paths/discover.py", '''            walk_roots = walk(root, topdown=True)
''', '''            walk_roots = _walk(root)
'''),
    ("paths/discover.py", "from os.path import dirname, isdir,", "from os.path import dirname, isdir, islink,"),
    ("paths/discover.py", "pardir, sep, walk", "listdir, pardir, sep"),
]

EDITS["discover-sorted"] = [
    ("paths/discover.py", '''            ref_dir, _ = min(
                (rd for rd in ref_dirs.items() if rd[0] in ref_dirs_with_files),
                key=lambda s: (s[1], _path_order(s[0])),
            )
            self._ref_root = normpath(ref_dir)
''', '''            ref_dirs_with_files.sort(key=lambda d: (ref_dirs[d], *_path_order(d)))
            self._ref_root = normpath(ref_dirs_with_files[0])
'''),
    ("paths/discover.py", '''        locale_root = join(self._base(), "{locale}")
        target = join(locale_root, relpath(ref_path, self._ref_root))
        if target.endswith(".pot"):
            target = target[:-1]
        if locale is None:
            return target, self.locales or ()
''', '''        target = self._template(ref_path)
        if locale is None:
            return target, self.locales or ()
'''),
    ("paths/discover.py", '''    def all(self)''', '''    def _template(self, ref_path: str) -> str:
        target = join(self._base(), "{locale}", relpath(ref_path, self._ref_root))
        return target[:-1] if target.endswith(".pot") else target

    def all(self)'''),
]

EDITS["lib-caches"] = [
    ("resource/parse_resource.py", '''    input_is_file = False
    if source is None:
''', '''    input_is_file = False
    if isinstance(source, str):
        source = "".join(source.splitlines(keepends=True))
    if source is None:
'''),
    ("migrate/utils.py", '''        for e_rev_idx, e in enumerate(reversed(section.entries)):
            if isinstance(e, Entry) and e.id in eid_set:
                if sid_len:
                    entry.id = entry.id[sid_len:]
                section.entries.insert(len(section.entries) - e_rev_idx, entry)
                return
''', '''        positions = [
            idx + 1
            for idx, e in enumerate(section.entries)
            if isinstance(e, Entry) and e.id in eid_set
        ]
        if positions:
            if sid_len:
                entry.id = entry.id[sid_len:]
            section.entries[positions[-1] : positions[-1]] = [entry]
            return
'''),
]

EDITS["handle-paths"] = [
    ("bin/utils.py", '''    elif len(file_paths) == 1 and os.path.isdir(file_paths[0]):
        root_dir = os.path.abspath(file_paths[0])
        path_iter = L10nDiscoverPaths(root_dir, ref_root=".").ref_paths

    elif file_paths:
        root_dir = os.getcwd()
        path_iter = (
            path for fp in file_paths for path in sorted(glob(fp, recursive=True))
        )
''', '''    elif len(file_paths) == 1 and Path(file_paths[0]).is_dir():
        root_dir = os.path.abspath(file_paths[0])
        path_iter = list(L10nDiscoverPaths(root_dir, ref_root=".").ref_paths)

    elif file_paths:
        root_dir = os.path.abspath(os.curdir)
        found: list[str] = []
        for fp in file_paths:
            found += sorted(glob(fp, recursive=True))
        path_iter = found
'''),
    ("bin/utils.py", "from collections.abc", "from pathlib import Path\nfrom collections.abc"),
]

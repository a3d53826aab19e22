"""More edits that keep the behaviour: loops, helpers and order of statements in the code around the planted bugs."""
EDITS = {
    "migrate-helper": [("migrate/__init__.py", '''                changed: list[Entry[Message]] = []
                for id, create in res_add_entries.items():
                    ctx._update(id)
                    new_entry = _create_entry(res, ctx, create)
                    if new_entry is not None:
                        changed.append(new_entry)

                if changed:
                    nc = len(changed)
                    entries = "1 entry" if nc == 1 else f"{nc} entries"
                    log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                    if not dry_run:
                        tgt_data = "".join(serialize_resource(res))
                        makedirs(dirname(tgt_path), exist_ok=True)
                        write_file(tgt_path, tgt_data.encode("utf-8"))
                    all_changes[tgt_path] = changed
        return all_changes
''', '''                changed = self._create_entries(ctx, res, res_add_entries)
                if not changed:
                    continue
                nc = len(changed)
                entries = "1 entry" if nc == 1 else f"{nc} entries"
                log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                if not dry_run:
                    self._save(tgt_path, res)
                all_changes[tgt_path] = changed
        return all_changes

    @staticmethod
    def _create_entries(ctx, res, res_add_entries):  # type: ignore
        found = []
        for id in res_add_entries:
            ctx._update(id)
            found.append(_create_entry(res, ctx, res_add_entries[id]))
        return [entry for entry in found if entry is not None]

    @staticmethod
    def _save(path: str, res: Resource[Message]) -> None:
        data = b"".join(s.encode("utf-8") for s in serialize_resource(res))
        dir = dirname(path)
        if not isdir(dir):
            makedirs(dir, exist_ok=True)
        write_file(path, data)
''')],
    "migrate-context": [("migrate/utils.py", '''        if ref_path in self._resources:
            return self._resources[ref_path]
        tgt_path, _ = self.paths.target(ref_path, locale=self.locale)
        try:
            res = parse_resource(tgt_path, **self.parse_options)
        except (FileNotFoundError, NotADirectoryError):
            log.debug(f"Resource not available: {tgt_path}")
            res = None
        except Exception as err:
            # polib raises OSError without an errno for syntax errors
            if isinstance(err, OSError) and err.errno is not None:
                raise
            log.debug(f"Parse error: {tgt_path}", exc_info=True)
            res = None
        self._resources[ref_path] = res
        return res
''', '''        if ref_path not in self._resources:
            self._resources[ref_path] = self._load(ref_path)
        return self._resources[ref_path]

    def _load(self, ref_path: str) -> Resource[Message] | None:
        tgt_path = self.paths.target(ref_path, locale=self.locale)[0]
        try:
            with open(tgt_path, "rb") as file:
                data = file.read()
        except (FileNotFoundError, NotADirectoryError):
            log.debug(f"Resource not available: {tgt_path}")
            return None
        except TypeError:
            return None
        try:
            return parse_resource(tgt_path, data, **self.parse_options)
        except Exception as err:
            if isinstance(err, OSError) and err.errno is not None:
                raise
            log.debug(f"Parse error: {tgt_path}", exc_info=True)
            return None
''')],
    "migrate-insert": [("migrate/utils.py", '''        for e_rev_idx, e in enumerate(reversed(section.entries)):
            if isinstance(e, Entry) and e.id in eid_set:
                if sid_len:
                    entry.id = entry.id[sid_len:]
                section.entries.insert(len(section.entries) - e_rev_idx, entry)
                return
        last_section = section
''', '''        places = [
            idx
            for idx, e in enumerate(section.entries)
            if isinstance(e, Entry) and e.id in eid_set
        ]
        if places:
            if sid_len:
                entry.id = entry.id[sid_len:]
            section.entries.insert(places[-1] + 1, entry)
            return
        last_section = section
'''), ("migrate/utils.py", '''        entry = next(
            (e for e in section.entries if isinstance(e, Entry) and e.id == eid),
            None,
        )
        if entry is not None:
            return entry
    return None
''', '''        for e in section.entries:
            if isinstance(e, Entry) and e.id == eid:
                return e
    return None
''')],
    "migrate-lexists": [("migrate/__init__.py", '''    try:
        lstat(path)
        return True
    except (FileNotFoundError, NotADirectoryError):
        return False


def _get''', '''    found = True
    try:
        stat(path, follow_symlinks=False)
    except (FileNotFoundError, NotADirectoryError):
        found = False
    return found


def _get'''), ("migrate/__init__.py", "from os import lstat, makedirs", "from os import makedirs, stat")],
    "compare-helper": [("bin/compare.py", '''        try:
            tgt_messages = msg_ids(join(root, path))
            for msg in src_messages:
                if msg not in tgt_messages:
                    missing[path].append(msg)
        except FileNotFoundError:
            missing[path] = list(src_messages)
        except Exception as e:
            errors[path] = str(e)
    return errors, missing
''', '''        found: Collection[str] = ()
        try:
            found = msg_ids(join(root, path))
        except FileNotFoundError:
            pass
        except Exception as e:
            errors[path] = str(e)
            continue
        lost = [msg for msg in src_messages if msg not in found]
        if lost:
            missing[path] = lost
    return errors, missing
'''), ("bin/compare.py", '''    return {
        ".".join(section.id + entry.id): None
        for section in res.sections
        for entry in section.entries
        if isinstance(entry, Entry)
    }
''', '''    ids: dict[str, None] = {}
    for section in res.sections:
        prefix = section.id
        for entry in section.entries:
            if isinstance(entry, Entry):
                ids.setdefault(".".join((*prefix, *entry.id)))
    return ids
''')],
    "fix-helper": [("bin/fix.py", '''        with open(path, "+rb") as file:
            prev = file.read()
        res = parse_resource(path, prev)
        next = bytearray()
        for line in serialize_resource(res):
            next.extend(line.encode("utf-8"))
        if next == prev:
            log.info(f"OK: {rel_path}")
            return Result.OK
        else:
            write_file(path, next)
            log.warning(f"Fixed: {rel_path}")
            return Result.FIXED
''', '''        prev = _contents(path)
        fixed = "".join(serialize_resource(parse_resource(path, prev))).encode("utf-8")
        if prev != fixed:
            write_file(path, fixed)
            log.warning(f"Fixed: {rel_path}")
            return Result.FIXED
        log.info(f"OK: {rel_path}")
        return Result.OK
'''), ("bin/fix.py", '''def fix_file(root''', '''def _contents(path: str) -> bytes:
    with open(path, "r+b", buffering=0) as file:
        return file.readall()


def fix_file(root'''), ("bin/fix.py", '''    for path in path_iter:
        res = fix_file(root_dir, path)
        total += 1
        if res == Result.FIXED:
            fixed += 1
        elif res == Result.UNSUPPORTED:
            unsupported += 1
        elif res == Result.FAIL:
            failed += 1
            if not continue_on_error:
                break
''', '''    for total, path in enumerate(path_iter, 1):
        res = fix_file(root_dir, path)
        fixed += res is Result.FIXED
        unsupported += res is Result.UNSUPPORTED
        failed += res is Result.FAIL
        if failed and not continue_on_error:
            break
''')],
    "lint-helper": [("bin/lint.py", '''    ok = 0
    unsupported = 0
    failed = 0
    for path in path_iter:
        res = lint_file(root_dir, path, skip_unknown)
        if res == Result.SKIP:
            pass
        elif res == Result.UNSUPPORTED:
            unsupported += 1
        elif res == Result.FAIL:
            failed += 1
        else:
            ok += 1
    if not ok and not unsupported and not failed:
        log.warning("Found no localization resources")
    return 1 if failed or unsupported else 0
''', '''    results = [lint_file(root_dir, path, skip_unknown) for path in list(path_iter)]
    results = [res for res in results if res != Result.SKIP]
    if not results:
        log.warning("Found no localization resources")
    return int(any(res != Result.OK for res in results))
'''), ("bin/lint.py", '''        parse_resource(path)
        log.info(f"ok {log_path}")
        return Result.OK
''', '''        with open(path, "rb") as file:
            parse_resource(path, file.read())
'''), ("bin/lint.py", '''        log.warning(f"FAIL {log_path} - {error}")
        return Result.FAIL
''', '''        log.warning(f"FAIL {log_path} - {error}")
        return Result.FAIL
    else:
        log.info(f"ok {log_path}")
        return Result.OK
''')],
    "config-load": [("paths/config.py", '''            with open(cfg_path, mode="rb") as file:
                toml = load(file)
''', '''            with open(cfg_path, encoding="utf-8", newline="") as file:
                toml = loads(file.read())
'''), ("paths/config.py", "from tomllib import load\n", "from tomllib import loads\n"), ("paths/config.py", "from tomli import load\n", "from tomli import loads\n"), ("paths/config.py", "                for ref_file in sorted(glob(ref_glob, recursive=True)):\n                    if isfile(ref_file):\n                        self._path_data[ref_file][get_target(ref_file)] = locales\n", "                found = filter(isfile, glob(ref_glob, recursive=True))\n                for ref_file in sorted(found):\n                    self._path_data[ref_file][get_target(ref_file)] = locales\n")],
    "config-base": [("paths/config.py", '''        for incl in self._includes:
            incl.base = base
        self._base = base
''', '''        self._base = base
        todo = [*self._includes]
        while todo:
            incl = todo.pop()
            incl._base = base
            todo += incl._includes
'''), ("paths/config.py", '''        self._locales = locales
        for incl in self._includes:
            incl.locales = locales
''', '''        for incl in self._includes:
            incl.locales = locales
        self._locales = locales
'''), ("paths/config.py", '''        all: dict[tuple[str, str], list[str] | None] = {}
        for key, locales in self._all(format_map):
            if key not in all:
                all[key] = locales
                continue
            prev = all[key]
            if prev and locales:
                locales_ = list(set(prev).union(locales))
                locales_.sort()
                all[key] = locales_
            else:
                # At least one entry is not limited to some locales
                all[key] = None
        return all
''', '''        lists: dict[tuple[str, str], list[list[str] | None]] = {}
        for key, locales in self._all(format_map):
            lists.setdefault(key, []).append(locales)
        return {key: self._union(ll) for key, ll in lists.items()}

    @staticmethod
    def _union(lists: list[list[str] | None]) -> list[str] | None:
        if len(lists) == 1:
            return lists[0]
        if not all(lists):
            return None
        return sorted({lc for ls in lists for lc in ls or ()})
''')],
    "discover-helper": [("paths/discover.py", '''        dirs_with_contents: set[str] = set()
        for ld in l10n_dirs:
            parent = ld
            while True:
                parent = dirname(parent)
                if parent in base_dirs:
                    dirs_with_contents.add(parent)
                if parent == root or parent == dirname(parent):
                    break
        base_dirs = {
            bd: lds for bd, lds in base_dirs.items() if bd in dirs_with_contents
        } or base_dirs
''', '''        def has_contents(bd: str) -> bool:
            return any(ld != bd and _dir_contains(bd, ld) for ld in l10n_dirs)

        with_contents = {}
        for bd in base_dirs:
            if has_contents(bd):
                with_contents[bd] = base_dirs[bd]
        if with_contents:
            base_dirs = with_contents
'''), ("paths/discover.py", '''            locale_dirs = []
            for dir in dirnames:
                if dir in ref_dir_scores:
                    ref_dirs[join(dirpath, dir)] = ref_dir_scores[dir]
                elif locale_id.fullmatch(dir):
                    locale_dirs.append(dir)
            if locale_dirs:
                base_dirs[dirpath] = locale_dirs
            dirnames[:] = (dn for dn in dirnames if not dn.startswith("."))
''', '''            for dir in filter(ref_dir_scores.__contains__, dirnames):
                ref_dirs[join(dirpath, dir)] = ref_dir_scores[dir]
            locale_dirs = [
                dir
                for dir in dirnames
                if dir not in ref_dir_scores and locale_id.fullmatch(dir)
            ]
            if locale_dirs:
                base_dirs[dirpath] = locale_dirs
            for hidden in [dn for dn in dirnames if dn.startswith(".")]:
                dirnames.remove(hidden)
''')],
    "build-file-order": [("bin/build_file.py", '''        try:
            source_res = parse_resource(source)
        except UnsupportedFormat:
            source_res = None
        makedirs(dirname(target) or ".", exist_ok=True)
''', '''        with open(source, "rb") as source_file:
            source_data = source_file.read()
        try:
            source_res = parse_resource(source, source_data)
        except UnsupportedFormat:
            source_res = None
        target_dir = dirname(target)
        if target_dir:
            makedirs(target_dir, exist_ok=True)
'''), ("bin/build_file.py", '''            if file_exists(coverage_path):
                with open(coverage_path, encoding="utf-8") as file:
                    coverage_data = json.load(file)
''', '''            try:
                with open(coverage_path, "rb") as file:
                    coverage_data = json.loads(file.read().decode("utf-8"))
            except (FileNotFoundError, NotADirectoryError):
                pass
''')],
    "build-exists": [("bin/build.py", '''    try:
        stat(path)
        return True
    except (FileNotFoundError, NotADirectoryError):
        return False


def copy''', '''    try:
        fd = os_open(path, O_RDONLY)
    except (FileNotFoundError, NotADirectoryError):
        return False
    close(fd)
    return True


def copy'''), ("bin/build.py", "from os import makedirs, stat\n", "from os import O_RDONLY, close, makedirs\nfrom os import open as os_open\n"),
    ("bin/build.py", '''    with open(from_path, "rb") as file:
        data = file.read()
    write_file(tgt_path, data)
''', '''    data = bytearray()
    with open(from_path, "rb") as file:
        while chunk := file.read(4096):
            data += chunk
    write_file(tgt_path, data)
''')],
    "build-merge": [("bin/build.py", '''        if id in l10n_map:
            l10n_entry = l10n_map[id]
            if is_fluent and not l10n_entry.id[0].startswith("-"):
                # If source_res includes Fluent message attributes not in l10n_res, exclude the entry.
                # If l10n_res includes additional message attributes,
                # include the entry but leave out the attributes not in source_res.
                sk = source_entry.properties.keys()
                lk = l10n_entry.properties.keys()
                if sk != lk:
                    if set(sk).issubset(lk):
                        for name in set(lk).difference(sk):
                            del l10n_entry.properties[name]
                        return l10n_entry
                    msg_delta -= 1
                    missing_ids.append(missing_id(id))
                    return None
            return l10n_entry
        if is_fluent:
            msg_delta -= 1
            missing_ids.append(missing_id(id))
            return None

        msg_delta += 1
        missing_ids.append(missing_id(id))
        return source_entry
''', '''        l10n_entry = l10n_map.get(id)
        if (
            is_fluent
            and l10n_entry is not None
            and not l10n_entry.id[0].startswith("-")
        ):
            props = source_entry.properties
            if any(name not in l10n_entry.properties for name in props):
                l10n_entry = None
            else:
                l10n_entry.properties = {
                    name: value
                    for name, value in l10n_entry.properties.items()
                    if name in props
                }
        if l10n_entry is not None:
            return l10n_entry
        missing_ids.append(missing_id(id))
        msg_delta += -1 if is_fluent else 1
        return None if is_fluent else source_entry
''')],
    "parse-dispatch": [("resource/parse_resource.py", '''        with open(input, mode="rb") as file:
            source = file.read()
            input_is_file = True
''', '''        input_is_file = True
        with open(input, mode="rb", buffering=0) as file:
            source = file.read()
'''), ("util/loads.py", '''    try:
        return loads(source), True
    except JSONDecodeError:
        source_: str | bytes
        if isinstance(source, str):
            source_ = str_comment.sub(r"\\1", source)
        else:
            source_ = bytes_comment.sub(rb"\\1", source)
        return loads(source_), False
''', '''    try:
        data = loads(source)
    except JSONDecodeError:
        pass
    else:
        return data, True
    if isinstance(source, str):
        return loads(str_comment.sub(r"\\1", source)), False
    return loads(bytes_comment.sub(rb"\\1", source)), False
''')],
}

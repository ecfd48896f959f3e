"""Which operations create, change or delete files, and which paths they act on."""
from .core import *  # noqa: F401,F403
from .interp import lib

# function: positions of the paths that are written, created, renamed or removed
LIBRARY = {
    "shutil.rmtree": (0,), "shutil.move": (0, 1), "shutil.copy": (1,), "shutil.copy2": (1,), "shutil.copyfile": (1,), "shutil.copytree": (1,),
    "shutil.copymode": (1,), "shutil.copystat": (1,), "shutil.unpack_archive": (1,), "shutil.make_archive": (0,), "shutil.chown": (0,),
    "os.remove": (0,), "os.unlink": (0,), "os.rmdir": (0,), "os.removedirs": (0,), "os.rename": (0, 1), "os.replace": (0, 1), "os.renames": (0, 1),
    "os.mkdir": (0,), "os.makedirs": (0,), "os.symlink": (1,), "os.link": (1,), "os.truncate": (0,), "os.chmod": (0,), "os.chown": (0,),
    "os.utime": (0,), "os.mknod": (0,), "os.mkfifo": (0,), "os.system": (), "os.popen": (), "os.write": (), "os.ftruncate": (),
    "pathlib.mkdir": (0,), "pathlib.rmdir": (0,), "pathlib.touch": (0,), "pathlib.unlink": (0,), "pathlib.rename": (0, 1), "pathlib.replace": (0, 1),
    "pathlib.symlink_to": (0,), "pathlib.hardlink_to": (0,), "pathlib.chmod": (0,),
    "tempfile.mkdtemp": (), "tempfile.mkstemp": (), "tempfile.TemporaryDirectory": (), "tempfile.NamedTemporaryFile": (), "tempfile.TemporaryFile": (),
    "logging.FileHandler": (0,), "logging.handlers.RotatingFileHandler": (0,), "logging.handlers.TimedRotatingFileHandler": (0,), "sqlite3.connect": (0,), "shelve.open": (0,),
    "dbm.open": (0,), "os.open": (0,), "numpy.save": (0,), "numpy.savetxt": (0,), "numpy.savez": (0,), "urllib.request.urlretrieve": (1,),
}
REMOVES = {"shutil.rmtree": 0, "shutil.move": 0, "os.remove": 0, "os.unlink": 0, "os.rmdir": 0, "os.removedirs": 0, "os.rename": 0, "os.replace": 0,
           "os.renames": 0, "pathlib.rmdir": 0, "pathlib.unlink": 0, "pathlib.rename": 0, "pathlib.replace": 0}
MOVES = {"shutil.move": (0, 1), "os.rename": (0, 1), "os.replace": (0, 1), "os.renames": (0, 1), "pathlib.rename": (0, 1), "pathlib.replace": (0, 1)}
DIRECTORIES = {"os.mkdir", "os.makedirs", "pathlib.mkdir"}
STARTS = ("subprocess.", "os.exec", "os.spawn", "tempfile.")
# methods of library objects
ZIP = {"extract": 1, "extractall": 0}
H5 = {"create_group", "create_dataset", "require_group", "require_dataset", "create_virtual_dataset", "modify", "resize", "write_direct", "make_scale",
      "create_dataset_like"}
OTHER = {"setValue", "sync", "unlink", "rmdir", "touch", "write_text", "write_bytes", "symlink_to", "hardlink_to", "rmtree", "mkdir", "rename", "extract", "extractall",
         "writestr", "savetxt", "tofile", "to_csv"}


# which open what is given for reading or for writing, by mode
OPENERS = {"zipfile.ZipFile", "gzip.open", "bz2.open", "lzma.open", "gzip.GzipFile", "tarfile.open", "io.open", "codecs.open", "h5py.h5f.open"}


def is_none(v):
    return all(t is NONE for t in v.leaves()) if isinstance(v, GVal) else v is NONE


class Write:
    __slots__ = ("event", "verb", "paths")

    def __init__(self, event, verb, paths):
        self.event, self.verb, self.paths = event, verb, paths

    def text(self):
        return "%s(%s)" % (self.verb, ", ".join(show(p) for p in self.paths))


def strip(v):
    if isinstance(v, GVal):
        return g_map(strip, v)
    if v.op == "f" and v.args[0] == "str" and len(v.args) == 2:
        return v.args[1]
    return v


def keyword(e, *names):
    kw = e.args.get("kwargs") or {}
    for n in names:
        if n in kw:
            return kw[n]
    return None


def mode_writes(m, text_only=True):
    """may this mode of open write?"""
    out = F
    for t, g in m.items:
        if t.op == "c":
            s = str(cval(t))
            if any(ch in s for ch in "wax+"):
                out = b_or(out, g)
        else:
            out = b_or(out, g)
    return out


def writes(r):
    for e in r.events:
        if e.kind == "lib":
            n = e.args["name"]
            a = e.args["args"]
            if n in LIBRARY:
                ps = [strip(a[i]) for i in LIBRARY[n] if i < len(a)]
                for i, names in enumerate((("src", "path", "name"), ("dst", "extract_dir", "target"))):
                    k = keyword(e, *names)
                    if k is not None and i in LIBRARY[n]:
                        ps.append(strip(k))
                yield Write(e, n, ps)
            elif n.startswith(STARTS):
                yield Write(e, n, [])
            elif n == "h5py.File":
                m = a[1] if len(a) > 1 else keyword(e, "mode")
                if m is None:
                    m = V(C("r"))  # the default since h5py 3.0
                for t, g in m.items:
                    if not (t.op == "c" and cval(t) == "r") and b_and(e.guard, g) != F:
                        yield Write(e, "h5py.File, mode " + show(t), [strip(a[0])] if a else [])
            elif n in OPENERS:
                m = a[1] if len(a) > 1 else keyword(e, "mode")
                if m is not None and b_and(e.guard, mode_writes(m if isinstance(m, GVal) else V(m))) != F:
                    yield Write(e, n + " for writing", [strip(a[0])] if a else [])
            elif n == "logging.basicConfig" and keyword(e, "filename") is not None and not is_none(keyword(e, "filename")):
                yield Write(e, n, [strip(keyword(e, "filename"))])
        elif e.kind == "open":
            m = e.args.get("mode") or V(C("r"))
            if b_and(e.guard, mode_writes(m if isinstance(m, GVal) else V(m))) != F:
                yield Write(e, "open for writing", [strip(e.args["path"])])
        elif e.kind == "libm":
            n = e.args["name"]
            a = e.args["args"]
            if n in ZIP:
                i = ZIP[n]
                p = a[i] if i < len(a) else keyword(e, "path")
                yield Write(e, "." + n, [strip(p)] if p is not None else [V(C("the working directory"))])
            elif n in OTHER or n in H5:
                yield Write(e, "." + n, [])
        elif e.kind in ("setitem", "delitem"):
            o = e.args["obj"]
            if isinstance(o, Term) and o.op == "a" and o.args[1] == "attrs":
                yield Write(e, "change of HDF5 attributes", [])


def starts_with(path, base):
    """is this path term at or below the base path term?"""
    if path is base:
        return True
    if base.op == "f" and base.args[0] == "path":
        b = base.args[1:]
    else:
        b = (base,)
    if path.op == "f" and path.args[0] == "path":
        return path.args[1 : 1 + len(b)] == b
    return False


def below(path, base):
    b = base.args[1:] if base.op == "f" and base.args[0] == "path" else (base,)
    if path is base:
        return ()
    if starts_with(path, base):
        return path.args[1 + len(b) :]
    return None

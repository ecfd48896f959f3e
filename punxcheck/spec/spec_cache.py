"""Reference behaviour: caches, installation.  Analysed, never executed."""
import datetime
import json
import os
import pathlib
import shutil
import zipfile
import io

import requests
from PyQt5 import QtCore

from punx import cache_manager


# C41

def download(url):
    for attempt in range(cache_manager.GITHUB_RETRY_COUNT):
        try:
            answer = requests.get(url, verify=False)
        except requests.exceptions.ConnectionError as exc:
            if attempt == cache_manager.GITHUB_RETRY_COUNT - 1:
                raise IOError(exc)
        else:
            return zipfile.ZipFile(io.BytesIO(answer.content))


# C02 - C06

def plain(name):
    return name not in ("", ".", "..") and os.path.basename(name) == name


def install(name, cache_path, replace=False):
    if not plain(name):
        raise ValueError("name")
    final = cache_path / name
    if final.exists() and not replace:
        return
    url = "https://github.com/nexusformat/definitions/archive/" + name + ".zip"
    archive = cache_manager.download_NeXus_zip_archive(url)
    if archive is None:
        return
    root = archive.filelist[0].filename.split("/")[0]
    if not plain(root):
        raise ValueError("archive")
    directories = ("base_classes", "applications", "contributed_definitions", root)
    number = 0
    newest = (1980, 1, 1, 1, 1, 1)
    for member in archive.filelist:
        path = pathlib.Path(member.filename)
        if path.suffix in (".xsd", ".xml", ".xsl") and path.parent.name in directories:
            archive.extract(member, cache_path)
            newest = max(member.date_time, newest)
            number += 1
    if number < 2:
        raise ValueError("empty")
    when = datetime.datetime(*newest[:3], hour=newest[3], minute=newest[4], second=newest[5])
    record = {
        "ref": name,
        "sha": archive.comment.decode("utf8"),
        "zip_url": url,
        "last_modified": when.isoformat(sep=" "),
    }
    with open(cache_path / root / "__github_info__.json", "w") as f:
        f.write(json.dumps(record, indent=2))
    if final.exists():
        shutil.rmtree(final, ignore_errors=True)
    shutil.move(cache_path / root, final)


def read_record(file_set, file_name=None):
    if file_name is None and file_set.ref is None:
        raise ValueError("no file")
    file_name = file_name or file_set.info
    if not os.path.exists(file_name):
        raise FileNotFoundError(file_name)
    file_set.info = file_name
    file_set.path = os.path.abspath(os.path.dirname(file_name))
    record = json.loads(open(file_name).read())
    file_set.ref = record.get("ref")
    file_set.sha = record.get("sha")
    file_set.zip_url = record.get("zip_url")
    file_set.last_modified = record.get("last_modified")


# C07

def cache_file_sets(cache):
    if cache.qsettings is None:
        raise RuntimeError("no settings")
    found = {}
    where = os.path.dirname(str(cache.qsettings.fileName()))
    for name in os.listdir(where):
        record = os.path.join(where, name, "__github_info__.json")
        if os.path.isdir(os.path.join(where, name)) and os.path.exists(record):
            found[name] = cache_manager.NXDL_File_Set()
            found[name].read_info_file(record)
    return found


def known_file_sets(manager):
    known = {}
    known.update(manager.source.all_file_sets)
    known.update(manager.user.all_file_sets)
    manager.NXDL_file_sets = known
    return known


# C08

def select(manager, ref=None):
    if ref not in manager.NXDL_file_sets:
        ref = max(manager.NXDL_file_sets, key=lambda name: manager.NXDL_file_sets[name].last_modified)
    manager.default_file_set = manager.NXDL_file_sets[ref]
    return manager.default_file_set


def run_install(args):
    manager = cache_manager.CacheManager()
    for name in args.file_set_name:
        cache_manager.download_file_set(name, pathlib.Path(manager.user.path), replace=args.update)


def source_cache(cache):
    path = pathlib.Path(cache_manager.__file__).parent.absolute() / "cache" / "punx.ini"
    cache.qsettings = QtCore.QSettings(str(path), QtCore.QSettings.IniFormat)


def user_cache(cache):
    cache.qsettings = QtCore.QSettings(QtCore.QSettings.IniFormat, QtCore.QSettings.UserScope, "punx", "punx")
    if cache.qsettings is None:
        raise RuntimeError("no settings")
    path = pathlib.Path(cache.path)
    path.mkdir(parents=True, exist_ok=True)
    if not path.exists():
        raise RuntimeError("no directory")


def cache_manager_init(manager):
    manager.default_file_set = None
    manager.source = cache_manager.SourceCache()
    manager.user = cache_manager.UserCache()
    manager.NXDL_file_sets = manager.all_file_sets
    try:
        manager.select_NXDL_file_set()
    except KeyError:
        pass

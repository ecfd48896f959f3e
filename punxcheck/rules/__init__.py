"""Which rule decides which property."""

RULES = {}


def _add(mod, **kw):
    for pid, fn in kw.items():
        RULES[pid] = (mod, fn)


_add("findings", C18="C18", C19="C19", C20="C20", C21="C21", C22="C22", C23="C23", C24="C24", C25="C25", C26="C26", C27="C27", C28="C28")
_add("util", C29="C29", C30="C30", C32="C32", C33="C33", C43="C43")
_add("program", C37="C37")
_add("cache", C02="C02", C03="C03", C04="C04", C05="C05", C06="C06", C07="C07", C41="C41")
_add("nxdl", C08="C08", C09="C09", C10="C10", C12="C12", C13="C13", C14="C14", C15="C15", C16="C16")
_add("cli", C31="C31", C35="C35", C36="C36", C40="C40", C42="C42")
_add("values", C34="C34")
_add("state", C11="C11")
_add("catalog", C17="C17")
_add("effects", C01="C01")
_add("schema", C44="C44", C45="C45")
_add("trees", C38="C38", C39="C39")

ASSUME = [
    "the sources in /repo/punx are what runs (no monkey patching, no exec/eval/import hooks)",
    "library calls behave as modelled in punxcheck/lib.py (h5py, lxml, requests, zipfile, argparse, re, the standard library)",
]


class Context:
    def __init__(self, tier):
        self.tier = tier
        self._cache = {}
        self.extra = []

    def assumptions(self):
        return ASSUME + self.extra

    def get(self, name, make):
        if name not in self._cache:
            self._cache[name] = make()
        return self._cache[name]

    def validation(self):
        from ..validation import Validation

        return self.get("validation", Validation)

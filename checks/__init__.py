REGISTRY = {}
NOT_APPLICABLE = {}
NOTES = {}


def register(pid, module, func, explanation, note=""):
    REGISTRY[pid] = (module, func, explanation)
    if note:
        NOTES[pid] = note + " "


from . import registry  # noqa: E402,F401

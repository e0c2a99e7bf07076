"""CrossHair target of P29: the formatter of /repo against the documented mapping."""
import importlib.util
import os

_p = os.path.join(os.environ.get("PHILTORCH_REPO", "/repo"), "philtorch", "_version.py")
_s = importlib.util.spec_from_file_location("philtorch_version_under_test", _p)
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
format_branch_name = _m.format_branch_name


def oracle(name):
    if name == "master" or name == "dev" or name == "main":
        return name
    if name == "head" or name == "HEAD":
        return "dev+" + name
    if name.startswith("fix/") and len(name) > 4 or name.startswith("feat/") and len(name) > 5:
        return "dev+" + name
    return None


def agrees(name):
    if chr(10) in name:
        return True
    want = oracle(name)
    try:
        got = format_branch_name(name)
    except ValueError:
        return want is None
    return want is not None and got == want


def check(name: str) -> bool:
    """
    pre: len(name) == LENGTH
    post: _
    """
    return agrees(name)


def check_upto(name: str) -> bool:
    """
    pre: len(name) <= LENGTH
    post: _
    """
    return agrees(name)

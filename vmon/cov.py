"""Line coverage of the anchored files, so evidence shows what was driven."""
import json
import os
import sys

from . import core


def _anchor_files(mod):
    path = os.path.join(core.HERE, "properties.jsonl")
    with open(path) as f:
        for line in f:
            d = json.loads(line)
            if d["id"] == mod.PROPERTY:
                return [os.path.join(core.REPO, p) for p in d["anchors"]["files"]]
    return []


def start(mod):
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return None
    files = set(_anchor_files(mod))
    hit = {}
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, "vmon")
    except ValueError:
        return None

    def on_line(code, line):
        if code.co_filename in files:
            hit.setdefault(code.co_filename, set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    return (mon, tool, hit)


def stop(tracer):
    if tracer is None:
        return None
    mon, tool, hit = tracer
    mon.set_events(tool, 0)
    mon.free_tool_id(tool)
    return hit


def _code_lines(path):
    """Executable lines inside functions (module level ran before monitoring)."""
    try:
        with open(path) as f:
            top = compile(f.read(), path, "exec")
    except Exception:
        return set()
    lines = set()

    def rec(code, inside):
        for const in code.co_consts:
            if hasattr(const, "co_lines"):
                # class bodies run at import
                is_fn = bool(const.co_flags & 0x2)
                if is_fn:
                    ls = {ln for *_, ln in const.co_lines() if ln}
                    ls.discard(const.co_firstlineno)
                    lines.update(ls)
                rec(const, is_fn)

    rec(top, False)
    return lines


def summary(mod, lines):
    out = {}
    for path in _anchor_files(mod):
        total = _code_lines(path)
        got = lines.get(path, set()) & total
        out[os.path.relpath(path, core.REPO)] = f"{len(got)}/{len(total)}"
    return out

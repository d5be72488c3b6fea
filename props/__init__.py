"""Which harnesses decide which property."""


def run(c):
    from . import snapshot, history, project, stage, files, format, clone
    mods = [snapshot, history, project, stage, files, format, clone]
    for m in mods:
        if c.prop in m.PROPS:
            m.PROPS[c.prop](c)
            return
    raise SystemExit("unknown property " + c.prop)

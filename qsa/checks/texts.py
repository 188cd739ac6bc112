"""How each property is decided (used for DESIGN.md)."""


def text(p):
    from . import hamalg
    if p in hamalg.TEXT:
        return hamalg.TEXT[p]
    from . import lints
    return lints.TEXT[p]

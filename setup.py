#!/usr/bin/env python3
"""Builds the harness from /repo's tree and checks that TLC's overrides compute what the
specification defines."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import base


def rows(overrides):
    base.tlc(ctx, "SelfTest", overrides=overrides, workers=1, tag=str(overrides))
    text = "".join(l for l in open(ctx.path("SelfTest%s.out" % overrides)) if not l.startswith(("Loading", "Progress")))
    return text[text.index("<<"):text.rindex(">>")]


ctx = base.Ctx("setup", "quick")
base.build()
a, b = rows(True), rows(False)
if a != b:
    print("TLC's overrides disagree with the modules they override")
    sys.exit(1)
base.cleanup(ctx)
print("ok")

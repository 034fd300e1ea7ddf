#!/usr/bin/env python3
"""setup_cmd: builds the libraries of every flavor and all harnesses, so that the checks only rebuild what changed."""
import sys
import check
from props import PROPS

bad = 0
for prop, conf in sorted(PROPS.items()):
    try:
        if conf.get("script"):
            __import__(conf["script"]).setup(prop, conf)
        else:
            check.build(prop, conf)
    except check.CheckError as e:
        print("%s: %s" % (prop, e))
        bad += 1
sys.exit(1 if bad else 0)

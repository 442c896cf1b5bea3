"""run one generator operation in a fresh interpreter: op (JSON) on stdin, result (JSON) on stdout"""
import json
import logging
import os
import sys

from . import ops, target


def main():
    op = json.load(sys.stdin)
    level = op.pop("level", None)
    if level:
        target.modules()
        logging.root.setLevel(level)
        for lg in list(logging.root.manager.loggerDict.values()):
            if isinstance(lg, logging.Logger):
                lg.setLevel(level)
    try:
        res = ops.perform(op)
    finally:
        target.cleanup()
    sys.stdout.write(json.dumps(res))
    sys.stdout.flush()
    os._exit(0)


main()

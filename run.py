#!/usr/bin/env python3
"""run.py <property-id>: decide one property on /repo's current tree."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
import check  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--setup':
        check.extractor()
        print('extractor built')
        sys.exit(0)
    import registry  # noqa: E402
    check.main(pid, registry.REGISTRY[pid])

"""Entry point: /opt/venv/bin/python /verif/check.py <property id> [--tier quick|thorough]."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pbt import boot  # noqa: E402,F401  (must come first)
from pbt import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:2] == ["--worker"]:
        sys.exit(core.worker_main(sys.argv[2:]))
    sys.exit(core.main())

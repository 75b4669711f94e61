"""Plans schemas in a process with its own hash seed. Reads JSON requests, answers with JSON lines."""
import json
import logging
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtpath  # noqa: E402  pylint: disable=wrong-import-position

vtpath.install()
logging.disable(logging.CRITICAL)

from subsetter.common import DatabaseConfig  # noqa: E402  pylint: disable=wrong-import-position
from subsetter.config_model import PlannerConfig  # noqa: E402  pylint: disable=wrong-import-position
from subsetter.planner import Planner  # noqa: E402  pylint: disable=wrong-import-position

for line in sys.stdin:
    req = json.loads(line)
    try:
        planner = Planner(DatabaseConfig(**req["source"]), PlannerConfig(**req["planner"]))
        out = {"plan": planner.plan().model_dump(by_alias=True, exclude_unset=True)}
        planner.engine.dispose()
    except Exception as exc:  # pylint: disable=broad-except
        out = {"error": type(exc).__name__, "text": str(exc)}
    print(json.dumps(out), flush=True)

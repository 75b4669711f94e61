import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vtpath  # noqa: E402

vtpath.install()


def _main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--dialect")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()

    import db

    db.preload()
    import core

    if args.replay:
        try:
            return core.replay(args.prop, args.replay, args.tier)
        finally:
            db.stop_servers()
    try:
        return core.main(
            args.prop,
            args.tier,
            args.seed,
            args.only,
            args.scale,
            set(args.dialect.split(",")) if args.dialect else None,
        )
    finally:
        db.stop_servers()


if __name__ == "__main__":
    rc = 2
    try:
        rc = _main()
    except SystemExit as exc:
        raise
    except BaseException:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

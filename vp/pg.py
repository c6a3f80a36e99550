"""A throw-away PostgreSQL server (unix socket only) for the visit-sequence archive checks.

The server runs as the unprivileged `postgres` user (wrappers in /opt/vp/pgbin, first on PATH) with its data in
a scratch directory that `stop()` removes.  Every worker process uses its own schema.
"""

import os
import shutil
import tempfile

_S = {"server": None, "dir": None, "arch": {}, "pid": None}
TABLES = ["visitseq", "simulations", "completed", "mixedvisitseq", "tags", "comments", "files", "conda_env", "nightly_stats"]


def start():
    if _S["server"] is not None:
        return
    from rubin_sim.sim_archive.tempdb import LocalOnlyPostgresql

    os.environ.pop("PGTZ", None)  # it would override the session time zone chosen below
    d = tempfile.mkdtemp(prefix="vp_pg_")
    os.chmod(d, 0o711)
    os.mkdir(os.path.join(d, "db"))
    _S["dir"] = d
    _S["server"] = LocalOnlyPostgresql(base_dir=os.path.join(d, "db"), postgres_args="-F -c logging_collector=off -c max_connections=900")
    _S["pid"] = os.getpid()


def stop():
    if _S["server"] is not None and _S["pid"] == os.getpid():
        try:
            _S["server"].stop()
        finally:
            shutil.rmtree(_S["dir"], ignore_errors=True)
            _S["server"] = None


def dsn(tz="UTC"):
    return _S["server"].psycopg2_dsn(options=f"-c timezone={tz}")


def schema():
    return f"test_{os.getpid()}"


def new_archive(tz="UTC"):
    from rubin_sim.sim_archive.vseqmetadata import VisitSequenceArchiveMetadata

    return VisitSequenceArchiveMetadata(metadata_db_kwargs=dsn(tz), metadata_db_schema=schema())


def close(a):
    try:
        a.sa_engine.dispose()
    except Exception:  # noqa: BLE001
        pass
    try:
        a.pg_pool.closeall()
    except Exception:  # noqa: BLE001
        pass


def archive(tz="UTC"):
    """A fresh archive object on this process's schema, whose tables are emptied through a separate connection."""
    import psycopg2

    made = _S["arch"]
    if made.get("pid") != os.getpid():
        made.clear()
        made["pid"] = os.getpid()
        a = new_archive()
        a.create_schema_in_database()
        close(a)
        made["conn"] = psycopg2.connect(**dsn())
        made["conn"].autocommit = True
    with made["conn"].cursor() as c:
        for t in TABLES:
            c.execute(f'DELETE FROM "{schema()}".{t}')
    return new_archive(tz)


def rows(query, *params):
    """Independent look into the database (`{s}` is the schema)."""
    with _S["arch"]["conn"].cursor() as c:
        c.execute(query.replace("{s}", f'"{schema()}"'), params)
        return c.fetchall()

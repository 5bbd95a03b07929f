"""Imports everything in the right order: seams first, then the libraries, then the code under test."""
import sys, os
REPO = os.environ.get("SIM_REPO", "/repo")
sys.dont_write_bytecode = True


def boot():
    from . import guest
    if getattr(guest, "_installed", False):
        return
    guest._installed = True
    import logging
    guest.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import requests, httpx, asyncio, coverage, argcomplete, json, pickle, urllib3, certifi, charset_normalizer, idna
    import netrc, encodings.idna, http.cookiejar, anyio, sniffio, h11, httpcore
    try:
        import anyio._backends._asyncio
    except Exception:
        pass
    from . import simnet
    simnet.install()
    import booktest, booktest.cli, booktest.runs, booktest.reports, booktest.review, booktest.testrun, booktest.cache
    import booktest.requests, booktest.httpx, booktest.functions, booktest.env, booktest.tests, booktest.utils
    import booktest.config
    if not os.path.abspath(booktest.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("wrong booktest: " + booktest.__file__)
    mods = [m for n, m in sorted(sys.modules.items()) if n.startswith("booktest.") and m is not None
            and n not in ("booktest.tokenizer", "booktest.testcaserun")]
    guest.patch_datetime([m for n, m in sys.modules.items() if n.startswith("booktest") and m is not None])
    guest.collect_codes(mods)
    booktest.config.DEFAULT_CONFIG = None if hasattr(booktest.config, "DEFAULT_CONFIG") else None
    import gc
    gc.collect()
    gc.freeze()

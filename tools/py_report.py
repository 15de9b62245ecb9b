"""Runs the report scripts of the repository on histories. Input: JSON list of {script, argv, outputs}; output: one JSON list of file contents (or null and the error) per line."""
import sys, json, io, os, runpy, contextlib, warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLCONFIGDIR", "/nonexistent")
scripts = os.path.join(os.environ.get("PCHECK_REPO", "/repo"), "scripts")
for job in json.load(sys.stdin):
    sys.argv = [job["script"]] + job["argv"]
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(scripts, job["script"]), run_name="__main__")
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, e)
    out = []
    for f in job["outputs"]:
        out.append(open(f).read() if os.path.exists(f) else None)
    print(json.dumps({"error": err, "files": out}))

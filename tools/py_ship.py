"""Runs the shipped example cases. Input: JSON list of {"script", "out"}; output: one JSON status per line."""
import sys, json, io, contextlib, runpy, warnings

warnings.simplefilter("ignore")
answers = []
for job in json.load(sys.stdin):
    sys.argv = [job["script"], job["out"]]
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            runpy.run_path(job["script"], run_name="__main__")
        s = "ok"
    except SystemExit as e:
        s = "exit %s" % e.code
    except Exception as e:
        s = "%s: %s" % (type(e).__name__, e)
    answers.append(s)
for s in answers:
    print(json.dumps(s))

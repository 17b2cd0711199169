# Runs under Jython 2.7: the settings generator of the tree under test, once per request.
import sys, json, traceback, tempfile, logging
tool, tmp = sys.argv[1], sys.argv[2]
sys.path.insert(0, tool)
tempfile.tempdir = tmp
rin, rout = sys.stdin, sys.stdout

class Nothing(object):
    def close(self):
        pass

while True:
    line = rin.readline()
    if not line:
        break
    req = json.loads(line)
    sys.argv = [str(x) for x in [tool + "/" + req.get("tool", "domainGenerator.py")] + req["argv"]]
    out, err = open(str(req["out"]), "w"), open(str(req["err"]), "w")
    so, se = sys.stdout, sys.stderr
    sys.stdin, sys.stdout, sys.stderr = Nothing(), out, err
    del logging.root.handlers[:]
    died = 0
    try:
        try:
            execfile(sys.argv[0], {"__name__": "__main__", "__file__": sys.argv[0]})
            rc = 0
        except SystemExit, e:
            rc = e.code
            rc = 0 if rc is None else rc if isinstance(rc, (int, long)) else 1
        except:
            traceback.print_exc(None, err)
            rc, died = 1, 1
    finally:
        sys.stdin, sys.stdout, sys.stderr = rin, so, se
        out.close()
        err.close()
    rout.write(json.dumps({"rc": rc, "died": died}) + "\n")
    rout.flush()

#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current source by static analysis (see DESIGN.md)."""
import importlib, json, sys, os, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    prop = sys.argv[1]
    titles = {}
    for l in open(vf.VERIF + '/properties.jsonl'):
        p = json.loads(l)
        titles[p['id']] = p['title']
    mod = importlib.import_module('checks.' + prop)
    ck = vf.Check(prop, titles[prop], ' '.join(mod.__doc__.split()))
    def late():
        # no answer in time is no answer at all: report what has been found so far
        ck.undecided.append('not finished within %d s' % vf.LIMIT)
        rc = ck.finish()
        sys.stdout.flush()
        vf.kill_children()
        os._exit(rc)
    watch = threading.Timer(vf.LIMIT, late)
    watch.daemon = True
    watch.start()
    try:
        mod.run(ck)
    except vf.Open as e:
        ck.undecided.append(str(e))
    except vf.Broken as e:
        ck.broken.append(str(e))
    except Exception:
        ck.broken.append(traceback.format_exc())
    watch.cancel()
    sys.exit(ck.finish())


main()

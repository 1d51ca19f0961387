'''Replay a reported violation: python3 -m sim.replay FILE (exit 1 and a VIOLATION line if it fails in the same way, 0 if not)'''
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.check import server, helpers

def main():
    path = sys.argv[1]
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix = 'sim-')
    ps = []
    try:
        ps += helpers(d['plan']['env'].get('helpers', []), scratch)
        s = server(d['plan'], scratch)
        ps.append(s)
        r = s.ask(d['plan'], 400)
    finally:
        for p in ps: p.stop()
        shutil.rmtree(scratch, ignore_errors = True)
    for l in r['log']: print('  ', l)
    print(f"{r['status']} {r.get('kind', '')}: {r.get('message', '')}\nsame event log: {r['hash'] == d['hash']}")
    if r['status'] in ('violation', 'timeout') and r['kind'] == d['kind']:
        print(f"VIOLATION property={d['plan']['prop']} replay={path}")
        sys.exit(1)
    sys.exit(0 if r['status'] == 'ok' else 2)

if __name__ == '__main__': main()

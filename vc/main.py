"""python -m vc.main <goals,> <out.json> <deadline> <timeout ms>: proves goals, writes what came of each."""
import json
import sys

def main():
    names, out, deadline, timeout = sys.argv[1].split(','), sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    result = {'goals': [], 'error': None}
    try:
        from . import build, clone, convey, describe, edit, format, markup, nested, goals, round, surrogates, table, texts, fork
        unknown = [n for n in names if n not in goals.GOALS]
        if unknown:
            raise ValueError('no such goal: %s' % unknown)
        reports = fork.prove_all(names, deadline=deadline, timeout=timeout)
        result['goals'] = [goals.summary(reports[n]) for n in names]
    except Exception as e:
        import traceback
        result['error'] = traceback.format_exc()[-2000:]
    with open(out, 'w') as f:
        json.dump(result, f, indent=1)

if __name__ == '__main__':
    main()

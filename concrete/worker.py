"""worker.py <module:case> <seed> <seconds> <maximum number of cases> <out.json> [first]: drives one case generator"""
import json
import os
import random
import sys
import time
import traceback
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))  # another tree only while developing

def summary(case):
    """the schema and the last call of a case, as text"""
    from concrete import compare, records
    rec, last = records.LAST['built'], compare.CALLS['last']
    s = ''
    try:
        if rec is not None:
            s = records.show(rec)
    except Exception:
        pass
    if last is not None:
        fn, args, kw = last
        s += ' | %s%s %s' % (getattr(fn, '__qualname__', getattr(fn, '__name__', '?')),
            tuple(compare.brief(a, 200) for a in args), compare.brief(kw, 200) if kw else '')
    return s

def from_repo(e):
    """whether an exception was raised by the real code (rather than by the oracle)"""
    tb, path = e.__traceback__, ''
    while tb is not None:
        path = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return '/scheme/' in path and not path.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/')

def main():
    name, seed, seconds, limit, out = sys.argv[1:6]
    first = int(sys.argv[6]) if len(sys.argv) > 6 else 0
    module, fn = name.split(':')
    end = time.time() + float(seconds)
    result = {'cases': 0, 'calls': 0, 'hashes': [], 'samples': [], 'failure': None, 'error': None, 'errors': 0}
    hashes = set()
    try:
        mod = __import__('concrete.' + module, None, None, [fn])
        from concrete import compare, records
        case = getattr(mod, fn)
        i = first
        while i - first < int(limit) and time.time() < end:
            rng = random.Random('%s/%s/%d' % (name, seed, i))
            records.LAST['built'] = compare.CALLS['last'] = None
            try:
                bad = case(rng)
            except RecursionError:
                bad = None
            except Exception as e:
                bad = None
                if from_repo(e):
                    bad = {'what': 'an unexpected exception of the real code', 'schema': summary(fn),
                        'code': traceback.format_exc()[-3000:], 'contract': 'no exception'}
                else:
                    result['errors'] += 1
                    result['error'] = traceback.format_exc()[-3000:]
            result['cases'] += 1
            if bad:
                bad.update(case=name, seed=seed, index=i, zone=os.environ.get('TZ', 'UTC'))
                result['failure'] = bad
                break
            if compare.CALLS['last'] is not None and len(hashes) < 200000:
                s = summary(fn)
                hashes.add(zlib.crc32(s.encode("utf8", "replace")))
                if i - first in (3, 50, 400):
                    result['samples'].append(s[:600])
            i += 1
        result['calls'] = compare.CALLS['n']
    except Exception:
        result['error'] = traceback.format_exc()[-3000:]
        result['errors'] += 1
    result['hashes'] = sorted(hashes)
    with open(out, 'w') as f:
        json.dump(result, f)

if __name__ == '__main__':
    main()

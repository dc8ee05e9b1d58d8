"""run.py PROPERTY TIER SEED BUDGET | PROPERTY --replay FILE"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
MODULES = {'V01': 'w_validation', 'V02': 'w_validation', 'V03': 'w_typecheck', 'T01': 'w_typeddict', 'T02': 'w_typeddict',
           'D01': 'w_dispatch', 'D02': 'w_dispatch', 'F01': 'w_files', 'F02': 'w_files', 'F03': 'w_files', 'M01': 'w_main',
           'K01': 'w_compiler', 'K02': 'w_compiler', 'K03': 'w_compiler', 'K04': 'w_compiler', 'K05': 'w_compiler',
           'K06': 'w_compiler', 'K07': 'w_compiler', 'K08': 'w_compiler', 'K09': 'w_compiler', 'G02': 'w_compiler'}


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = open(os.devnull, 'w')
    common.setup()
    m = importlib.import_module(MODULES[prop])
    if sys.argv[2] == '--replay':
        data = json.load(open(sys.argv[3]))
        bad = 0
        for f in data['failing_inputs']:
            s = common.Search('quick', 1, 60)
            m.replay(prop, f['input'], s)
            for g in s.failures:
                bad += 1
                out.write('REPRODUCED ' + json.dumps(g) + '\n')
        out.write(f'{bad} failing input(s) reproduced\n')
        out.flush()
        return 1 if bad else 0
    s = common.Search(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]))
    m.search(prop, s)
    out.write(json.dumps(s.result()) + '\n')
    out.flush()
    return 0


if __name__ == '__main__': os._exit(main())

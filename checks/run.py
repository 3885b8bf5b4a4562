"""entry: run.py <property id> (tier from VERIF_TIER)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'irvc'))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.hash_randomization == 0:
    os.environ['PYTHONHASHSEED'] = '0'
    if os.environ.get('VERIF_REEXEC') != '1':
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)

import importlib

MODS = {
    'H01': 'hashes', 'H02': 'hashes', 'H03': 'hashes', 'H05': 'hashes',
    'H04': 'asmsha', 'S02': 'asmchacha',
    'C01': 'codecs', 'C02': 'codecs', 'C03': 'codecs', 'C04': 'codecs',
    'M01': 'macs', 'M02': 'poly', 'M03': 'keys',
    'K01': 'kdfs', 'K02': 'kdfs',
    'S01': 'ciphers',
    'A01': 'aeads', 'A02': 'aeads', 'A03': 'aeads',
    'X01': 'erase', 'X02': 'reuse', 'X03': 'dispatch', 'X04': 'cexpr',
}


def main():
    pid = sys.argv[1]
    m = importlib.import_module('c_' + MODS[pid])
    try:
        sys.exit(m.main(pid))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('%s: internal error, no verdict' % pid)
        sys.exit(3)


if __name__ == '__main__':
    main()

import importlib
import os
import sys

TABLE = {
    'C01': ('cache', 'c01'), 'C02': ('cache', 'c02'), 'C03': ('cache', 'c03'), 'C04': ('cache', 'c04'),
    'S01': ('scheds', 'c_s01'), 'S02': ('scheds', 'c_s02'), 'S03': ('scheds', 'c_s03'), 'S04': ('scheds', 'c_s04'),
    'S05': ('rpcs', 'c_s05'),
    'S07': ('logs', 'c_s07'),
    'S08': ('interrupts', 'c_s08'),
    'S06': ('parbuild', 'c_s06'),
    'C06': ('crash', 'c06'), 'C09': ('binding', 'c09'), 'C10': ('objects', 'c10'), 'B01': ('targets', 'b01'), 'B03': ('commands', 'b03'), 'B02': ('installs', 'b02'), 'B05': ('options', 'b05'), 'B09': ('guesses', 'b09'), 'B07': ('libs', 'b07'), 'B04': ('cbuild', 'b04'), 'B08': ('templates', 'b08'), 'B06': ('patterns', 'b06'), 'B10': ('mlbuild', 'b10'), 'C05': ('cache', 'c05'), 'C07': ('cache', 'c07'), 'C08': ('cache', 'c08'),
}


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    modname, fn = TABLE[prop]
    mod = importlib.import_module('mc.checks.' + modname)
    return getattr(mod, fn)(tier)


if __name__ == '__main__':
    from mc import util
    try:
        rc = main(sys.argv)
    finally:
        util.cleanup_scratch()
    sys.exit(rc)

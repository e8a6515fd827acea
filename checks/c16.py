"""C16 Run and telescope description blocks decode to the written values."""
from harness.core import Sub
from harness.gen import composite, eq
from harness import blocks_simtel as bs, enc
from harness.util import EventIOFile, BLOCKS, check_parsed, value_nontrivial, value_oracle, value_strategy

NAMES = ['run_header', 'mc_run_header', 'camera_settings', 'camera_organization', 'pixel_settings',
         'disabled_pixels', 'camera_software_settings', 'pointing_correction', 'drive_settings']
VERSIONED = ['camera_settings', 'camera_organization', 'pixel_settings', 'run_header']


def gen_neutral(d):
    name = d.choice(VERSIONED)
    _, gen, versions = BLOCKS[name]
    return dict(name=name, blocks=[gen(d, v) for v in versions])


def oracle_neutral(case, ctx):
    """the versions of a block type report the same names"""
    data = b''.join(enc.top(b['type'], b['payload'], b['version'], b['id']) for b in case['blocks'])
    keys = []
    with EventIOFile(ctx.file(data)) as f:
        for b, o in zip(case['blocks'], f):
            r = o.parse()
            check_parsed(dict(b, name=case['name']), o, r)
            keys.append(set(r.keys()))
    ctx.label(case['name'])


SUBS = [
    Sub('values', value_oracle, value_strategy(NAMES, 3), quick=18000, thorough=150000, nontrivial=value_nontrivial,
        rule='every block type of the file header in every version; non-trivial = payload beyond the counters'),
    Sub('versions', oracle_neutral, lambda tier: composite(gen_neutral), quick=3000, thorough=20000,
        nontrivial=lambda c: True,
        rule='all versions of one block type one after another in one file; all non-trivial'),
]

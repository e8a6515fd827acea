"""Writes MANIFEST.json: every property with a check module is claimed."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
TECH = 'property-based testing (Hypothesis, shrinking) of generated %s against %s'
WHAT = {
    'C01': ('EventIO files', 'the written list of blocks'),
    'C02': ('block trees and traversal calls', 'the written tree'),
    'C03': ('read/seek/tell histories over several objects', 'an in-memory file model'),
    'C04': ('byte streams in all storage forms and forward access patterns', 'the uncompressed file (differential) and the written tree'),
    'C05': ('file contents, names and markers', 'the marker predicate'),
    'C06': ('peek/next/read histories', 'plain iteration (model with look-ahead)'),
    'C07': ('histories of deferred, repeated and out of order parsing with several readers', 'the written values and deep snapshots'),
    'C08': ('cut positions of files of all kinds', 'the results of the complete file (prefix relation)'),
    'C09': ('corrupted blocks, files and decoder arguments (mutation fuzzing, AddressSanitizer build)', 'crash, time and over-read oracles'),
    'C10': ('integers, encodings, offsets and arrays', 'an independent encoder and decoder'),
    'C11': ('block types and versions', 'the table of supported versions (exhaustive)'),
    'C12': ('photon bunch blocks and chunk sizes', 'the written bunches'),
    'C13': ('photo-electron blocks', 'the written photo-electrons'),
    'C14': ('CORSIKA blocks', 'the written values'),
    'C15': ('shower files', 'the event model they were written from'),
    'C16': ('run and telescope description blocks', 'the written values'),
    'C17': ('ADC and trace blocks', 'the written samples'),
    'C18': ('event level blocks', 'the written values'),
    'C19': ('Monte Carlo blocks', 'the written values'),
    'C20': ('monitoring blocks', 'the written values'),
    'C21': ('histogram blocks', 'the written histograms'),
    'C22': ('files with history and metadata', 'the written entries'),
    'C23': ('telescope ids, types and block ids (exhaustive and generated)', 'the encoding rules'),
    'C24': ('simulation files', 'the event model they were written from'),
    'C25': ('simulation files and selection options', 'the filtered unrestricted iteration (metamorphic)'),
    'C26': ('simulation files with monitoring histories', 'a state model with snapshots'),
    'C27': ('simulation file headers', 'the model they were written from'),
    'C28': ('files, limits and size strings', 'the longest prefix of whole blocks'),
    'C29': ('block trees and tool options', 'counting the written tree'),
    'C30': ('open/read/fail/close/drop histories', '/proc/self/fd and the table of child processes'),
    'C31': ('sequences of primitive values on all kinds of streams', 'the written values and positions'),
    'C32': ('sequences of blocks of any type', 'the table of documented types'),
    'C35': ('files, tools and options, with the output ending at any byte because its reader or the space ends', 'the complete report, its prefixes, and the exit status'),
    'C36': ('files of n and 2n copies of generated blocks, events or showers, read in every way', 'calls, bytes read and memory for twice the data'),
    'C37': ('values, events and errors of valid and damaged files, copied, pickled, and read by forked or pooled workers and by threads switched all the time', 'the written values after copying and in every thread, and the parent reader after forking'),
    'C34': ('shower and simulation files with missing, repeated, moved or foreign blocks', 'an acceptor of the documented structure and the event model without the refused blocks'),
    'C33': ('files with histograms, shown or saved', 'the written histograms, compared with what the recorded figures draw'),
}
NOTE = ('Generated-input search: no counterexample among the cases counted in the evidence file. Trusts the '
        'independent writer in harness/ (own encoder of the format, no code shared with the repository) and the '
        'bounds on sizes stated there.')
EXTRA = {
    'C09': ' Memory safety is judged by an AddressSanitizer build of the compiled decoders and by comparing results for '
           'equal slices of different buffers.',
    'C11': ' The version axis is enumerated completely for every block type.',
    'C23': ' Telescope ids 0..999 and all 65536 type numbers are enumerated.',
}


def main():
    props = [json.loads(l) for l in (ROOT / 'properties.jsonl').read_text().splitlines()]
    checks, na = [], []
    for p in props:
        i = p['id']
        if not (ROOT / 'checks' / (i.lower() + '.py')).exists():
            na.append(dict(property=i, reason='check not built yet (work in progress)'))
            continue
        checks.append(dict(
            property=i, quick_cmd='%s check.py %s' % (PY, i),
            thorough_cmd='%s check.py %s --tier thorough' % (PY, i),
            evidence_file='evidence/%s.json' % i,
            technique=TECH % WHAT[i], level='exploration', level_note=NOTE + EXTRA.get(i, ''),
        ))
    m = dict(version=1, setup_cmd='%s tools/setup.py' % PY, checks=checks, not_applicable=na,
             notes='No hooks in /repo: the checks use the public interface. Extensions are always compiled from the '
                   'current .pyx files into /verif/.cache (content addressed).')
    (ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')


main()

#!/usr/bin/env python3
# regenerates MANIFEST.json; CLAIMED: id -> (technique, level, note)
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection: '
CLAIMED = {
 'C01': (DST+'seeded file layouts and storage faults (open error, truncation at every byte, EIO, short reads) under a simulated disk; reference decoder as oracle', 'fault_enumeration', 'directed part cuts / fails every byte of small files; the rest is seeded sampling'),
 'C02': (DST+'as C01 for reference input / output files', 'fault_enumeration', 'directed part cuts / fails every byte of small files; the rest is seeded sampling'),
 'C03': (DST+'stored-byte corruption (flips, overwritten, swapped, duplicated, lost blocks, wrong network) with memory checking and a lenient reference decoder', 'exploration', 'seeded sampling of corruption sequences'),
 'C04': (DST+'simulated disk, corruption and read faults, pixel-exact oracle', 'exploration', 'seeded sampling'),
 'C05': (DST+'simulated disk, corruption and read faults, pixel-exact oracle', 'exploration', 'seeded sampling'),
 'C06': (DST+'simulated disk, corruption and read faults, independent libjpeg decode as oracle, use-after-close monitor', 'exploration', 'seeded sampling; libjpeg itself is trusted'),
 'C07': (DST+'simulated disk, cut and faulty text tables, line oracle', 'exploration', 'seeded sampling'),
 'C08': (DST+'write, flush, close and disk-full faults at seeded bytes; stored bytes against a reference encoder', 'exploration', 'seeded sampling of fault bytes'),
 'C09': (DST+'crash at a seeded stored byte, lost tail, old contents; read back with the real reader', 'exploration', 'crash model: a prefix of the bytes written persists'),
 'C10': (DST+'histories of loads and saves with corrupted files and storage, write and close faults; accounting of handles and heap blocks (means of release, double release, leak)', 'exploration', 'seeded sampling of histories'),
 'C11': (DST+'every allocation of a load, of creating a layer and of an inference failed in turn (once, or from then on), heap accounting, retry against the reference', 'fault_enumeration', 'per operation every allocation index is failed; operations, shapes and contents are sampled'),
 'C12': (DST+'seeded, conflict-directed thread schedules at instrumented memory accesses; every result compared bit for bit with its solo run and with a double-precision reference', 'exploration', 'seeded sampling of schedules and shapes; sequentially consistent interleavings of single accesses (no weak memory)'),
 'C13': (DST+'seeded histories of inferences (other layers, shapes, failed allocations, poisoned fresh memory and outputs) compared with a fresh process running only the last inference', 'exploration', 'seeded sampling of histories'),
 'C14': (DST+'every store of the code under test checked against the frame of the call (its output and blocks made by it), fault and history as C13', 'exploration', 'seeded sampling'),
 'C15': (DST+'the importer as a simulated process over a directory with seeded history: killed at any file operation (also within a write), interrupted at any line, failing or short writes, full disk; the real loaders of all versions judge what is left', 'fault_enumeration', 'for one model every operation of an import is killed and failed, over an empty and over used directories; models and histories are sampled; onnx and jinja2 are stand-ins'),
 'C16': (DST+'seeded and directed models imported by the real importer, compiled, and run by simulated callers under seeded schedules, interleaved instances, failed and repeated weight loads; every output against a double-precision evaluation of the model with an error bound', 'exploration', 'models, inputs, schedules and load faults are sampled; onnx and jinja2 are stand-ins'),
 'C17': (DST+'imports under seeded hash seed, clock, random source, process id, directory order and contents, environment, buffer size and after other (also killed) imports in the same process; byte comparison with a fresh process', 'exploration', 'seeded sampling of models, histories and environments; onnx and jinja2 are stand-ins'),
 'C18': (DST+'the generated random-input program run as a simulated process under simulated clock (same second, stalls, jumps), random generator, storage faults on the weights file and wrong arguments; every inference observed', 'exploration', 'directed part cuts the weights of a model at every byte; the rest is seeded sampling'),
 'C19': (DST+'the generated reference program run as a simulated process on complete, cut, corrupted, exchanged, unreadable files and outputs off by seeded amounts (also NaN), announcement and exit status against an oracle with a lenient decoder', 'fault_enumeration', 'directed part cuts each file of a model at every byte; the rest is seeded sampling'),
 'C20': (DST+'seeded histories of create, load (with faults, other networks files, failing allocations), run and destroy over several instances; heap and handle accounting after every step', 'exploration', 'seeded sampling of histories'),
 'C21': (DST+'the converter as a simulated process with seeded histories of conversions, killed or failing at any file operation or line; the real readers judge every file left behind', 'fault_enumeration', 'for one set of tensors every operation and every line is killed, failed or interrupted; the rest is sampled; onnx is a stand-in'),
 'C23': (DST+'seeded and directed models outside the supported set, imported between two imports of an ordinary model of the same name in one directory (one or several processes); refused imports judged by status and by what they leave, accepted ones compiled and run by simulated callers (failing and repeated loads) against a double-precision evaluation of the model', 'exploration', 'directed part covers every kind of deviation known to the generator at several ranks and positions; seeded sampling beyond'),
 'C24': (DST+'the generator as a simulated process with seeded histories of runs under simulated random source, killed, interrupted or failing at any file operation or line; the real readers judge every file left behind', 'fault_enumeration', 'for one run of each kind of input every operation and line is killed, failed or interrupted; the rest is sampled; caffe2, onnx, magic and imageio are stand-ins'),
 'C25': (DST+'the checker as a simulated process on complete, cut, damaged, lost, exchanged and surplus data, seeded deviations, failing evaluations, reads and interruptions; status and announcement against an independent comparison', 'fault_enumeration', 'for one model every cut of every file and every read and line is failed; the rest is sampled; caffe2 and onnx are stand-ins'),
 'C26': (DST+'the program as a simulated process with seeded histories of runs over a folder, killed, interrupted or failing at any file operation or line; every picture left behind against an independent computation', 'fault_enumeration', 'for one run of each mode every operation, read and line is killed, failed or interrupted; the rest is sampled; Pillow is a stand-in'),
 'C27': (DST+'the program as a simulated process with seeded histories of runs, failing at any file operation, read or line; every file against the values the simulated framework returned', 'fault_enumeration', 'for one model every operation, read and line is failed; the rest is sampled; onnx-tf and onnx are stand-ins'),
 'C28': (DST+'the five example programs as simulated processes with a stand-in network that checks every input; seeded data sets, pictures, tables, paths and arguments with storage faults on every file; status and report against an independent computation', 'exploration', 'seeded sampling plus a directed part over sizes, path lengths, arguments and unopenable files; the generated network is a stand-in; the inputs of the recorded findings are left out'),
}
PENDING = {}
NA = {
 'C22': 'Pure function of shape and contents: no schedule, clock, I/O, allocation failure or history influences addressing, equality or printed form, so there is nothing for a simulator to decide (tensor contents are compared bit for bit as part of the other checks).',
}
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: all seams are made at link time (--wrap) or by the Python interpreter, see DESIGN.md.'}
    for p in props:
        i = p['id']
        if i in CLAIMED:
            t, l, n = CLAIMED[i]
            m['checks'].append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'technique': t, 'level': l, 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i) or 'Check under construction.'})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()

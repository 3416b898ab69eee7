#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HIST = 'explicit-state model checking of the implementation: breadth-first over histories of edits and real builds, an ideal cache as reference model'
HNOTE = ('Every history within the bound is executed by the real command line, in a fresh process per build, and '
         'compared call by call with the ideal cache. Bounded: small generated scripts, 3 builds per history in quick. '
         'Assumes an edit changes the modification time or is less than a second old, and deterministic scripts.')
SCHED = 'stateless model checking of the implementation: its threads run under a controlled scheduler, all schedules up to a bound of deviations from several base policies'
SNOTE = ('The modules of /repo run unmodified on replacements for threading, queue and time whose every operation, and every statement '
         'of the modules under test, is a scheduling point. Every schedule with at most 1-2 deviations (quick) from three base policies is '
         'executed for each listed program. Assumes switches only at those points.')
SPACE = 'explicit-state model checking of the implementation: every case of a bounded space of inputs and short histories is executed, and its outcome compared with a reference model'
BNOTE = 'Every case within the bound is executed by the real code, in a fresh process with a scratch directory of its own. '
CHECKS = {
 'S01': (SCHED, 'model_checking', SNOTE),
 'S02': (SCHED, 'model_checking', SNOTE),
 'S03': (SCHED, 'model_checking', SNOTE),
 'S04': (SCHED, 'model_checking', SNOTE),
 'S05': (SCHED, 'model_checking', SNOTE),
 'S06': (SCHED + '; the state left is followed by sequential builds after every edit', 'model_checking', SNOTE + ' What the database thread does for one request is one step.'),
 'S07': (SCHED, 'model_checking', SNOTE),
 'S08': (SCHED + ', with SIGINT as one more alternative at every point; the state left is followed by another build', 'model_checking',
         'The real main program on replacements for threading, time and signal, with the real queue module. One signal at every point of the base schedules, two or a signal and another deviation for the smallest build (quick). '
         'Signals do not come half way through an operation of a lock or condition: Python has gaps of its own there. Single commands of real builds are interrupted as well.'),
 'C01': (HIST, 'model_checking', HNOTE),
 'C02': (HIST, 'model_checking', HNOTE),
 'C03': (HIST, 'model_checking', HNOTE),
 'C04': (HIST, 'model_checking', HNOTE),
 'C05': (HIST, 'model_checking', HNOTE),
 'C06': ('explicit-state model checking of the implementation with fault enumeration: the build is killed at every operation on the build tree, followed by real builds compared with the ideal cache and a build from scratch', 'model_checking',
         'Every operation that changes the build tree, as seen by a preloaded library, is a kill point, and most writes are also cut in half; the histories up to the kill are fixed small ones. Death of the process, not loss of what it wrote. Sources are not put back to earlier contents after the kill.'),
 'C09': ('explicit-state model checking of the implementation: for every signature and every shape of call within the bounds the sequence of calls is executed on each engine and compared with the plain function', 'model_checking',
         'All signatures up to 3 parameters, all call shapes up to the bound, values from a small list. Functions are identified by module and qualified name.'),
 'C10': (HIST, 'model_checking', HNOTE + ' Objects that contain themselves, and functors, are not covered.'),
 'C07': (HIST, 'model_checking', HNOTE),
 'C08': (HIST, 'model_checking', HNOTE),
 'B01': (SPACE, 'model_checking', BNOTE + 'Target lists up to 3 names over 10 (2 and 5 script variants with sqlite), then a second run that shows what was saved.'),
 'B03': (SPACE + '; races of the timeout with the end of the command: all schedules of the real function over a model of the process', 'model_checking', BNOTE + 'Commands are a real program with chosen outputs, exit status, delays and children. The races are explored under a controlled scheduler, with a process model that is compared with real processes.'),
 'B02': (SPACE, 'model_checking', BNOTE + 'The tree before and after is compared entirely. Installation through pkexec is not covered.'),
 'B04': (HIST.replace('an ideal cache as reference model', 'compared with a build from scratch after every step') + '; the tools are stand-ins, compared with the installed gcc and ar', 'model_checking',
         'Every history of 2 edits out of 33 (3 for the main ones) of one project with nested headers and libraries, with stand-ins for gcc, ar and ranlib, and single edits with the real ones. '
         'Not covered: a header that did not exist coming to hide one that was used, libraries given to the constructor of a builder, tools exchanged for others.'),
 'B10': (HIST.replace('an ideal cache as reference model', 'compared with a build from scratch after every step') + '; the tools are stand-ins, compared with the installed ones of OCaml', 'model_checking',
         'Every history of 2 edits of one project with interfaces, a library, lexer, grammar and pack, bytecode and native, with stand-ins for ocamldep, ocamlc, ocamlopt, ocamllex and ocamlyacc, and single edits and back with the real ones. '
         'Not covered: sources that come or go, ocamlfind, C stubs.'),
 'B07': (SPACE, 'model_checking', BNOTE + 'All dependency graphs of up to 4 libraries, listed in every order, and every request; the commands are compared with the graph and linked by a single-pass stand-in, samples with the installed gcc.'),
 'B05': (SPACE, 'model_checking', BNOTE + 'Two features, up to 2-3 options in a row on each kind of value, through every way options reach a builder.'),
 'B06': (SPACE, 'model_checking', BNOTE + 'Patterns and names up to 4-6 characters over small alphabets, against a matcher written from the documentation; globs over small trees.'),
 'B08': (SPACE, 'model_checking', BNOTE + 'Templates up to a length over the pieces of each syntax; histories of edits and builds with both engines. The C configuration headers and file.move are not covered.'),
 'B09': (SPACE, 'model_checking', BNOTE + 'The constructors of the builders are replaced by stand-ins that work or fail; real ones are made once with gcc and g++.'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    if p not in CHECKS:
        NA.setdefault(p, 'not claimed: its check is not finished')
m = {
 'version': 1,
 'setup_cmd': './setup',
 'checks': [dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                 technique=t, level=l, level_note=n) for p, (t, l, n) in CHECKS.items()],
 'not_applicable': [dict(property=p, reason=r) for p, r in NA.items() if p not in CHECKS],
 'notes': 'No hooks: the checks drive the unmodified sources of /repo.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

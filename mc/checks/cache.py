"""Checks C01-C04: the cache against the ideal cache, over histories."""
from .. import hist, util
from . import scn_cache as S

ASSUME = [
    'an edit of a file changes its modification time, or the file was modified within the last second',
    'build scripts are deterministic functions of their arguments, declared/registered files and the cached functions they call',
    'files do not change behind the build while it runs',
    'generated scripts, up to the stated numbers of functions, files, edits and builds',
]


def run(prop, scenarios, keep):
    rep = util.Report(prop, 'model_checking', ASSUME)
    hist.explore(rep, scenarios, keep=keep)
    rep.coverage['exhaustive'] = not rep.coverage.get('stopped_early')
    rep.coverage['scenarios'] = ', '.join(sorted({s.name for s in scenarios}))
    return rep.finish()


def not_needless(v): return v['kind'] != 'needless'


def deeper(scns, n=1):
    for s in scns:
        s.depth += n
    return scns


def c01(tier):
    return run('C01', [S.Shared(), S.Outputs(), S.Overwritten(), S.Single(), S.Directories(),
        S.Contents('edit'), S.Contents('edit_same'), S.Contents('edit_frac')], not_needless)


def c02(tier):
    return run('C02', [S.Unrelated(), S.Shared(), S.Outputs(), S.Directories(), S.Overwritten()], lambda v: v['kind'] == 'needless')


def c03(tier):
    scns = [S.CallGraph(e) for e in S.callgraphs()]
    scns += [S.ConditionalCalls(), S.SourceAndCode(), S.Recursion(), S.CaughtErrors(), S.OtherModule(), S.CodeEdits()]
    return run('C03', scns, None)


def c04(tier):
    return run('C04', [S.External(), S.NestedExternal()], None)


from . import scn_more as M


def c05(tier):
    return run('C05', [M.InProcess(), M.Switching(), M.Values(), M.Mutating(), M.Falsy()], None)


def c07(tier):
    return run('C07', [M.Failing(), M.FailingKinds(), M.FailingOutputs(), M.FailingCode()], None)


def c08(tier):
    return run('C08', [M.Maintenance()], None)

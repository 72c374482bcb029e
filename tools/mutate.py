#!/usr/bin/env python3
"""Mutation campaign: how much of the code would the checks notice being wrong?
mutate.py WORK SEED COUNT [FILE-REGEX]   (WORK: scratch directory holding repo/ (a copy of /repo) and build/)
Every mutant is built and simulated; mutants that survive go through the project's tests; those that pass both
are written to WORK/survivors for inspection (they are equivalent, or show what programs are missing)."""
import json, os, random, re, subprocess, sys, time

W, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
PAT = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
JOBS = os.environ.get('MUT_JOBS', '6')
V = os.environ.get('MUT_V', '/verif')
O = 'jlm/llvm/opt/'
A = O + 'alias-analyses/'
TARGETS = {
    'C04': [O + 'CommonNodeElimination.cpp', O + 'DeadNodeElimination.cpp', O + 'InvariantValueRedirection.cpp',
            O + 'NodeReduction.cpp', 'jlm/llvm/ir/operators/Load.cpp', 'jlm/llvm/ir/operators/Store.cpp',
            'jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/theta.cpp'],
    'C05': [O + 'StoreValueForwarding.cpp', O + 'LoadChainSeparation.cpp', O + 'AggregateAllocaSplitting.cpp',
            A + 'LocalAliasAnalysis.cpp', 'jlm/llvm/ir/trace.cpp', 'jlm/llvm/ir/Trace.cpp'],
    'C06': [O + 'LoopUnswitching.cpp', O + 'LoopStrengthReduction.cpp', O + 'ScalarEvolution.cpp', O + 'unroll.cpp'],
    'C07': [O + 'pull.cpp', O + 'push.cpp', O + 'IfConversion.cpp', O + 'PredicateCorrelation.cpp',
            O + 'IOBarrierElimination.cpp'],
    'C08': [O + 'inlining.cpp', 'jlm/llvm/ir/operators/call.cpp', 'jlm/llvm/ir/CallSummary.cpp'],
    'C03': [A + 'Andersen.cpp', A + 'RegionAwareModRefSummarizer.cpp',
            A + 'AgnosticModRefSummarizer.cpp', A + 'MemoryStateEncoder.cpp', A + 'PointsToGraph.cpp'],
    'C10': [A + 'PointerObjectSet.cpp', A + 'DifferencePropagation.hpp', A + 'LazyCycleDetection.hpp',
            A + 'OnlineCycleDetection.hpp', 'jlm/util/Worklist.hpp', 'jlm/util/TarjanScc.hpp'],
    'C14': ['jlm/rvsdg/' + f for f in
            'region.cpp region.hpp node.cpp node.hpp graph.cpp simple-node.cpp structural-node.cpp traverser.cpp '
            'traverser.hpp gamma.cpp gamma.hpp theta.cpp theta.hpp lambda.cpp Phi.cpp Phi.hpp delta.cpp substitution.hpp '
            'MatchType.hpp'.split()],
    'C13': ['jlm/tooling/Command.cpp', 'jlm/tooling/CommandGraph.cpp', 'jlm/tooling/CommandGraphGenerator.cpp',
            'jlm/tooling/CommandLine.cpp', 'tools/jlm-opt/jlm-opt.cpp', 'tools/jlc/jlc.cpp', 'jlm/util/file.cpp',
            'jlm/util/file.hpp'],
    'C12': [A + f for f in ['LocalAliasAnalysis.cpp', 'PointsToGraphAliasAnalysis.cpp', 'Andersen.cpp',
            'PointsToGraph.cpp', 'AliasAnalysis.cpp']],
    'C11': ['jlm/hls/backend/rvsdg2rhls/' + f + '.cpp' for f in
            'DeadNodeElimination GammaConversion ThetaConversion UnusedStateRemoval add-buffers add-forks add-sinks '
            'alloca-conv decouple-mem-state distribute-constants hls-function-util mem-conv mem-queue mem-sep '
            'memstate-conv merge-gamma remove-redundant-buf rhls-dne rvsdg2rhls stream-conv'.split()],
    'C01': ['jlm/llvm/frontend/LlvmModuleConversion.cpp', 'jlm/llvm/frontend/LlvmInstructionConversion.cpp',
            'jlm/llvm/frontend/LlvmConversionContext.cpp', 'jlm/llvm/frontend/LlvmTypeConversion.cpp',
            'jlm/llvm/frontend/InterProceduralGraphConversion.cpp',
            'jlm/llvm/frontend/ControlFlowRestructuring.cpp', 'jlm/llvm/backend/RvsdgToIpGraphConverter.cpp',
            'jlm/llvm/backend/IpGraphToLlvmConverter.cpp', 'jlm/llvm/ir/aggregation.cpp', 'jlm/llvm/ir/Annotation.cpp',
            'jlm/llvm/ir/ssa.cpp', 'jlm/llvm/ir/cfg-structure.cpp'],
}
SKIPLINE = re.compile(r'Timer|^\s*(//|\*|/\*|JLM_ASSERT|JLM_UNREACHABLE|throw|#|case|default|AddMeasurement)|Statistics|statistics|'
                      r'std::string|DebugString|debug')


def candidates(path):
    text = open(path).read()
    out = []
    lines = text.split('\n')
    off = 0
    skipped = 0
    for n, l in enumerate(lines):
        start = off
        off += len(l) + 1
        if SKIPLINE.search(l):
            continue
        m = re.match(r'^(\s*)(?:else )?if \((.*)\)\s*$', l)
        if m and ' = ' not in l and '[' not in l.split('(')[0] and l.count('(') == l.count(')'):
            a, b = m.start(2) + start, m.end(2) + start
            out += [(a, b, 'false'), (a, b, 'true')]
        for m in re.finditer(r' (&&|\|\|) ', l):
            out.append((start + m.start(1), start + m.end(1), '||' if m.group(1) == '&&' else '&&'))
        for m in re.finditer(r' (<|<=|>|>=|==|!=) ', l):
            alt = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '=='}[m.group(1)]
            if 'for (' in l:
                continue
            out.append((start + m.start(1), start + m.end(1), alt))
        for m in re.finditer(r'\b(true|false)\b', l):
            out.append((start + m.start(), start + m.end(), 'false' if m.group() == 'true' else 'true'))
        if re.match(r'^\s+[A-Za-z_][\w:\.\->\(\)\*\[\]]*\(.*\);$', l) and l.count('(') == l.count(')'):
            a = start + len(l) - len(l.lstrip())
            out.append((a, start + len(l), ';'))
        if re.match(r'^\s+(continue|break);$', l):
            out.append((start + len(l) - len(l.lstrip()), start + len(l), ';'))
        for m in re.finditer(r'(\w+) ([+-]) (1|\w+)\b(?!\()', l):
            out.append((start + m.start(2), start + m.end(2), '-' if m.group(2) == '+' else '+'))
        for m in re.finditer(r'\b(output|input)\((0|1|2)\)', l):
            out.append((start + m.start(2), start + m.end(2), str((int(m.group(2)) + 1) % 3)))
    return text, out


def sh(c, t=None):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, 'timeout'


def main():
    repo = W + '/repo'
    rng = random.Random(SEED)
    pool = []
    for prop, files in TARGETS.items():
        for f in files:
            if os.path.exists(repo + '/' + f) and PAT.search(prop + ':' + f):
                _, c = candidates(repo + '/' + f)
                pool += [(prop, f, x) for x in c]
    rng.shuffle(pool)
    env = f'JLM_REPO={repo} JLM_SIM_BUILD={W}/build '
    os.makedirs(W + '/survivors', exist_ok=True)
    tally = {}
    for p in ['C%02d' % n for n in range(1, 20)]:
        with open(f'{W}/{p}.known', 'w') as k:
            for x in json.load(open(V + '/known_findings.json'))['findings']:
                if x['property'] == p:
                    k.write(x['class'] + '\n')
    print(len(pool), 'mutants possible', flush=True)
    for i, (prop, f, (a, b, new)) in enumerate(pool[:COUNT]):
        path = repo + '/' + f
        text = open(path).read()
        open(path, 'w').write(text[:a] + new + text[b:])
        line = text.count('\n', 0, a) + 1
        t = time.time()
        res = ''
        try:
            rc, o = sh(env + f'python3 {V}/sim/build.py', 600)
            if rc:
                res = 'does not compile'
            else:
                for p, secs in [('C01', 12), ('C02', 12), ('C09', 10)] if prop == 'C01' else [
                        (prop, 12), (prop, 30)] if prop >= 'C10' else [(prop, 15), ('C09', 10), (prop, 30)]:
                    rc, o = sh(f'{W}/build/jlmsim batch --prop={p} --seed=1 --seconds={secs} --jobs={JOBS} '
                               f'--known={W}/{p}.known --out={W}/b.json', 200)
                    d = json.load(open(W + '/b.json')) if os.path.exists(W + '/b.json') else {}
                    if rc or d.get('violations'):
                        res = f'killed by {p} rc {rc}'
                        break
                else:
                    rc, o = sh(f"unshare -Urm bash -c 'mount --bind {repo} /repo && bash /opt/vp/test.sh {W}/t.json'", 900)
                    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
                    try:
                        got = set(json.load(open(W + '/t.json'))['passed'])
                    except Exception:
                        got = set()
                    bad = [x for x in want if x not in got]
                    res = 'tests' if bad else 'SURVIVED'
                    dd, diff = sh(f'git -C {repo} diff -U4')
                    open(f'{W}/survivors/{SEED}-{i}-{res}.diff', 'w').write(f'{prop} {f}:{line}\n{bad[:3]}\n' + diff)
        finally:
            open(path, 'w').write(text)
        k = res.split(' rc')[0]
        tally[k] = tally.get(k, 0) + 1
        print(i, prop, f'{f}:{line}', repr(text[a:b][:60]), '->', new, '|', res, round(time.time() - t), 's', flush=True)
        if i % 20 == 19:
            print(tally, flush=True)
    print(tally)


main()

"""Writes DESIGN.md from design_head.md, the check modules (bounds, assumptions), known_findings.txt, the planted bugs and design_tail.md."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ORACLE = {
 'C01': 'reference model `mc/featmodel.py` (one loop per value: the named statistic of the samples in the window, NaN if one is missing), cell by cell',
 'C02': 'perturbation: each raw sample is changed and the set of output columns that move must equal the set whose published window contains it',
 'C03': 'row set computed by the reference model from the windows; values and index of features and targets compared for each row',
 'C04': 'differential: same frame through a fresh formatter vs. through a formatter with the explored history; metadata of dry run vs. real run',
 'C05': '`zoneinfo`/`calendar` arithmetic per row; the `holidays` package as authority for official holidays',
 'C06': 'each row classified with exact rational time arithmetic from the published windows',
 'C07': 'selection rule evaluated on windows recomputed by the reference model (not read from the metadata)',
 'C08': 'python evaluation of the declared expression per cell with normalizers from the reference model; inverse gives back the raw target',
 'C09': 'each single series through the reference model / a non-global formatter; in-process scheduler in place of ray (`mc/fakeray.py`)',
 'C10': 'order statistics of residuals of the validation rows recomputed by loops; labelled comparison of both output forms',
 'C11': 'selection judged as a set of existing row positions (distinct, sorted, paired, exact number), determinism, exact proportionality in expectation over all seeds of the bound',
 'C12': 'forecaster trained on columns encoded by hand with an injective map; repeated/subset/reordered predictions',
 'C13': 'differential: model with history vs. fresh model fitted once; deep comparison of inputs before/after',
 'C14': 'interpolated quantile curve at the copula sample of the same seed, re-drawn from `scipy`; influence of each calibration hour on each row',
 'C15': 'definition of a probability tree: every node, edge and step is judged; membership of node values in the input scenarios',
 'C16': 'the same tree definition plus exact superposition model (base tree of the hour + forecast of the row) and unchanged stored trees',
 'C17': 'textbook formulas in pure Python per element (`math`, loops), masks applied to elements',
 'C18': 'models that record which rows they saw; scores recomputed by hand from these records; tuning driven by a scripted trial order',
 'C19': 'textbook recursion in plain Python; differential between all chunkings',
 'C20': 'differential (perturb later rows, prefixes, copies, pickles, re-initialisation) and exactness on signals in the span of the basis',
 'C21': 'direct look-up of the past value / frequency count per (time of day, value)',
 'C22': 'sum over descendants by recursion on the declared hierarchy, projection by normal equations, permutation equivariance',
 'C23': 'value-by-value comparison in exact arithmetic, piece bookkeeping under all completion orders',
 'C24': 'per-step reference models trained separately on the features the rule selects; all completion orders of the executor',
 'C25': 'definitions element by element; the Kalman filter in exact rationals (`fractions`)',
 'C26': 'identity of both compositions, Jacobian pattern by perturbation of each input',
 'C27': 'convexity inequality on all segments of the grid (mid points), monotonicity on all ordered pairs, bounds, grid search for the optimal control, finite differences for the causal loss',
 'C28': 'differential: model before saving vs. model after loading on all outputs; every truncated file must raise and leave the model unchanged',
 'C29': 'differential against a freshly constructed forecaster with the same configuration',
 'C30': 'independent normalization around a row-by-row application of the network; scripted validation losses drive the early-stopping state machine, compared with the stated rule; numerical integration for the losses',
}
WHY = {
 'C19': 'chunkings and missing-value placements are exponential in number; a unit test fixes one', 'C28': 'crash points: every byte prefix of a saved file', 'C04': 'defects need two calls in a particular order',
 'C24': 'completion orders are chosen by the OS in a test', 'C09': 'completion orders and chunk remainders', 'C23': 'completion orders and boundary values', 'C13': 'defects need a history of calls', 'C16': 'aliasing of stored trees shows after several predictions',
}
out = [open(V + '/tools/design_head.md').read(), '\n## Properties\n']
for p in props:
    i = p['id']
    src = open(V + '/checks/%s.py' % i.lower()).read()
    ns = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            ns[n.targets[0].id] = eval(compile(ast.Expression(n.value), 'x', 'eval'))
    doc = ast.get_docstring(ast.parse(src)) or ''
    out.append('### %s %s\n' % (i, p['title']))
    out.append('* decided by: ' + doc.split(': ', 1)[-1].replace('\n', ' '))
    out.append('* oracle: ' + ORACLE[i])
    out.append('* quick bounds: ' + ns['BOUNDS']['quick'])
    out.append('* thorough bounds: ' + ns['BOUNDS']['thorough'])
    if ns.get('ASSUMPTIONS'):
        out.append('* assumptions: ' + '; '.join(ns['ASSUMPTIONS']))
    if i in WHY:
        out.append('* beyond tests because: ' + WHY[i])
    s = sorted(d for d in glob.glob(V + '/seeded/*') if json.load(open(d + '/meta.json'))['property'] == i)
    if s:
        out.append('* planted bugs: ' + ', '.join(os.path.basename(d) for d in s))
    out.append('')
out.append('## Genuine defects found and repaired\n')
for l in open(V + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        out.append('* %s `%s` %s' % m.groups() if m else '* ' + l[6:])
    elif l.startswith('known:') or l.startswith('KNOWN'):
        out.append('* (not repaired) ' + l)
out.append('\n## Planted bugs\n')
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
out.append('Each was written from the property text and the code, without looking at the check. "first" = result before any strengthening.\n')
out.append('| id | property | what it breaks | first | now |\n|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*')):
    b = os.path.basename(d); m = json.load(open(d + '/meta.json')); r = res.get(b, {})
    out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/'), r.get('first', 'caught'), r.get('now', 'caught')))
out.append('')
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))

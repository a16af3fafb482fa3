"""C28 the optimiser as a whole (src/BELLA/optimiser.py,
optimiser_with_one_pdl.py, results.py): the designs it returns."""
import contextlib
import importlib
import io
import numpy as np
from contracts.common import *
from contracts.b_diso import delta, longest


PROPERTY = "C28"
O = 'src.BELLA.optimiser:BELLA_optimiser'
ANGLES = [0, 45, -45, 90]
PATH = '/nonexistent/dv/design.xlsx'


# -------------------------------------------------------------- problems
def cls(mod, name):
    return getattr(importlib.import_module('src.BELLA.' + mod), name)


def problem(plies, rules, targets, settings):
    "a structure of panels in a row, with its requirements and settings"
    c = cls('constraints', 'Constraints')(
        sym=True, bal=rules['bal'], rule_10_percent=rules['ten'],
        percent_0=10, percent_90=10, percent_45=10, percent_135=10,
        dam_tol=rules['dam'], dam_tol_rule=1, diso=rules['diso'],
        delta_angle=45, contig=rules['contig'], n_contig=rules['n_contig'],
        covering=rules['cover'], n_covering=1, pdl_spacing=False,
        set_of_angles=ANGLES)
    p = cls('parameters', 'Parameters')(
        c, group_size_min=3, group_size_max=6,
        n_ini_ply_drops=settings['runs'],
        global_node_limit=settings['nodes'], local_node_limit=4,
        global_node_limit_final=settings['last'],
        local_node_limit_final=settings['last'],
        n_plies_ref_panel=settings['ref'],
        save_success_rate=settings['keep'])
    p.time_limit_group_pdl, p.time_limit_all_pdls = .05, .5
    panels = []
    for i, n in enumerate(plies):
        panels.append(cls('panels', 'Panel')(
            i + 1, c, n_plies=n, lampam_target=np.array(targets[i]),
            lampam_weightings=np.array(
                [1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0.]),
            neighbour_panels=[i] if i else [], area=1, length_x=1,
            length_y=1))
    return c, p, cls('multipanels', 'MultiPanel')(panels), \
        cls('obj_function', 'ObjFunction')(c), cls('materials', 'Material')(
            E11=1.4e11, E22=9e9, nu12=.3, G12=4e9, density_area=300.5,
            ply_t=.0002)


HOMES = ['src.BELLA.save_set_up', 'src.BELLA.save_result',
         'src.divers.excel']


@contextlib.contextmanager
def replaced(f, new):
    "functions replaced where the optimiser may look them up"
    spaces = [f.__globals__]
    for m in ('optimiser_with_one_pdl', 'pdl_ini', 'format_pdl'):
        spaces.append(vars(importlib.import_module('src.BELLA.' + m)))
    old = [(g, n, g[n]) for g in spaces for n in new if n in g]
    for g, n, _ in old:
        g[n] = new[n]
    try:
        yield
    finally:
        for g, n, x in old:
            g[n] = x


@contextlib.contextmanager
def no_files(f):
    "spreadsheets are not written"
    old = []
    for g in [f.__globals__] + [vars(importlib.import_module(m))
                                for m in HOMES]:
        for n in list(g):
            if callable(g[n]) and (n.startswith('save_') or n in (
                    'autofit_column_widths', 'delete_file',
                    'append_df_to_excel')):
                old.append((g, n, g[n]))
                g[n] = lambda *a, **k: None
    try:
        yield
    finally:
        for g, n, x in old:
            g[n] = x


def run(f, plies, rules, targets, settings):
    c, p, mp, of, mat = problem(plies, rules, targets, settings)
    with no_files(f), contextlib.redirect_stdout(io.StringIO()):
        try:
            r = f(mp, p, of, c, PATH, mat=mat)
        except Exception as e:
            if 'no solutions' in str(e):      # reported to the user
                return None
            raise
    return dict(
        ss=[np.array(s) for s in r.ss], sst=np.array(r.sst),
        lampam=np.array(r.lampam), counts=np.array(r.n_plies_per_angle),
        obj=np.array(r.obj_no_constraints), total=float(r.obj_constraints),
        tab=np.array(r.obj_constraints_tab), best=int(r.ind_mini),
        ss_tab=r.ss_tab, n_diso=np.array(r.n_diso_tab[r.ind_mini]),
        n_contig=np.array(r.n_contig_tab[r.ind_mini]),
        target=np.array([q.lampam_target for q in mp.panels]),
        weight=np.array([q.lampam_weightings for q in mp.panels]),
        share=np.array([q.weighting for q in mp.panels]))


def done(r):
    "a design came out, repaired successfully"
    return r is not None and r["total"] < 1e10


# ------------------------------------------------------------ contracts
def post_stacks(r, plies):
    "each panel has its number of plies, in the allowed directions, symmetric"
    if not done(r):
        return True
    return len(r['ss']) == len(plies) and all(
        len(s) == n and all(int(a) in ANGLES for a in s)
        and (s == s[::-1]).all() for s, n in zip(r['ss'], plies))


def post_blended(r, plies):
    "plies are continuous: panels share each ply or drop it"
    if not done(r):
        return True
    t = r['sst']
    for i, s in enumerate(r['ss']):
        if list(t[i][t[i] != -1]) != list(s):
            return False
    for col in t.T:
        if len(set(int(x) for x in col if x != -1)) > 1:
            return False
    order = np.argsort(plies, kind='stable')
    for a, b in zip(order[:-1], order[1:]):
        if ((t[a] != -1) & (t[b] == -1)).any():
            return False
    return True


def post_same(r, plies):
    "panels of the same thickness have the same stacking sequence"
    if not done(r):
        return True
    return all(list(r['ss'][i]) == list(r['ss'][j])
               for i in range(len(plies)) for j in range(i)
               if plies[i] == plies[j])


def post_outer(r, rules):
    "damage tolerance and covering on every panel"
    if not done(r):
        return True
    for i, s in enumerate(r['ss']):
        if rules['dam'] and (abs(int(s[0])) != 45 or abs(int(s[-1])) != 45):
            return False
    if rules['cover'] and (r['sst'][:, [0, -1]] == -1).any():
        return False
    return True


def turn(a, b):
    d = abs(int(a) - int(b)) % 180
    return min(d, 180 - d)


def post_reference(r, plies, rules, settings):
    "the reference panel satisfies the rules asked for"
    if not done(r):
        return True
    return not any(breaks(s, rules) for s, n in zip(r['ss'], plies)
                   if n == reference(plies, settings))


def post_panels(r, plies, rules, settings):
    """the other panels satisfy them too, except for disorientation in
    panels thinner than the reference and one angled ply pair left unpaired"""
    if not done(r):
        return True
    return not any(breaks(s, rules, slack=2) - (
        {'diso'} if n < reference(plies, settings) else set())
        for s, n in zip(r['ss'], plies))


def breaks(s, rules, slack=0):
    "rules a laminate does not satisfy"
    out, n = set(), len(s)
    cnt = {a: int((s == a).sum()) for a in ANGLES}
    if rules['bal'] and abs(cnt[45] - cnt[-45]) > slack:
        out.add('bal')
    if rules['ten'] and any(10 * k < n for k in cnt.values()):
        out.add('ten')
    if rules['diso'] and any(turn(a, b) > 45 for a, b in zip(s[:-1], s[1:])):
        out.add('diso')
    if rules['contig'] and longest([int(a) for a in s]) > rules['n_contig']:
        out.add('contig')
    return out


def reference(plies, settings):
    "thinnest panel with the plies asked for, else the thickest"
    return min([n for n in plies if n >= settings['ref']] or [max(plies)])


def post_lampam(r, plies):
    "reported lamination parameters are those of the laminates"
    if not done(r):
        return True
    lam = importlib.import_module('src.CLA.lampam_functions').calc_lampam
    return all(np.allclose(r['lampam'][i], lam(np.array(s)), atol=1e-9)
               for i, s in enumerate(r['ss']))


def post_counts(r, plies):
    "reported ply counts are those of the laminates"
    if not done(r):
        return True
    order = sorted(ANGLES)
    return all(all(abs(float(r['counts'][i][k]) - (s == a).sum()) < 1e-9
                   for k, a in enumerate(order))
               for i, s in enumerate(r['ss']))


def post_objective(r, plies):
    "reported objectives are the distances of the laminates to the targets"
    if not done(r):
        return True
    for i in range(len(plies)):
        if plies.count(plies[i]) > 1:     # one stack for several targets
            continue
        w = r['weight'][i]
        w = w / w.sum()
        want = float((w * (r['lampam'][i] - r['target'][i]) ** 2).sum())
        if abs(want - r['obj'][i]) > 1e-9:
            return False
    return True


def post_violations(r, rules):
    "reported numbers of violations are those of the laminates"
    if not done(r):
        return True
    for i, s in enumerate(r['ss']):
        if rules['diso'] and int(r['n_diso'][i]) != sum(
                turn(a, b) > 45 for a, b in zip(s[:-1], s[1:])):
            return False
    return True


def post_best(r, plies):
    "the design returned is the best of the runs"
    if not done(r):
        return True
    t = r['tab']
    ok = ~np.isnan(t)
    return r['total'] == t[ok].min() and t[r['best']] == r['total'] \
        and all(list(a) == list(b)
                for a, b in zip(r['ss'], r['ss_tab'][r['best']]))


POSTS = [post_stacks, post_blended, post_same, post_outer, post_reference,
         post_panels, post_lampam, post_counts, post_objective, post_violations,
         post_best]


def gen(rng, size, force=None):
    k = rng.choice([1, 2, 3])
    plies = rng.sample(range(12, 24, 2), k)
    if rng.random() < .5:
        plies.sort()
    if rng.random() < .4:
        plies.append(rng.choice(plies))
    rules = {x: rng.random() < .6
             for x in ('bal', 'ten', 'dam', 'diso', 'contig', 'cover')}
    rules['n_contig'] = rng.choice([3, 4, 5])
    lam = importlib.import_module('src.CLA.lampam_functions').calc_lampam
    targets = []
    for n in plies:
        h = [rng.choice(ANGLES) for _ in range(n // 2)]
        targets.append([float(x) for x in lam(np.array(h + h[::-1]))])
    settings = dict(runs=rng.choice([1, 2]), nodes=rng.choice([5, 10]),
                    last=rng.choice([1, 2, 4]),
                    ref=rng.choice([1, max(plies), min(plies), 16]),
                    keep=rng.random() < .7)
    if force:
        rules.update(force)
    return dict(plies=plies, rules=rules, targets=targets, settings=settings)


def gen_rules(**force):
    return lambda rng, size: gen(rng, size, force)


ANY = {'plies': Const(None), 'rules': Const(None), 'targets': Const(None),
       'settings': Const(None)}


# --------------------------------------------- several runs of the search
class Outcome:
    "what one run of the search reports"
    def __init__(self, mp, k, value):
        n = mp.n_panels
        self.ss = [np.full(p.n_plies, ANGLES[k % 4]) for p in mp.panels]
        self.sst = np.full((n, mp.n_plies_max), k)
        self.lampam = np.full((n, 12), float(k))
        self.n_plies_per_angle = np.full((n, 4), float(k))
        self.obj_constraints = value
        self.obj_no_constraints = np.full(n, value)
        for x in ('penalty_diso', 'penalty_contig', 'penalty_10',
                  'penalty_bal_ipo', 'penalty_oopo'):
            setattr(self, x, np.full(n, k + .5))
        self.penalty_spacing = k + .25
        self.n_diso = np.full(n, k)
        self.n_contig = np.full(n, k + 1)
        self.n_obj_func_calls = 10 + k
        self.n_designs_last_level = 20 + k
        self.n_designs_after_ss_ref_repair = 30 + k
        self.n_designs_after_thick_to_thin = 40 + k
        self.n_designs_after_thin_to_thick = 50 + k
        self.n_designs_repaired_unique = 60 + k


def run_script(f, plies, values):
    "the search replaced with one reporting given objectives"
    rules = {x: False for x in ('bal', 'ten', 'dam', 'diso', 'contig',
                                'cover')}
    rules['n_contig'] = 5
    c, p, mp, of, mat = problem(plies, rules, [[0.] * 12] * len(plies), dict(
        runs=len(values), nodes=5, last=1, ref=1, keep=True))
    calls = []

    def one(*a, **k):
        v = values[len(calls)]
        calls.append(v)
        return None if v is None else Outcome(mp, len(calls) - 1, v)
    new = dict(
        BELLA_optimiser_one_pdl=one,
        create_initial_pdls=lambda mp, *a, **k: [
            [np.arange(q.n_plies) for q in mp.reduced.panels]] * len(values),
        extend_after_guide_based_blending=lambda mp, x: np.zeros(
            (mp.n_panels, mp.n_plies_max)))
    with no_files(f), replaced(f, new), \
            contextlib.redirect_stdout(io.StringIO()):
        r = f(mp, p, of, c, PATH, mat=mat)
    return (r, len(calls)) if calls else None


def post_runs(r, plies, values):
    "runs stop after one that meets the targets exactly, not before"
    if r is None:                 # the search could not be scripted
        return True
    n = 0
    for v in values:
        n += 1
        if v is not None and abs(v) < 1e-10:
            break
    return r[1] == n


def post_chosen(r, plies, values):
    "the best of the runs made is returned, with its results"
    if r is None:                 # the search could not be scripted
        return True
    o = r[0]
    made = [(v, i) for i, v in enumerate(values[:r[1]]) if v is not None]
    v, k = min(made)
    return o.ind_mini == k and o.obj_constraints == v \
        and all((np.array(s) == ANGLES[k % 4]).all()
                and len(s) == n for s, n in zip(o.ss, plies)) \
        and (np.array(o.sst) == k).all() and (o.lampam == k).all() \
        and (np.array(o.n_plies_per_angle) == k).all() \
        and (np.array(o.obj_no_constraints) == v).all()


def post_recorded(r, plies, values):
    "the results of each run are recorded in its row, failed runs are not"
    if r is None:                 # the search could not be scripted
        return True
    o = r[0]
    for k, v in enumerate(values):
        row = dict(obj_constraints=v, penalty_spacing=k + .25,
                   obj_no_constraints=v, penalty_diso=k + .5,
                   penalty_contig=k + .5, penalty_10=k + .5,
                   penalty_bal_ipo=k + .5, penalty_oopo=k + .5)
        if v is None or k >= r[1]:
            if any(not np.isnan(getattr(o, n + '_tab')[k]).all()
                   for n in row) or not np.isnan(
                       o.lampam_tab_tab[:, k]).all():
                return False
            continue
        row.update(n_diso=k, n_contig=k + 1, n_obj_func_calls=10 + k,
                   n_designs_last_level=20 + k,
                   n_designs_after_ss_ref_repair=30 + k,
                   n_designs_after_thick_to_thin=40 + k,
                   n_designs_after_thin_to_thick=50 + k,
                   n_designs_repaired_unique=60 + k, n_plies_per_angle=k)
        if any(not (np.array(getattr(o, n + '_tab')[k]) == x).all()
               for n, x in row.items()):
            return False
        if not (o.lampam_tab_tab[:, k] == k).all() \
                or not (o.ss_tab_tab[k] == k).all():
            return False
    return True


def gen_script(rng, size):
    plies = rng.sample(range(12, 24, 2), rng.choice([1, 2, 3]))
    vals = [rng.choice([None, 0., 1e-12, .5, 1., 2., .25, 1e-9, 3.])
            for _ in range(rng.randint(1, 5))]
    if all(v is None for v in vals):
        return None
    return dict(plies=plies, values=vals)


# ------------------------------------------- redesign of the ply drops
def setting(plies, thick, stack, drop, rules, targets):
    """a strip of two panels, a pair of plies apart; the reference is the
    thicker one (thick) or the thinner one"""
    st = dict(runs=1, nodes=5, last=1, keep=True,
              ref=max(plies) if thick else min(plies))
    c, p, mp, of, mat = problem(plies, rules, targets, st)
    p.local_node_limit2 = p.global_node_limit2 = 10 ** 6
    mp.filter_target_lampams(c, of)
    mp.filter_lampam_weightings(c, of)
    mp.from_mp_to_blending_strip(c, p.n_plies_ref_panel)
    lam = importlib.import_module('src.CLA.lampam_functions').calc_lampam
    s = np.array(stack)
    thin = s.copy()
    thin[[drop, len(s) - 1 - drop]] = -1
    ss = [thin[thin != -1], s]
    return c, p, mp, of, mat, np.array([thin, s]), ss, \
        np.array([lam(x) for x in ss])


def run_redesign(f, plies, thick, stack, drop, rules, targets):
    c, p, mp, of, mat, sst, ss, lampam = setting(
        plies, thick, stack, drop, rules, targets)
    with contextlib.redirect_stdout(io.StringIO()):
        r = f(lampam, sst.copy(), [x.copy() for x in ss], mp, p, of, c,
              mat=mat)
    return dict(ok=bool(r[0]), sst=np.array(r[1]), lampam=np.array(r[2]),
                ss=[np.array(x) for x in r[3]],
                target=np.array([q.lampam_target
                                 for q in mp.reduced.panels]),
                weight=np.array([q.lampam_weightings
                                 for q in mp.reduced.panels]))


def options(plies, thick, stack, drop, rules):
    "laminates possible for the panel redesigned"
    lo = 1 if rules['cover'] or rules['dam'] else 0
    s, out = list(stack), []
    if thick:
        for i in range(lo, len(s) // 2):
            out.append(s[:i] + s[i + 1:len(s) - 1 - i] + s[len(s) - i:])
        skip = {'bal', 'diso'}
    else:
        t = s[:drop] + s[drop + 1:len(s) - 1 - drop] + s[len(s) - drop:]
        h = t[:len(t) // 2]
        for i in range(lo, len(h) + 1):
            for a in ANGLES:
                g = h[:i] + [a] + h[i:]
                out.append(g + g[::-1])
        skip = {'bal'}
    return [x for x in out if not breaks(np.array(x), rules) - skip]


def post_redesign(r, plies, thick, stack, drop, rules):
    "successful when a laminate satisfying the rules exists, the best one"
    o = options(plies, thick, stack, drop, rules)
    if not r['ok'] or not o:
        return r['ok'] == bool(o)
    lam = importlib.import_module('src.CLA.lampam_functions').calc_lampam
    k = 0 if thick else 1

    def dist(s):
        return float((r['weight'][k] * (lam(np.array(s))
                                        - r['target'][k]) ** 2).sum())
    got = [int(x) for x in r['ss'][k]]
    return got in o and abs(dist(got) - min(dist(s) for s in o)) < 1e-9


def post_redesign_ref(r, thick, stack, drop):
    "the reference panel is left alone"
    s = list(stack)
    if not thick:
        s = s[:drop] + s[drop + 1:len(s) - 1 - drop] + s[len(s) - drop:]
    return [int(x) for x in r['ss'][1 if thick else 0]] == s


def post_redesign_table(r, plies):
    "stacking sequences, their table and lamination parameters agree"
    if not r['ok']:
        return True
    lam = importlib.import_module('src.CLA.lampam_functions').calc_lampam
    t = r['sst']
    for i in range(2):
        if [int(x) for x in t[i][t[i] != -1]] != [int(x) for x in r['ss'][i]]:
            return False
        if not np.allclose(r['lampam'][i], lam(r['ss'][i]), atol=1e-9):
            return False
    return len(t[1]) == max(plies) and not (t[1] == -1).any() and all(
        x in (-1, y) for x, y in zip(t[0], t[1]))


def gen_redesign(thick):
    def gen_one(rng, size):
        v = gen(rng, size)
        n = rng.choice(range(10, 22, 2))
        v['rules'].update(bal=rng.random() < .3)
        if v['rules']['ten'] and rng.random() < .5:
            v['rules']['ten'] = False
        h = []
        for i in range(n // 2):
            h.append(rng.choice([-45, 45] if not i and v['rules']['dam'] else [
                a for a in ANGLES if not h or not v['rules']['diso']
                or turn(a, h[-1]) <= 45]))
        lam = importlib.import_module('src.CLA.lampam_functions').calc_lampam
        t = []
        for k in (n, n - 2):
            g = [rng.choice(ANGLES) for _ in range(k // 2)]
            t.append([float(x) for x in lam(np.array(g + g[::-1]))])
        plies = [n, n - 2]
        if rng.random() < .5:
            plies.reverse()
            t.reverse()
        lo = 1 if v['rules']['cover'] or v['rules']['dam'] else 0
        return dict(plies=plies, thick=thick, stack=h + h[::-1],
                    drop=rng.randint(lo, n // 2 - 1), rules=v['rules'],
                    targets=t)
    return gen_one


def redesign(name, fn, thick):
    return Contract(name, fn=fn, params={k: Const(None) for k in (
        'plies', 'thick', 'stack', 'drop', 'rules', 'targets')},
        ensures=[post_redesign, post_redesign_ref, post_redesign_table],
        mode='bounded', samples=250, timeout=60,
        generate=gen_redesign(thick), call=run_redesign,
        note='nested lists of layouts, copies and searches: runtime '
        'evaluation against all layouts one pair of plies away')


def post_done(r):
    "without rules a design always comes out"
    return done(r)


def design(name, note, more=(), **force):
    return Contract('design/' + name, fn=O, params=ANY,
                    ensures=POSTS + list(more),
                    mode='bounded', samples=24, timeout=200,
                    generate=gen_rules(**force), call=run, note=note)


NOTE = 'the search as a whole: runtime evaluation only'
CONTRACTS = [
    design('any', NOTE),
    design('free', NOTE, more=[post_done], bal=False, ten=False, dam=False, diso=False,
           contig=False),
    design('plies', NOTE, bal=True, ten=True, dam=False, diso=False),
    design('rules', NOTE, bal=False, ten=False, diso=True, contig=True),
    design('outer', NOTE, dam=True, cover=True, diso=False),
    design('all', NOTE, bal=True, ten=True, dam=True, diso=True,
           contig=True, cover=True),
    Contract('runs', fn=O, params={'plies': Const(None),
                                   'values': Const(None)},
             ensures=[post_runs, post_chosen, post_recorded],
             mode='bounded', samples=150, timeout=60, generate=gen_script,
             call=run_script, note='the search scripted: how runs are '
             'compared and recorded'),
    redesign('thinner', 'src.RELAY.thick_to_thin:repair_thick_to_thin', True),
    redesign('thicker', 'src.RELAY.thin_to_thick:repair_thin_to_thick',
             False),
]

"""Property texts; `python3 pbt/registry.py` regenerates properties.jsonl and
MANIFEST.json for the properties whose module exists."""
import json
import os
import re

P = []


def prop(pid, title, statement, over, text, why, files, mechanism,
         technique, note, observe=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=observe or []))


NA = []


def not_applicable(pid, title, statement, over, text, why, files, mechanism,
                   reason):
    prop(pid, title, statement, over, text, why, files, mechanism, None, None)
    NA.append(dict(property=pid, reason=reason))


G = 'src/guidelines/'
B = 'src/BELLA/'
R = 'src/RELAY/'
L = 'src/LAYLA_V02/'

prop('P01', 'Balance of a laminate is judged on its counts of +theta and -theta',
     'For every stacking sequence and every set of allowed fibre angles, a '
     'laminate is reported as balanced exactly when it has as many plies at '
     '+theta as at -theta for every angled orientation. The balance penalty '
     'is zero exactly for balanced laminates and proportional to the share of '
     'unpaired plies otherwise, and does not depend on the order of the plies.',
     ['inputs', 'configurations'],
     'every stacking sequence (symmetric or not, any ply count) over every '
     'admissible set of fibre angles',
     'the existing tests evaluate a handful of fixed stacks',
     [G + 'balance.py'],
     [('balance verdict', 'is_balanced'), ('penalty', 'calc_penalty_bal')],
     'property-based testing against a counting reference model',
     'Random and structured stacks; integer reference counts.')

prop('P02', 'Damage tolerance is judged on the outer plies required by the rule',
     'Under rule 1 a laminate is damage tolerant exactly when each outer face '
     'is a +-45 ply; under rule 2 the two outer plies of each face must be a '
     '+45/-45 pair, and under rule 3 any two +-45 plies. Verdicts hold for '
     'symmetric and asymmetric laminates and never depend on inner plies.',
     ['inputs', 'configurations'],
     'every stacking sequence of at least four plies, the three rules, '
     'symmetric and asymmetric laminates',
     'tests cover three fixed stacks',
     [G + 'dam_tol.py'], [('verdict', 'is_dam_tol')],
     'property-based testing against a reference model',
     'Random outer-ply patterns over all rules; direct definition as oracle.')

prop('P03', 'Contiguity limits the number of adjacent plies of one orientation',
     'A stacking sequence satisfies contiguity exactly when no block of '
     'adjacent plies of the same orientation is longer than the limit, and '
     'the contiguity penalty counts the excess groups: zero exactly for '
     'compliant laminates, and cumulative over laminates.',
     ['inputs', 'configurations'],
     'every stacking sequence, every limit from 2 to 6, symmetric or not',
     'no existing test covers contiguity',
     [G + 'contiguity.py'],
     [('verdict', 'is_contig'), ('penalty', 'calc_penalty_contig_*')],
     'property-based testing against a run-length reference model',
     'Stacks biased towards runs around the limit.')

prop('P04', 'Disorientation limits the angle between adjacent plies',
     'The angle between two fibre directions is the smallest one modulo 180 '
     'degrees; a stacking sequence satisfies the rule exactly when no pair of '
     'adjacent plies that the rule covers differs by more than the limit, and '
     'the penalty counts the violations. With the two-ply damage tolerance '
     'rules the outermost interfaces are exempt, with the others they are not.',
     ['inputs', 'configurations'],
     'every stacking sequence, limit and damage tolerance rule',
     'no existing test covers disorientation',
     [G + 'disorientation.py'],
     [('pair check', 'is_diso'), ('stack check', 'is_diso_ss'),
      ('penalty', 'calc_penalty_diso_*')],
     'property-based testing against a reference model',
     'Random stacks; pairwise angular distance as oracle.')

prop('P05', 'The 10% rule enforces the minimum share of each ply orientation',
     'Verdicts and penalties of the 10% rule agree with the ply counts of the '
     'laminate: accepted with no penalty exactly when every required '
     'orientation (0, 90, +45, -45 or +-45 together) reaches its minimum '
     'share, penalised by the shortfalls otherwise. The lamination-parameter '
     'form of the rule agrees with the distance to its feasible region, and '
     'partially designed laminates are judged on the plies known so far.',
     ['inputs', 'configurations'],
     'every stacking sequence (complete or with plies not yet decided), ply '
     'counts and every admissible setting of the minimum percentages',
     'tests check a few fixed stacks with one setting',
     [G + 'ten_percent_rule.py', G + 'ten_percent_rule_Abdalla.py'],
     [('verdict', 'is_ten_percent_rule'), ('penalties', 'calc_penalty_10_*'),
      ('LP form', 'calc_distance_Abdalla')],
     'property-based testing against exact rational arithmetic',
     'Stacks built at and just below the limits; fractions as oracle.')

prop('P06', 'Candidate filters keep exactly the compliant candidates',
     'Given plies already fixed and a table of candidate continuations, the '
     'filters for contiguity and disorientation keep exactly the candidates '
     'that break neither rule, in their original order, together with their '
     'companion data, and leave their inputs unchanged.',
     ['inputs', 'configurations'],
     'every set of preceding plies, candidate table, group length and limits',
     'no existing test covers the filters',
     [G + 'external_contig.py', G + 'external_diso_contig.py',
      G + 'internal_contig.py', G + 'internal_diso_contig.py'],
     [('junction filters', 'external_contig, external_diso_contig'),
      ('inner filters', 'internal_contig, internal_diso_contig')],
     'property-based differential testing against a brute-force filter',
     'Candidates that continue the preceding run around the limit.')

prop('P07', 'Final manufacturability checks accept exactly the compliant designs',
     'The final check of a laminate accepts it exactly when it satisfies every '
     'active lay-up guideline and has the required number of plies; the final '
     'check of a blended structure accepts it exactly when the outer covering '
     'plies run through all panels and the ply drops are sufficiently spaced.',
     ['inputs', 'configurations'],
     'every laminate, multi-panel structure, ply-drop layout and set of '
     'active guidelines',
     'no existing test covers the combined checks',
     [G + 'one_stack.py'],
     [('laminate', 'check_lay_up_rules'), ('blending', 'check_ply_drop_rules')],
     'property-based testing against a reference model of the guidelines',
     'Feasible stacks built by search and minimally broken ones.')

prop('P08', 'Ply drops closer than the required spacing are penalised',
     'The spacing penalty of a blended structure is zero exactly when, at '
     'every panel boundary, consecutive dropped plies are separated by at '
     'least the required number of continuous plies; otherwise it grows with '
     'the missing separation and the weight of the boundary. It is the same '
     'for a complete layout and for the same layout split into ply groups.',
     ['inputs', 'configurations'],
     'every structure, boundary weights, nested ply-drop layout and spacing',
     'no existing test covers ply-drop spacing',
     [G + 'ply_drop_spacing.py'],
     [('one boundary', 'calc_penalty_spacing_1ss'),
      ('structure', 'calc_penalty_spacing')],
     'property-based testing against a reference model',
     'Random connected structures and nested layouts.')

prop('P10', 'Ply material properties satisfy classical lamination theory',
     'For every physically admissible ply the reduced stiffnesses and the '
     'stiffness invariants agree with classical lamination theory, the '
     'densities agree with each other and with the thickness, and plies with '
     'non-positive moduli or thickness are rejected.',
     ['inputs'], 'every set of elastic constants, thickness and densities',
     'no existing test covers the ply material',
     [B + 'materials.py', L + 'materials.py'],
     [('construction', 'Material.__init__')],
     'property-based testing against closed-form invariants',
     'Random elastic constants; the invariants are also checked through the '
     'transformed stiffnesses at several angles.')

def here(*p):
    return os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), *p)


def place(files, names):
    "the file where the first of the names is defined"
    first = re.split(r'[.,( ]', names)[0].rstrip('*')
    for name in files:
        with open(os.path.join('/repo', name), encoding='utf8') as f:
            if re.search(r'(def|class) ' + first, f.read()):
                return '%s: %s' % (name, names)
    return '%s: %s' % (files[0], names)


def main():
    import registry_more
    registry_more.add(prop, not_applicable, G, B, R, L)
    na = {n['property'] for n in NA}
    lines, checks = [], []
    for p in sorted(P, key=lambda p: p['pid']):
        pid = p['pid']
        if pid not in na and not os.path.exists(
                here('pbt', 'props', pid.lower() + '.py')):
            print('no module yet:', pid)
            continue
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['statement']
        lines.append(json.dumps(dict(
            id=pid, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[
                dict(name=a, where=b if '/' in b else place(p['files'], b))
                for a, b in p['mechanism']],
                         observe_at=p['observe'], hook_needed=None))))
        if pid not in na:
            checks.append(dict(
                property=pid, quick_cmd='python3 check.py %s' % pid,
                thorough_cmd='python3 check.py %s --tier thorough' % pid,
                evidence_file='evidence/%s.json' % pid,
                technique=p['technique'], level='exploration',
                level_note=p['note']))
    with open(here('properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    manifest = dict(
        version=1, setup_cmd='true', checks=checks, not_applicable=NA,
        notes='Every check runs hypothesis-driven generated cases against an '
        'explicit oracle; the code under test is imported from /repo as it '
        'is. Replay a failure with: python3 check.py --replay FILE.')
    with open(here('MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks')


if __name__ == '__main__':
    main()

"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = {
 'C01': 'abstract interpretation of MIR (interval domain over guard cells) against the textbook CDFs, plus algebraic normal-form equivalence per cell',
 'C02': 'abstract interpretation of MIR (interval domain over guard cells) against the textbook densities and masses, plus normal-form equivalence per cell',
 'C03': 'abstract interpretation of MIR (interval domain over guard cells) against the textbook quantiles, plus normal-form equivalence per cell',
 'C04': 'abstract interpretation of MIR against the textbook moments; algebraic normal-form equivalence of the whole cell',
 'C05': 'abstract interpretation of MIR over guard cells against textbook medians and mode sets',
 'C06': 'abstract interpretation of MIR over guard cells against textbook entropies, normal-form equivalence per cell',
 'C07': 'symbolic evaluation of every sampler with the draws as inputs: inversion identities, acceptance regions and consumption of draws read off the evaluated MIR',
 'C08': 'table recomputation from the extracted constants and symbolic case analysis of the sampler: bit fields, acceptance guards and redraws of every path of the evaluated MIR',
 'C09': 'floating-point interval evaluation of the extracted rational approximations against a certified reference quantile',
 'C10': 'abstract interpretation of MIR in a floating-point interval domain (outward rounding, infinities and NaN tracked) over whole boxes of arguments and parameters and at the extremes of the range',
 'C11': 'panic obligations of the debug MIR judged by floating-point interval evaluation with fact refinement; liveness-based search of the MIR control-flow graph for loops with an idle way around; abstract execution of data-dependent loops',
 'C12': 'partial-order case analysis of the panic guards of every constructor and quantile function in the debug-assertion MIR',
 'C13': 'symbolic evaluation of constructors and accessors (graph identity, normal form, enclosures)',
 'C14': 'effect analysis over the MIR call graph and type contents (statics, interior mutability, thread locals, foreign calls, receivers)',
 'C15': 'symbolic evaluation of Independent::next compared with the evaluated sample call (result graph and source state)',
 'C16': 'relational abstract interpretation of MIR: two symbolic evaluations of one operation before and after the transformation, compared by enclosures and normal form',
 'C17': 'forward rounding-error analysis of MIR: enclosures in the floating-point interval domain against certified references in the delicate regimes',
 'C18': 'compile-time witnesses (trait, auto-trait and re-export obligations checked by rustc on the current source) plus dependency and lint queries',
 'C19': 'symbolic evaluation of FromIterator over slices of known length against the moment formulas (normal form and enclosures)',
 'C20': 'abstract interpretation of MIR on ordered argument boxes plus symbolic differentiation of the gate-free expressions (slope sign on whole boxes)',
 'C21': 'abstract interpretation of MIR at the integer boundaries of an independently derived expansion and at both sides of every truncation switch',
 'C22': 'symbolic evaluation of the table constructor over abstract probability vectors, and reads of the table by the queries',
}
NOTE = {
 'default': 'Every guard cell met is settled by normal form where possible (counted in the evidence), otherwise by disjointness or agreement of enclosures on boxes of positive width; real arithmetic, dependency special functions trusted. Undecided cells are reported, not alarmed.',
}
NA = {
 'C23': 'Termination and exactness of a damped Newton iteration on a step function depends on run-time values of the incomplete beta function; no static bound in reach decides it (the one structural part, the exit not being certified by a comparison of the CDF with p, is a known finding under C03).',
 'C24': 'A statement about long runs of a concrete random number generator; it needs execution. The transformation from draws to samples is decided under C07 and C08.',
 'C25': 'The special functions live in another crate (dependency); their accuracy is a numerical property of rational and series approximations over unbounded argument ranges and is assumed, not analysed.',
}
def main():
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import sys; sys.path.insert(0, \'.\'); from vp import extract; print(extract.driver())"', 'checks': [], 'not_applicable': []}
    for p in props:
        if p in CL:
            m['checks'].append({'property': p, 'quick_cmd': 'python3-vt -m vp.main ' + p, 'thorough_cmd': 'python3-vt -m vp.main %s --thorough' % p,
                                'technique': CL[p], 'level': 'other', 'level_note': NOTE.get(p, NOTE['default'])})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not claimed yet')})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()

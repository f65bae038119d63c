"""Writes the per-property part of DESIGN.md (between the markers) from tools/props.py, the harnesses and what is said here."""
import importlib, json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT, os.path.join(ROOT, 'harnesses')]
from props import PROPS

# what is asserted, and against what
HOW = {
    'C01': "Both functions run on a symbolic point, origin and bearing (the bearing as a point on the unit circle, so sine and cosine are exact). Asserted: round trips give "
           "the point; the offset is the rotation by the bearing computed independently; distances equal; array version equal element by element.",
    'C02': "The polyline's vertices are all symbolic. For every pattern of which vertices lie left of the transect (one path each) the number of returned positions, their "
           "order, and that each lies on its segment (linear identity and between the two ends) are asserted; closed outlines give an even number.",
    'C03': "The transport of two neighbouring segments is computed with all wave quantities symbolic. Asserted: finite; zero for offshore-going waves; sign by side of "
           "approach; bounded by K2 x power; each segment equal to the value computed with the other segment changed (independence); mirrored inputs give the mirrored, negated output; on given seas the amount "
           "and sign against Snell's law for every wave direction.",
    'C04': "runup and overtopping run on symbolic transects; the documented formula, the if-and-only-if of overtopping, monotonicity in runup (two runs compared) and the "
           "crest / overwash partition are asserted per transect class (channel in front or not, lagoon behind or not).",
    'C05': "calcBedload on symbolic sections; compared with the excess-shear formula written independently; zero below threshold, upwinding weights per flow direction, antisymmetry "
           "under reversal (second run), inputs unmodified.",
    'C06': "solveSteady's Newton loop is unrolled; every exit of it is a path. The asserted energy balance is written independently from the code (head, velocity head and "
           "mean friction slope of each reach), with depth at least critical, flow carried exactly; running out of iterations must raise.",
    'C07': "solve_banded is replaced by its contract (fresh unknowns satisfying the banded system the code assembled), so what is decided is the code's own assembly, "
           "boundary conditions, convergence test and fall-back. Asserted at convergence: the finite-volume water balance per reach with lagoon storage and seepage, "
           "boundary values, still water and steady profile preserved, momentum balance with its transient term, and a series of two steps in one call equal to two calls; at failure: the steady solution of that step's boundary conditions.",
    'C08': "assembleChannel on symbolic maps for every outlet start/end, direction and closure. The oracle walks the map itself (river, lagoon, channel) and gives the "
           "expected order, bed, width, length and state, lagoon area and barrier length, and the closed flag.",
    'C09': "storeHydraulics / storeBedload after assembleChannel on the same symbolic map; the oracle files each section by its own index; then assembleChannel is run again "
           "on what was stored and must give the same depths and velocities.",
    'C10': "One updateMorphology step with symbolic bedload; volume before and after is computed from positions and levels by the oracle, per section and for the outlet end; "
           "transects off the channel unchanged.",
    'C11': "One updateMorphology step with symbolic longshore transport and overtopping; per-transect volume balances, crest/back partition, outlet migration and narrowing "
           "by the intercepted volume, totals along the shore.",
    'C12': "The step with symbolic rates in classes (shoreline, bank, bed, outlet end...); the timestep returned is related to the largest change by the halving and doubling "
           "rule exactly, at the minimum the changes are clipped without change of sign, and the changes made are rate x step returned.",
    'C13': "The invariant of a valid hapua (numbers everywhere, channel all there or not at all, non-negative widths, continuity of the channel, mouth with a lagoon) is assumed "
           "before one step with symbolic transects and transports, and asserted after it; crashes and uninitialised reads are violations too. Inductive: any number of steps.",
    'C14': "The step with symbolic retreat or lagoon level; the set of transects eroded through or overtopped is computed by the oracle from the inputs, and the breach "
           "(place, width, bed, relic channel, closed flag, restored barrier) compared. Cases combine triggers: erosion with overtopping in one step, a relic channel reopening while the barrier erodes elsewhere.",
    'C15': "The step is executed twice in one path, on the hapua and on its mirror image, and every output compared with the mirror image of its partner.",
    'C16': "A model of netCDF4 (dimensions, variables, attributes, slices; reads of what was not written give the fill value) stands for the file. Symbolic values are written as "
           "records and read back; each variable equals what was given, in the labelled unit, other records unchanged, nearest record by time.",
    'C17': "A model of the file system with symbolic existence, and a symbolic text for the user's answer (any text, compared exactly by the code's own string operations). Asserted: "
           "opened for writing only with permission, SystemExit otherwise, prompt only when needed; __main__ runs on symbolic command lines.",
    'C18': "core.main runs with its parts replaced by recorders that return fresh symbolic states (their own behaviour is C03-C17); asserted is the sequence of calls: times, "
           "boundary conditions at those times, whose results are handed to whom, when records are written.",
    'C19': "interpolate_at on series with symbolic times and values, order of times asked for symbolic; each result compared with the straight line through its bracketing samples.",
    'C20': "loadModel runs on a symbolic configuration; transects, bed, outlet, levels and derived options are compared with the configuration by the oracle; then assembleChannel "
           "must accept the result.",
    'C21': "loadModel with symbolic series; accepted exactly when they cover the run; values the model will interpolate equal those the full series gives at any symbolic time in range.",
    'C22': "harmonicTide through loadModel for symbolic start, length, mean and range; level equals the sine at each time, interval and coverage.",
    'C23': "shotNoise with symbolic random draws (as exponentials), flood count unrolled; compared with an independent shot-noise sum; spacing, bounds, seeding, coverage; "
           "two or three floods within one rising limb against the sum of their straight limbs.",
    'C24': "A results file is written by newOutFile/writeCurrent with symbolic values into the file model, then loadModel hot-starts from it; state compared with what was written, time by case.",
    'C25': "loadModel with symbolic digitised lines; the oracle computes facing, origin, crossings by its own geometry, the outlet centred on its line, bed grading, order from sea to cliff; the folder every input file is read from.",
    'C26': "The script itself is executed on a table of symbolic records; hyperbolic functions and angles are exact up to their defining identities; the energy flux balance, direction and "
           "times are written independently.",
    'C27': "visualise runs on a stand-in for matplotlib that keeps the data of every line, polygon, arrow and axis; the oracle computes the profile, water surface and section from "
           "the symbolic state by its own definitions, after creation and after an update to a second state.",
    'C28': "As C27 for the map. Breaks, banks and arrows against the oracle's own geometry; the map of the mirrored hapua drawn by the same code must be the mirror image, which decides "
           "the parts (outlet banks, water and cliff polygons) that have no simple closed form.",
    'C29': "A results file of three symbolic records is written by the real output module into the file model, animated by the real animate.main; after each frame, what the stand-in holds "
           "is compared with that record.",
    'C30': "The real configobj splits a real configuration file, symbolic numbers take their places, and its checking code (executed symbolically) checks them against the current "
           "configspec.cnf; loadModel then runs to its end. The oracle is the table of permitted ranges and defaults in the harness.",
    'C31': "One updateMorphology step with symbolic overtopping and little room behind the barrier. The oracle pours the excess volume on a profile of two steps (front and back crest) "
           "until level and compares crests, banks and beds; every transect not concerned is compared with its state before.",
    'C32': "One updateMorphology step with symbolic geometry and outlet end, no waves. Each case makes one event possible (extension, joining the lagoon, breaking in of the sea, "
           "reaching the cliff) and the oracle states its result per transect from the widths and levels before; the event's own condition is checked in both directions.",
}


def main():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        seeds.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
    out = []
    for p in PROPS:
        i = p['id']
        h = importlib.import_module('harnesses.' + i)
        out.append('### %s %s\n' % (i, p['title']))
        out.append('- **Decides**: %s' % HOW[i])
        out.append('- **Encoded**: %s' % ', '.join('`%s`' % f for f in h.FUNCS))
        out.append('- **Bounds**: %s' % h.BOUNDS)
        if h.ASSUMPTIONS:
            out.append('- **Assumes**: %s' % '; '.join(h.ASSUMPTIONS))
        e = os.path.join(ROOT, 'evidence', i + '.json')
        out.append('- **Tests cannot**: %s' % p['why_tests_cant'])
        if seeds.get(i):
            out.append('- **Planted changes it catches**: %s' % ', '.join('`%s`' % s for s in seeds[i]))
        out.append('')
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- properties -->\n', '<!-- /properties -->\n'
    i, j = s.index(a) + len(a), s.index(b)
    open(p, 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])


if __name__ == '__main__':
    main()

"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, level='proof', tech=None, claimed=True):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append((d, note, level, tech, claimed))


TECH = 'contract-based deductive verification of the compiled C++ (LLVM IR of /repo/src): relational loop invariants, VCs discharged by normalisation + z3'
SRC = 'src/'
TESTS = 'The tests run one or two fixed geometries per function and compare nothing, or only plot; '

prop('C01', 'Flat transducers sum their surface cells (line, rectangle, disc)',
     'The impulse response of a line, rectangular or circular flat transducer at any observation point is, sample by sample, the sum over the cells of its surface of the cell area times the velocity divided by 2*pi times the distance (in the documented scaling), each placed at the time sample nearest to distance over sound speed minus the start delay. Every cell of the aperture is counted exactly once, cells outside the aperture never, and a cell whose sample index lies outside the response contributes nothing.',
     ['inputs'], 'all observation points, transducer sizes, discretisations, delays, response lengths (no bound on cells or samples)',
     TESTS + 'an omitted row of cells or a shifted sample for some geometry is invisible to them.',
     ['src/dreamline.cc', 'src/dreamrect.cc', 'src/dreamcirc.cc'],
     [('cell loops', 'dreamline_serial / dreamrect_serial / dreamcirc_serial, with and without attenuation'), ('per-point entry', 'Line::dreamline, Rect::dreamrect, Circ::dreamcirc')],
     'Full functional contract of the cell loops and of the threaded entry points; exact over the reals.')
prop('C02', 'Focused flat transducers: geometric focusing delays of every cell',
     'The response of a focused rectangular or circular transducer is the cell sum of the flat transducer in which each cell is additionally advanced by the focusing delay of its position: for focusing in x, y, or both, the difference between the focal distance from the aperture edge and from the cell, over the sound speed (a zero focal length or no focusing gives no delay).',
     ['inputs'], 'all observation points, sizes, focusing methods, focal lengths, discretisations',
     TESTS + 'only one focusing method and focal length is run.',
     ['src/dreamrect_f.cc', 'src/dreamcirc_f.cc'],
     [('focused cell loops', 'Rect_f::dreamrect_f_serial, Circ_f::dreamcirc_f_serial'), ('focusing delay', 'focusing function in both files')],
     'Full functional contract of the cell loops and of the threaded entry points.')
prop('C03', 'Curved transducers sum their surface cells (sphere, cylinder)',
     'The response of a spherical or cylindrical transducer is the sum over the cells of its curved surface, for a concave (positive radius) and a convex (negative radius) surface, each cell at its true position and with its true area, placed at the sample nearest to its travel time minus the delay; cells outside the aperture contribute nothing.',
     ['inputs'], 'all observation points, apertures, radii of curvature of either sign, discretisations',
     TESTS + 'a sign error for convex surfaces or in one coordinate is not compared with anything.',
     ['src/dreamsphere.cc', 'src/dreamcylind.cc'],
     [('curved cell loops', 'Sphere::dreamsphere_serial, Cylind::dreamcylind_serial'), ('focused/defocused branches', 'sphere_f, sphere_d, cylind_f, cylind_d')],
     'Full functional contract of the cell loops and of the threaded entry points.')
prop('C04', 'Array responses are the superposition of their elements',
     'The response of an array of rectangular, circular or cylindrical elements is the sum over its elements of the single-element response observed relative to the element position, with the start delay reduced by the focusing and steering delay of that element and the amplitude scaled by its apodization weight. Each element contributes exactly once, with and without attenuation, and its parameters are taken from its own row of the element table.',
     ['inputs'], 'any number of elements and any grid, delay, steering, focusing and apodization setting',
     TESTS + 'one regular grid is run; mixing up elements or dropping one is not detected.',
     ['src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc', 'src/arr_functions.cc'],
     [('element loops', 'dream_arr_*_serial'), ('entry points', 'ArrRect::dream_arr_rect, ArrCirc::dream_arr_circ, ArrCylind::dream_arr_cylind')],
     'Element loops and entry points proved against the contracts of the single-element responses.')
prop('C05', 'Array focusing and steering delays are exact for every element',
     'For every element of a two-dimensional array the focusing delay is the difference between the distance of the aperture edge and of the element to the focus divided by the sound speed (in x, y, both jointly, both separately, or the user supplied delay of that element), and the steering delay grows linearly with the element position from zero at the negative edge, with the sine of the steering angle in x, y or both. The aperture extents used are the largest element distances from the centre in x and y.',
     ['inputs'], 'all element grids, focal depths, angles, sound speeds, methods',
     TESTS + 'one focusing and one steering method is run.',
     ['src/arr_functions.cc', 'src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc'],
     [('focusing', 'focusing() in arr_functions.cc'), ('steering', 'beamsteering() in arr_functions.cc'), ('extent', 'max_dim_arr() in arr_functions.cc')],
     'Contracts of the helpers and of every loop that uses them.')
prop('C06', 'Apodization windows weight every element by the documented window',
     'With apodization enabled, each array element is weighted by the selected window evaluated at its distance from the array centre relative to the array radius: user defined weights, triangle, Gaussian, raised cosine, Hann, Hamming, simply supported or clamped; with apodization disabled every weight is one.',
     ['inputs'], 'all windows, parameters, element grids',
     TESTS + 'one window is run and its values are not checked.',
     ['src/arr_functions.cc', 'src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc'],
     [('windows', 'apodization() in arr_functions.cc')],
     'Contract of the window function and of every loop that uses it.')
prop('C07', 'Annular arrays: rings are disc differences, delayed, weighted and summed',
     'The response of an annular array is the sum over its rings of the response of the disc of the outer radius minus that of the inner radius (the centre element being a full disc, or nothing if its radius is zero), shifted by the focusing delay of the ring in whole samples and scaled by its apodization weight. Samples shifted out of the response at either end are dropped.',
     ['inputs'], 'any number of rings, radii, focusing and apodization setting, user defined delays of either sign',
     TESTS + 'one array is run; a negative delay wrote out of bounds unnoticed.',
     ['src/dream_arr_annu.cc'],
     [('ring sum', 'ArrAnnu::dream_arr_annu_serial'), ('shift and add', 'superpos_annular'), ('disc difference', 'resp_annular'), ('ring radius', 'annular_disc_radii')],
     'Helpers, both element loops and the entry point under contract.')
prop('C08', 'Attenuation: each cell is filtered by the causal lossy Green\'s function',
     'With a positive attenuation coefficient, each surface cell contributes, instead of one sample, the inverse Fourier transform of the documented attenuation spectrum for its travel distance and travel time (amplitude decaying exponentially with frequency and distance, with the matching dispersion phase and Hermitian symmetry), scaled by the cell amplitude; with no attenuation the loss-free response is computed. The choice depends only on whether the coefficient exceeds machine epsilon.',
     ['inputs'], 'all distances, delays, sampling rates, lengths (even and odd), coefficients',
     TESTS + 'no test compares an attenuated response with anything.',
     ['src/attenuation.cc', 'include/attenuation.h', 'include/fft.h'],
     [('filter', 'Attenuation::att'), ('selection', 'alpha test in every threaded entry point')],
     'The transform itself is an uninterpreted function of its input spectrum (FFTW trusted).')
prop('C09', 'Each observation point is computed independently, whatever the worker count',
     'The response written for an observation point depends only on that point, its own start delay (or the common one) and the parameters, never on the number of worker threads, on how the points are divided among them, or on the other points; every point is computed exactly once and written to its own column. The overall status is that of the points computed.',
     ['inputs', 'configurations'], 'all numbers of observation points and workers (hardware count and the environment limit), common and per-point delays',
     'The tests run one machine with one thread count; an off-by-one in the partition needs a particular ratio of points to workers.',
     ['src/dreamline.cc', 'src/dreamrect.cc', 'src/dreamcirc.cc', 'src/dreamrect_f.cc', 'src/dreamcirc_f.cc', 'src/dreamsphere.cc', 'src/dreamcylind.cc', 'src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc', 'src/dream_arr_annu.cc'],
     [('partition', 'start/stop computation in the entry points'), ('worker', 'smp_* functions')],
     'Workers are executed in creation order by the verifier; rows of different workers are disjoint. Interleavings of the early-stop flag are not covered.')
prop('C10', 'Out-of-range travel times follow the error level and are always reported',
     'When the travel time of a cell falls outside the response, the stop level ends the computation and returns the out-of-bounds status, while warn and ignore drop the cell, complete the rest of the response, and return the corresponding status; no status is raised otherwise. The status of every cell, element, observation point and worker reaches the caller.',
     ['inputs', 'configurations'], 'all inputs, error levels, worker counts, element and point orders',
     'The tests never provoke an out-of-range travel time; three drivers lost the status for one worker or for all but the last element.',
     ['src/dream_error.cc', 'src/dreamline.cc', 'src/dreamrect.cc', 'src/dreamcirc.cc', 'src/dreamrect_f.cc', 'src/dreamcirc_f.cc', 'src/dreamsphere.cc', 'src/dreamcylind.cc', 'src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc', 'src/dream_arr_annu.cc'],
     [('policy', 'dream_out_of_bounds_err in dream_error.cc'), ('propagation', 'err variables of kernels, array loops, workers and entry points')],
     'Return values of every kernel, element loop and entry point.')
prop('C11', 'No memory access outside the caller\'s buffers, for any geometry',
     'For every input that satisfies the documented sizes, computing a response, a delay-and-sum image or a convolution reads and writes only inside the buffers given to it and the ones it allocates itself, writes only the result, frees nothing twice, and divides no integer by zero, whatever the travel times, delays, numbers of points, elements, rings or workers.',
     ['inputs', 'configurations'], 'all inputs, sizes and worker counts',
     'A sanitizer run covers only the geometries of the tests.',
     ['src/dreamline.cc', 'src/dreamrect.cc', 'src/dreamcirc.cc', 'src/dreamrect_f.cc', 'src/dreamcirc_f.cc', 'src/dreamsphere.cc', 'src/dreamcylind.cc', 'src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc', 'src/dream_arr_annu.cc', 'src/arr_functions.cc', 'src/attenuation.cc', 'extra_src/das.cc', 'extra_src/conv.cc', 'extra_src/fftconv.cc', 'extra_src/fftconv_p.cc'],
     [('sample index guards', 'it >= 0 && it < nt tests in the cell loops'), ('scratch buffers', 'superpos_annular, dream_arr_annu_serial')],
     'Bounds, frame, null and division obligations of every function under contract.')

exec(open(os.path.join(H, 'tools/more.py')).read()) if os.path.exists(os.path.join(H, 'tools/more.py')) else None

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        f.write(json.dumps(d) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt dv/setup.py',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3-vt dv/check.py %s' % d['id'], 'thorough_cmd': 'python3-vt dv/check.py %s --tier thorough' % d['id'],
                 'technique': tech or TECH, 'level': level, 'level_note': note} for d, note, level, tech, c in P if c],
     'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')

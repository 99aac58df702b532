DAS_ = 'extra_src/das.cc'
prop('C12', 'Delay-and-sum images: every pixel sums each A-scan at its travel time',
     'Every image value of delay-and-sum beamforming is the sum, over the A-scans of the data, of the sample at the travel time through that pixel: twice the element distance and delay for synthetic aperture data (also used when no receivers are given), transmitter plus receiver distance for every pair of full-matrix data, and for row-column addressed arrays (column or row transmit) the distances to the closest points of the line elements, whose ends are the outermost elements of the other set. An A-scan whose travel time falls outside the record contributes nothing and raises the out-of-bounds status of the selected error level; the result of a pixel depends neither on the number of workers nor on the other pixels. Single and double precision do the same.',
     ['inputs', 'configurations'], 'all element and pixel positions, data lengths, delays, modes, numbers of workers, precisions',
     'The tests produce images of one fixed array and check nothing in them; a wrong stripe end or a dropped A-scan leaves a plausible image.',
     [DAS_, 'include/das.h'],
     [('per-pixel sums', 'DAS::das_saft_serial, das_tfm_serial, das_rca_serial_coltx, das_rca_serial_rowtx'), ('workers', 'DAS::das, DAS::smp_das')],
     'Full functional contract of the four pixel sums and of the threaded entry point, for float and double. Exact over the reals.')
prop('C13', 'Convolutions: all samples, in each of the write, add and subtract modes',
     'The direct convolution of two vectors writes, adds to, or subtracts from the output all len(x)+len(y)-1 samples of their convolution; the transform based one does the same with the inverse transform of the product of the zero-padded transforms, and does not depend on what its work buffers held before. The sum of convolutions sets the output to the inverse transform of the sum over all inputs of the products of the transforms of that input\'s response column and signal (with the documented scaling).',
     ['inputs'], 'all lengths, data, modes and previous contents of work buffers and outputs',
     'The tests run one mode on fresh buffers; stale padding or a dropped tail sample needs reuse of the buffers with other lengths or modes.',
     ['extra_src/conv.cc', 'extra_src/fftconv.cc'],
     [('direct convolution', 'conv'), ('transform convolution', 'fftconv'), ('sum of convolutions', 'add_fftconv')],
     'Transforms are uninterpreted functions of their whole input (FFTW trusted).')
prop('C14', 'Parallel convolution: each column convolved once, with its own partner',
     'The parallel convolution of a matrix with a vector or a second matrix convolves each column of the first with the vector, or with the same column of the second, into the same column of the output in the selected mode, each exactly once, whatever the numbers of columns and workers, and with no influence between columns.',
     ['inputs', 'configurations'], 'all matrix shapes, vector orientations, modes, worker counts',
     'The tests run one machine with one thread count and square inputs; a wrong column stride shows only for columns of different length.',
     ['extra_src/fftconv_p.cc', 'include/fftconv_p.h'],
     [('partition and workers', 'FFTConvP::run, FFTConvP::smp_dream_fftconv')],
     'Workers are executed in creation order by the verifier; the single-column convolution is used through its contract.')
PYF = ['python/src/py_dream%s.cc' % k for k in ('line', 'rect', 'circ', 'rect_f', 'circ_f', 'sphere', 'cylind', '_arr_rect', '_arr_circ', '_arr_cylind', '_arr_annu')]
prop('C15', 'Python functions: malformed calls raise, all others return the exact result',
     'The Python impulse response functions, delay-and-sum functions and parallel convolution raise an error when an argument has a wrong number of rows, columns or values (for its documented role and the other arguments), or when a level, method, focusing, steering, apodization or device name is unknown, or when the computation was stopped by an out-of-range travel time. Every other call returns, in the documented shape, exactly what the computation gives, from a cleared result, for those arguments each in its documented role, given in the documented order or by their documented names; no earlier call has any influence.',
     ['inputs', 'histories'], 'all argument shapes, values and strings; any earlier calls',
     'The tests make one correct call per function and look at nothing but plots; arguments in the wrong role, or dropped, still give a plausible plot.',
     PYF + ['python/include/py_das.hpp', 'python/src/py_das.cc', 'python/src/py_fftconv_p.cc', 'include/arg_parser_python.h', 'include/arg_parser.h'],
     [('argument checks', 'ArgParser<...>::check_*, parse_*'), ('functions', 'py_dream*, py_das, py_fftconv_p')],
     'Every function verified down to the computation, which is used through its contract (proved in C01-C14). Arguments are arrays of numbers with two dimensions (one or two for the convolution); interpreter interface by an executable stand-in.')
prop('C16', 'Octave functions: malformed calls fail, all others return the exact result',
     'The Octave impulse response functions (closed-form ones included) and delay-and-sum fail (an error, or nothing returned) for a wrong number of arguments or outputs, for an argument with a wrong number of rows, columns or values, for a matrix where text is expected, for an unknown level, method, focusing, steering or apodization name, and when the computation was stopped. Every other call returns, in the documented shape, exactly what the computation gives, from a cleared result, for those arguments each in its documented role (stop being the level when none is given), and the error status as second output if asked for; no earlier call has any influence.',
     ['inputs', 'histories'], 'all argument counts, shapes, values, types and strings; any earlier calls',
     'The tests make one correct call per function; a role mix-up or a missing check needs another call.',
     ['oct/oct_dream%s.cc' % k for k in ('line', 'rect', 'circ', 'rect_f', 'circ_f', 'sphere', 'cylind', '_arr_rect', '_arr_circ', '_arr_cylind', '_arr_annu')] + ['extra_src/oct_%s.cc' % k for k in ('das', 'rect_sir', 'circ_sir', 'scirc_sir')] + ['include/arg_parser.h'],
     [('argument checks', 'ArgParser<octave_value_list>::check_*, parse_*, get_*'), ('functions', 'DEFUN_DLD of each file')],
     'Every function verified down to the computation, which is used through its contract (proved in C01-C12, C17). Arguments are real matrices or strings; each access to a matrix argument is treated as a fresh conversion; interpreter interface by an executable stand-in.')

prop('C17', 'Closed-form responses of rectangle and disc equal the analytic solution',
     'For every observation point, with its own or the common delay, each sample of the closed-form rectangle response is the signed sum of the four corner pieces of the arc-cosine solution, in the symmetric quadrant, times the normal velocity; of the disc response zero before and after, velocity times sound speed while the whole circle of equal travel time is on the disc, and the arc fraction in between; and of the sampled disc response the average of that over the sampling interval, the arc part by the trapezoidal rule with the given number of steps. Neither earlier contents of the result, the number of workers, nor the other observation points have any influence.',
     ['inputs', 'configurations'], 'all positions, apertures, sampling intervals, lengths, delays, materials, numbers of steps and workers',
     'The tests draw one response; inside/outside cases, interval ends and single corners need particular positions.',
     ['extra_src/%s.cc' % k for k in ('rect_sir', 'circ_sir', 'scirc_sir', 'oct_rect_sir', 'oct_circ_sir', 'oct_scirc_sir')],
     [('rectangle', 'RectSir::rect_sir_serial, RectSir::rect_sir'), ('disc', 'circ_sir'), ('sampled disc', 'scirc_sir, trapets_int, acos_acos'), ('workers of the disc functions', 'smp_process in oct_circ_sir.cc, oct_scirc_sir.cc')],
     'Exact over the reals; square root and arc cosine uninterpreted. The sampled disc for positive height, radius, sound speed and sampling interval.')

prop('C18', 'Octave convolution, copy and add functions: right columns, mode and checks',
     'The Octave parallel convolution functions (direct, by transforms, by overlap-and-add in blocks, and summed over inputs) give, in each column of a new matrix or of the matrix to be worked on in place (replacing, adding or subtracting as the mode text says, also when saved plans follow), the convolution of that column of the first argument with the vector, or with the same column of the second; copy and add do so for exactly the given rows and columns. Nothing else in the matrix worked on changes and no worker count has any influence. Wrong numbers of arguments or outputs, empty or mismatched sizes, bad block lengths or indices and unknown texts are rejected.',
     ['inputs', 'configurations'], 'all sizes, data, block lengths, indices, texts, previous contents, argument counts and numbers of workers',
     'The tests convolve one pair of matrices without in-place modes; a mode or block mix-up needs other calls.',
     ['extra_src/oct_%s.cc' % k for k in ('conv_p', 'fftconv_p', 'fftconv_ola', 'sum_fftconv', 'copy_p', 'add_p')],
     [('functions', 'DEFUN_DLD of each file'), ('workers', 'smp_dream_* of each file')],
     'Every function verified per argument count down to the convolution of one column (one block of it for overlap-and-add), which is used through its contract (C13). That the block convolutions add up to the whole convolution is the linearity of the transform, not proved here. The matrix worked on in place is a full double matrix that is no other argument; row and column indices are whole numbers.')

prop('C19', 'Octave attenuation and window functions: right point, delay and place',
     'The Octave attenuation function gives, in each column, the attenuation response over the distance to that observation point, starting at the sample after its travel time less the common or its own delay. The apodization window function gives the weights of the named method at evenly spaced places from one edge of the aperture on, the given weights for user-defined apodization, and ones when apodization is off. A wrong number of arguments or outputs, wrong sizes, lengths under one and unknown methods are rejected.',
     ['inputs'], 'all observation points, delays, lengths, media, methods, weights and parameters',
     'The tests draw one response and each window once; a mix-up of points, delays or weights still draws a plausible curve, and memory that was never written often holds zeros.',
     ['oct/oct_dream_att.cc', 'oct/oct_dream_apodwin.cc', 'src/attenuation.cc', 'src/arr_functions.cc'],
     [('functions', 'DEFUN_DLD of dream_att and dream_apodwin'), ('callees', 'Attenuation::att, apodization')],
     'Verified down to the response of one point and the window function at one place, whose own contracts are checked here too. Cosine, exponential and inverse transform are uninterpreted.')

prop('C20', 'OpenCL kernels: work item n computes point or pixel n like the CPU does',
     'Started for work item n, the OpenCL kernel for the rectangle, the disc and the closed-form rectangle response writes row n of the result, and the delay-and-sum kernel (synthetic aperture, full matrix, row-column; single and double precision) value n of the image, with exactly what the CPU computation gives for observation point n, samples outside the record or response being left out, whatever the result held before and whatever the other work items do. The delay-and-sum kernels for regular grids do the same for elements and pixels at first, first plus step, and so on to the last place, with pixels numbered along y first, then z, then x. Nothing outside that row or value is written.',
     ['inputs', 'configurations'], 'all work items, positions, grids, apertures, data, lengths, delays, media and precisions',
     'The tests never execute the kernels (they only compile them); a kernel that drifted away from the CPU code, or mixes up two grid axes of equal length, is not noticed.',
     ['opencl/%s.cl' % k for k in ('dreamrect', 'dreamcirc', 'rect_sir', 'das_double', 'das_float', 'das_uni_double', 'das_uni_float')],
     [('kernels', '__kernel functions of opencl/*.cl')],
     'The kernel texts are compiled unchanged as C++ with address spaces dropped and native square root and arc cosine taken as exact; the host code that starts them is not covered. Exact over the reals.')

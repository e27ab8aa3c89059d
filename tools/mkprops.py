#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
S='deltares_wave_toolbox/series.py'; SP='deltares_wave_toolbox/spectrum.py'
C='deltares_wave_toolbox/cores/'
CT=C+'core_time.py'; CS=C+'core_spectral.py'; CW=C+'core_wavefunctions.py'
CE=C+'core_engine.py'; CD=C+'core_dispersion.py'; CZ=C+'core_wave_decomposition.py'
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe)))

p('C01','Zero-crossings are exactly the sign changes of the signal',
  "For a finite signal on a uniform time axis the reported down-crossings are, in time order, exactly one per pair of consecutive samples going from >=0 to <0 (up-crossings: from <=0 to >0), each placed inside that sample interval where the straight line through the two samples is zero. The reported number of waves is the number of crossings minus one, or zero when there is no crossing. The down-crossings of a signal are the up-crossings of its negative, and the crossing type is matched case-insensitively (anything else is rejected).",
  ['inputs'],'every finite signal (including exact zeros and plateaus) and every uniform time axis',
  'Three hand-written signals are tested; the statement ranges over every sign/zero pattern and every amplitude.',
  [CT,S],[('determine_zero_crossing','core_time.py'),('Series.get_crossing','series.py')],['returned count and crossing times'])
p('C02','Waves between crossings carry the true period, crest, trough and height',
  "For each two consecutive crossings exactly one wave is reported: its period is the time between them, its crest and trough are the largest and smallest recorded sample within that time span (each timed at the first such sample), and its height is crest minus trough. For crossings found in the same signal, a down-crossing wave has a negative trough and a non-negative crest, an up-crossing wave a positive crest and a non-positive trough, and the periods add up to the time between first and last crossing.",
  ['inputs'],'every finite signal on a uniform axis, every increasing set of crossing times inside the axis',
  'Two sampled signals; ties, plateaus, zeros on sample points and crossings arbitrarily close to a sample are not covered.',
  [CT],[('determine_params_individual_waves','core_time.py'),('determine_zero_crossing','core_time.py')],['returned six arrays'])
p('C03','A series carries the waves of its record, independent of time origin and unit',
  "A series built from a record holds the heights and periods of the down-crossing waves of that record, with equally many heights, periods and counted waves. Multiplying the record by a positive factor multiplies all heights by it and leaves the periods, and shifting the time axis changes neither. Re-running the wave analysis with a minimum wave height keeps exactly the waves that are at least that high, with up- or down-crossing definition as asked.",
  ['inputs'],'every finite record on a uniform axis, every positive factor, every shift, every minimum height',
  'Only one random series is ever built in the tests and only one scalar of it is looked at.',
  [S,CT],[('Series.__init__/_determine_individual_waves','series.py')],['hwave, twave, nwave of the series'])
p('C04','Sorting waves is a descending joint permutation of the (height, period) pairs',
  "Sorting waves returns exactly the given (height, period) pairs, each as often as before and never re-paired, with heights in non-increasing order. The caller's arrays are not reordered, and arrays of different length or not one-dimensional are rejected.",
  ['inputs'],'every list of waves, with and without ties',
  'Two example lists without ties.',
  [CT,S],[('sort_wave_params','core_time.py'),('WaveHeights.sort','series.py')],['returned arrays'])
p('C05','Mean of the highest fraction is the mean of exactly those waves',
  "For n waves and a fraction p between 0 and 1, the reported height and period are the means over the floor(n*p) highest waves of the heights and of the periods of those same waves (0 and 0 if that number is zero or there are no waves). The significant wave height is this for p=1/3, whatever the order in which the waves are stored, and the Rayleigh 2% height is the significant height times sqrt(-ln 0.02)/sqrt(2). A fraction outside [0,1] or heights not sorted in descending order are rejected by the low-level routine.",
  ['inputs','histories'],'every list of waves and every fraction (floating point)',
  'Two fractions on one list.',
  [CT,S],[('highest_waves_params','core_time.py'),('WaveHeights.highest_waves/get_Hs','series.py')],['returned heights and periods'])
p('C06','Exceedance height is the wave of the right rank',
  "For n waves and exceedance percentage P in [0,100] the reported height is the floor(n*P/100)-th highest wave height, and 0 if that rank is zero or there are no waves; for positive ranks it never increases with P. This holds whatever the order in which the waves are stored in the object. Percentages outside [0,100] or heights not sorted in descending order are rejected by the low-level routine.",
  ['inputs','histories'],'every list of waves and every percentage (floating point)',
  'Two percentages on one list.',
  [CT,S],[('exceedance_wave_height','core_time.py'),('WaveHeights.get_exceedance_waveheight','series.py')],['returned height'])
p('C07','Wave statistics do not depend on which queries, sorts or plots came before',
  "Any sequence of statistics queries, sorts, plots and renewed wave determinations with other settings on a wave-height or series object leaves its multiset of (height, period) pairs and its record unchanged, and every query returns what it returns on a freshly built object with the settings last used. For three or more waves maximum height >= significant height >= mean height, and Hrms is the root of the mean squared height. Objects do not influence each other.",
  ['inputs','histories'],'every list of waves and every sequence of queries',
  'No test makes two queries on one object.',
  [S,CT],[('WaveHeights methods reassign hwave/twave','series.py')],['answers of the object, hwave/twave pairs'])
p('C08','Going to Fourier components and back returns the signal',
  "For every real signal of even or odd length, transforming to unfolded Fourier components and back returns the signal, and so does transforming to folded components, unfolding and going back. The transforms are linear, the zero-frequency component is the sum of the samples, and unfolded components of a real signal are complex-conjugate symmetric around the Nyquist frequency.",
  ['inputs'],'every real signal, even and odd lengths',
  'One even-length two-component signal, unfolded path only.',
  [CS],[('time2freq, freq2time, time2freq_nyquist, unfold_spectrum','core_spectral.py')],['returned components and signals'])
p('C09','Frequency axes are k/(N dt), folded up to Nyquist and unfolded to N points',
  "For N samples at time step dt the unfolded axis is k/(N dt) for k=0..N-1, the folded axis is its first floor(N/2)+1 values (never beyond Nyquist) together with a flag that is true exactly for odd N, whatever the initial time. Folded components are the first floor(N/2)+1 unfolded ones, and unfolding restores the N-point axis.",
  ['inputs'],'every N, dt and initial time',
  'One frequency axis is compared against literals.',
  [CS,S],[('time2freq, time2freq_nyquist, unfold_spectrum','core_spectral.py'),('Series.get_fourier_comp','series.py')],['returned axes and flag'])
p('C10','The raw spectrum distributes exactly the variance of the signal over frequency',
  "The spectrum computed from a time series without band averaging equals 2|X_k|^2/(df N^2) at every frequency bin, is never negative, scales with the square of the signal, and does not depend on the initial time. Summed times df, over all bins strictly between zero and Nyquist plus half the zero and (for even N) Nyquist bins, it equals the mean square of the signal. The spectrum computed from Fourier components of the same record, and the one obtained from the series object, are identical to it.",
  ['inputs'],'every real signal, even and odd lengths, every uniform axis',
  'One signal compared against 26 literals.',
  [CS,S],[('compute_spectrum_time_series, compute_spectrum_freq_series','core_spectral.py'),('Series.get_spectrum_raw','series.py')],['returned axis and densities'])
p('C11','Band averaging preserves energy and stays within the averaged values',
  "With r the ratio of desired to given frequency spacing rounded to an integer (at least 1), band averaging returns floor(n/r) values, the i-th being the plain mean of the i-th block of r consecutive values and its frequency the mean of their frequencies. Hence the energy (sum times spacing) of the covered bins is preserved, a non-negative spectrum stays non-negative and within the range of the block, and with no or too small desired spacing the spectrum is returned unchanged, whatever the number type of the input.",
  ['inputs'],'every spectrum (integer, real or complex valued) and every desired spacing',
  'Only ever exercised with factor 1.',
  [CS],[('frequency_averaging','core_spectral.py')],['returned axis and densities'])
p('C12','Coherence lies between 0 and 1, is symmetric, and is 1 without averaging',
  "The coherence of two spectral signals is between 0 and 1 at every returned frequency, does not depend on the order of the two signals, and is 1 for a signal with any non-zero constant multiple of itself wherever there is energy. Without band averaging it is 1 wherever both signals have energy.",
  ['inputs'],'every pair of complex spectra and every desired spacing',
  'Not tested at all.',
  [CS],[('coherence','core_spectral.py')],['returned coherence'])
p('C13','The band filter passes exactly the components inside the band',
  "Filtering a signal between a lower and an upper frequency leaves every Fourier component of positive frequency f with lower <= f < upper unchanged and removes every other one, including the mean; a lower limit at or above the last frequency of the record leaves nothing. It is linear, filtering twice equals filtering once, and the parts filtered over adjacent bands add up to the part filtered over the union (up to Nyquist when the upper limit is at or above it).",
  ['inputs'],'every signal and every pair of cut-off frequencies lower < Nyquist',
  'One two-component signal with a wide gap between components and limits.',
  [CS,S],[('applybandfilter, bandpassfilter','core_spectral.py'),('Series.get_bandpassfilter','series.py')],['filtered components and signal'])
p('C14','Spectral moments are exact, linear and positive over the requested band',
  "For a spectrum on a uniform axis the m-th moment is linear in the spectrum, non-negative for a non-negative spectrum, and equals the exact integral whenever f^m S is a parabola over at least three points. The lower and upper limit each select the nearest frequency (omitted: the first or last); an upper limit above the last frequency adds exactly the integral of an f^-5 tail continued from the last value. Negative moments ignore f=0.",
  ['inputs'],'every spectrum, order m, uniform axis and limits',
  'Only order 0 is exercised, through the energy of one spectrum.',
  [CW,CE],[('compute_moment','core_wavefunctions.py'),('approx_array_index','core_engine.py')],['returned moment'])
p('C15','Hm0 is 4 sqrt(m0) and mean periods are ordered Tm-1,0 >= Tm01 >= Tm02',
  "For every non-negative spectrum with energy, none of it at f=0, Hm0 is four times the root of the zeroth moment over the requested band, and the mean periods satisfy Tm-1,0 >= Tm01 >= Tm02 and lie between the inverse of the highest and of the lowest non-zero frequency in the band carrying energy. Multiplying the spectrum by c^2 multiplies Hm0 by c and leaves all periods; for a spectrum with Hm0 below 1e-6 m the parameter function returns not-a-number for all parameters.",
  ['inputs'],'every non-negative spectrum on a uniform axis, every band',
  'Hm0 and Tp of one JONSWAP spectrum; the mean periods are never tested.',
  [CW,SP],[('compute_spectrum_params','core_wavefunctions.py'),('Spectrum.get_Hm0/get_Tmm10/get_Tm01/get_Tm02','spectrum.py')],['returned parameters'])
p('C16','Object methods and functions report the same spectral parameters',
  "Hm0, Tp, Tps, Tm-1,0, Tm01 and Tm02 obtained from a spectrum object equal the values the parameter function returns for the same spectrum (with Hm0 of at least 1e-6 m) and frequency limits. Steepness values are 2 pi H/(g T^2) of the corresponding height and period over the same limits, and the high/low-frequency parameters equal the ordinary ones over the band above/below the cut-off, by default 0.45/Tm-1,0 of the whole spectrum.",
  ['inputs'],'every non-negative spectrum, every pair of frequency limits, every g',
  'The two implementations are never compared; steepness and HF/LF parameters are untested.',
  [SP,CW],[('Spectrum.get_*','spectrum.py'),('compute_spectrum_params','core_wavefunctions.py')],['returned parameters'])
p('C17','Spectral parameters do not depend on earlier queries of the spectrum',
  "Every parameter query on a spectrum object returns a value determined by the spectrum and the arguments of that query alone: it is what a freshly built object returns, whatever sequence of queries, with whatever limits, or plots came before. Queries do not change the spectrum.",
  ['inputs','histories'],'every spectrum, every sequence of queries with every limits',
  'Tests only make first queries; a stale cached value needs two queries with different limits.',
  [SP],[('Spectrum.get_* store results as attributes that others read','spectrum.py')],['returned parameters'])
p('C18','Peak periods point at the peak of the spectrum',
  "Tp is the inverse of a frequency in the requested band at which the spectrum is maximal within that band (the highest one if there are several). For positive uniform axes and a maximum density of at least 1e-10 the smoothed peak period Tps is positive, finite, does not change when the spectrum is multiplied by a positive factor, and is the inverse of a frequency inside the axis; it always lies within half a bin of a frequency at which the density is maximal, and for a single maximum that lies between two neighbours it is the vertex of the parabola through the three points. The design period TpD lies within the periods of the range of frequencies whose density is at least 64% of the maximum.",
  ['inputs'],'every spectrum with energy, on a positive uniform axis, every band',
  'Eight literal spectra of at most three points.',
  [CW,SP],[('compute_tps, tpd, compute_spectrum_params','core_wavefunctions.py'),('Spectrum.get_Tp/get_Tps','spectrum.py')],['returned periods'])
p('C19','Theoretical spectra have the requested height and the JONSWAP shape',
  "The created spectrum is non-negative, zero for non-positive frequencies, and its Hm0 over the axis (or with the f^-5 tail to infinity when so asked) equals the requested height, for every peak frequency, peak factor and axis on which it has energy. It is everywhere proportional to f^-5 exp(-1.25 (f/fp)^-4) gamma^exp(-(f/fp-1)^2/(2 s^2)), s=0.07 below and 0.09 from the peak; the Pierson-Moskowitz spectrum is the one with gamma=1, and the object-returning variants carry the same spectrum. A tail option other than 0 or 1 is rejected.",
  ['inputs'],'every axis, peak frequency, peak factor, wave height and tail option',
  'Four literal spectra with one (Hm0, Tp).',
  [CW],[('create_spectrum_jonswap, create_spectrum_piersonmoskowitz and object variants','core_wavefunctions.py')],['returned densities'])
p('C20','The wave number is exact in deep and shallow limits and has the right symmetries',
  "In infinite depth k = w^2/g, for negative depth w = k sqrt(g|h|), and for zero frequency k = 0. In finite depth k is an odd function of w and k h depends on w^2 h/g only; every frequency of an array gets the value it gets alone, and the given frequencies are not changed.",
  ['inputs'],'every frequency array, depth and gravity',
  'Two depths with four frequencies each.',
  [CD],[('disper','core_dispersion.py')],['returned wave numbers'])
p('C21','The wave number satisfies the dispersion relation accurately at every depth',
  "For every positive finite depth and every non-zero frequency for which k h is at most 20, the returned wave number has the sign of the frequency and satisfies w^2 = g k tanh(k h) to a relative error below 1e-7.",
  ['inputs'],'every frequency, depth and gravity with 0 < kh <= 20',
  'Eight values compared at an absolute tolerance of 1e-4.',
  [CD],[('disper','core_dispersion.py')],['returned wave numbers'])
p('C22','Wave decomposition recovers incident and reflected waves and superposes',
  "For gauge records that are the sum of an incident and a reflected wave train of components obeying the dispersion relation, the decomposition returns the incident and the reflected train at the first gauge exactly, at every frequency at which the gauge array is well-conditioned, for two or more gauges at increasing positions and any admissible weights; at the other frequencies both are zero. The result is linear in the records, and the series variant returns the same records. Inconsistent dimensions, fewer than two gauges, unsorted positions and weights outside [0,1] are rejected.",
  ['inputs'],'every incident/reflected train, gauge layout, weights, depth, even and odd record length',
  'One three-component sea state on one five-gauge layout.',
  [CZ],[('decompose_linear_ZS, decompose_linear_ZS_series','core_wave_decomposition.py')],['returned incident and reflected records'])
p('C23','A synthesised series has the right axis, zero mean and the spectrum\'s variance',
  "The time axis of a synthesised series starts at the requested time with the requested step and covers the requested interval without going a step beyond it. The series (over an even number of points) has zero mean and, whatever the random phases, a variance equal to that of the spectrum interpolated at the multiples of the basic frequency below Nyquist, zero outside the given axis, plus at most that of the Nyquist bin. The same non-negative seed gives the same series.",
  ['inputs','histories'],'every spectrum, interval, step, seed and every outcome of the random phases',
  'One series with unseeded phases is built and only one statistic derived from it is compared with itself.',
  [CS,SP],[('spectrum2timeseries, spectrum2timeseries_object','core_spectral.py'),('Spectrum.create_series','spectrum.py')],['returned axis and series'])
p('C24','Only uniform increasing axes and matching lengths are accepted',
  "An axis is accepted as uniform exactly when it is strictly increasing and every step equals the first within the tolerance of 2.3e-10. Spectral transforms, spectra from components, moments, spectral parameters and spectrum objects reject, with an error and not a number, an axis that is not uniform and increasing, arrays of different length, and two-dimensional arrays; a series rejects arrays of different length.",
  ['inputs'],'every axis and every combination of array lengths',
  'No rejection is tested.',
  [CE,CS,CW,SP,S],[('monotonic_increasing_constant_step','core_engine.py'),('input checks','all modules')],['returned flag, raised errors'])
p('C25','Functions never modify their inputs and keep no hidden state',
  "No function or constructor of the package changes the arrays it is given. Repeating a call with the same arguments gives the same result even when other calls, with other data of the same shape, were made in between, and the result is the one of a freshly loaded package (random phases excepted).",
  ['inputs','histories'],'every input, every interleaving of calls',
  'Tests use literals and never look at the inputs afterwards or repeat a call.',
  [CS,CT,CW,CD,CZ,CE,S,SP],[('all public functions','cores/*')],['argument arrays after the call, results of repeated calls'])
p('C26','Shape statistics of a record are invariant to offset and scale',
  "Skewness is the third central moment divided by the 3/2 power of the variance: it does not change under offset and positive scaling, and changes sign with the signal. The asymmetry has the same invariances, and changes sign when time is reversed. Mean, variance, maximum and minimum are those of the recorded samples.",
  ['inputs'],'every non-constant record',
  'Not tested at all.',
  [S],[('Series.get_skewness/get_asymmetry/mean/var/max/min','series.py')],['returned statistics'])
p('C27','The segment-averaged spectrum has the requested frequency resolution',
  "For a desired resolution that the record length allows, the spectrum of a series is estimated with segments of (sampling rate / desired resolution) points rounded to an integer, overlapping by half, so that its frequency spacing deviates from the desired one by no more than that rounding. When switched off, the given segment length, overlap and transform length are used, zero meaning the default.",
  ['inputs','configurations'],'every record, time step, desired resolution and segment configuration',
  'Not tested at all.',
  [S,CS],[('Series.get_spectrum','series.py'),('compute_spectrum_welch_wrapper','core_spectral.py')],['frequency axis of the spectrum, arguments reaching the estimator'])
p('C28','The shallow-water wave height distribution is dimensionally consistent',
  "The Battjes-Groenendijk distribution starts at height 0 with exceedance 1, has its second point at the transition height (0.35+5.8/cot slope) times the depth and its last point at exceedance 1/n; the transition exceedance is between 0 and 1 and the last height never exceeds the Rayleigh height of that exceedance. Multiplying wave height and depth by the same factor multiplies the heights by it and leaves the exceedances; when the transition height is more than 2.75 times Hrms (2.69 + 3.24 Hs/(4 depth) times a quarter of the wave height) no distribution is returned, for every slope. The returned points lie on one composite Weibull distribution, with exponents 2 below and 3.6 above the transition height, continuous at the transition and with the prescribed Hrms, capped by the Rayleigh height.",
  ['inputs'],'every wave height, depth, slope and number of waves',
  'Not tested at all.',
  [CW],[('compute_BattjesGroenendijk_wave_height_distribution','core_wavefunctions.py')],['returned heights and exceedances'])
p('C29','Results do not depend on the container or number type of the input',
  "The same numbers given as a list, an integer array, a float array or a column of shape (n,1) give the same values in all spectral functions and constructors that accept vectors, and the same as a list or array in the time-domain functions. A single number is accepted where a vector of length one is.",
  ['inputs','configurations'],'every vector of numbers, every container',
  'Tests mix lists and arrays but never compare them.',
  [CE,CS,CW,CT,CD],[('convert_to_array_type, convert_to_vector','core_engine.py')],['returned values'])
p('C30','Nearest-index lookup returns the closest entry',
  "Looking up a value in an array returns the position of an entry at minimal distance from the value, the first one if several are equally close.",
  ['inputs'],'every array and every value',
  'Not tested directly.',
  [CE],[('approx_array_index','core_engine.py')],['returned index'])
p('C31','Figures draw exactly the data of the object',
  "The plot of a series draws its samples against its time axis and, when asked, marks at level zero the crossings of its current wave analysis; the plot of a spectrum draws its densities against its frequencies with a vertical line from zero to the maximum density at the inverse of every one of Tps, Tm-1,0 and Tm02 that was computed, as last returned, unless switched off. Exceedance plots draw every wave once, the k-th highest of n at exceedance k/n: on the Rayleigh plot at sqrt(-ln(k/n)), with every percentage tick p at sqrt(-ln(p/100)), heights divided by the significant height when asked (three or more waves), next to the Rayleigh curve of the 2% height (H2% sqrt(ln(k/(n+1))/ln 0.02) at the k-th point) and on request the Battjes-Groenendijk points for the same number of waves. The histogram counts every wave height once. Every plot is a new figure, which is returned.",
  ['inputs','histories'],'every set of waves, record or spectrum and every sequence of queries and plots before',
  'No test looks at a figure.',
  [S,SP],[('Series.plot, WaveHeights.plot_*','series.py'),('Spectrum.plot','spectrum.py')],['artists of the returned figure: curves, bars, ticks and limits'])
p('C32','Objects handed back are those a user would build from their data',
  "A series returned by band filtering, by synthesis from a spectrum or by wave decomposition is in every respect (time axis, samples, waves, crossings, statistics, spectra) the series built from its own time axis and samples, and its wave statistics are those of the wave-height object built from its waves. A spectrum returned by a series or by a theoretical-spectrum function is in every respect the spectrum object built from its own frequencies and densities, which are those the corresponding function returns. Later operations on the returned object do not change the object it came from, nor the other way round.",
  ['inputs','histories'],'every record, band, gauge set and spectrum, every query on the returned object',
  'Tests look at single numbers of returned objects at most.',
  [S,SP,CS,CW,CZ],[('Series.get_bandpassfilter/get_spectrum/get_spectrum_raw','series.py'),('Spectrum.create_series','spectrum.py'),('spectrum2timeseries_object','core_spectral.py'),('create_spectrum_object_*','core_wavefunctions.py'),('decompose_linear_ZS_series','core_wave_decomposition.py')],['attributes and query results of the returned objects'])
p('C33','A rejected request leaves objects and arrays as they were',
  "After a request that is rejected with an error (a fraction or percentage out of range, an unknown crossing type, a missing wave height for the Battjes-Groenendijk curve, an empty frequency band, inconsistent or non-uniform arrays), the object keeps its pairs of heights and periods, its crossings, its record or its spectrum, every later query returns what it returns on a freshly built object with the settings last accepted, and the arrays handed to the rejected call are unchanged.",
  ['inputs','histories','fault_sequences'],'every rejected request before every query, every object',
  'Tests check that errors are raised, never what is left behind.',
  [S,SP,CT,CS,CW],[('WaveHeights/Series queries','series.py'),('Spectrum queries','spectrum.py'),('input checks of the functions','cores')],['results of queries after the error'])
p('C34','Waves keep their identity when a record is turned over, reversed, cut or repeated',
  "Turned upside down, a record has the same wave heights and periods for the opposite crossing definition, its crests being the former troughs with opposite sign and at the same times. Reversed in time (no sample being zero) it has, for the opposite crossing definition, the same heights, periods, crests and troughs in reverse order. Any part of a record, on its own, has exactly the crossings of the whole that lie within it and the waves of the whole between them; still water before and after a record and a repetition of the record leave every one of its waves as it was. Significant height, maximum and Rayleigh height follow.",
  ['inputs'],'every record, both crossing definitions, every cut',
  'Tests analyse single literal records and never compare two related ones.',
  [CT,S],[('determine_zero_crossing, determine_params_individual_waves','core_time.py'),('Series._determine_individual_waves','series.py')],['crossings and waves of related records'])
p('C35','Methods of series and waves are the functions they stand for',
  "Every analysis method of a series or wave-height object returns exactly what the corresponding function returns for the record or waves of the object, with the documented default arguments and whether arguments are given by position or by keyword: crossings (down by default), individual waves (also about the part below a cut-off frequency), sorting, highest fraction, significant and exceedance height, Fourier components, raw spectrum (0.01 Hz by default), segment-averaged spectrum (segments of sampling rate / resolution points overlapping by half by default), band filter. Creating a series from a spectrum by method, object or function gives the same axis and, for the same seed, the same series.",
  ['inputs','configurations'],'every record, every set of waves, every argument',
  'Methods are tested for single values of single records.',
  [S,SP,CT,CS],[('methods of WaveHeights and Series','series.py'),('Spectrum.create_series','spectrum.py'),('the functions called','core_time.py, core_spectral.py')],['results of the method and of the function'])
p('C36','The variance of a record is the same by every route',
  "The variance of a record equals the energy above zero frequency (sum over the bins times their spacing, the Nyquist bin of an even record counted half) of its raw spectrum, of its Fourier components and of the spectrum computed from these, and the variance of the record band-filtered over all frequencies. Filtered over adjacent bands, each part has the variance the raw spectrum holds in that band. Band averaging keeps the energy of the bins it covers, and the segment-averaged spectrum with one untapered segment over the whole record is the raw one. Neither the level of the record nor a cyclic shift of it changes its variance or its spectrum above zero frequency.",
  ['inputs'],'every record, every split of the frequency axis',
  'No test compares two routes.',
  [S,CS],[('Series.var/get_spectrum_raw/get_spectrum/get_fourier_comp/get_bandpassfilter','series.py'),('transforms, spectra and filter','core_spectral.py')],['returned variances, spectra and filtered records'])
p('C37','A theoretical spectrum analysed gives back what it was made with',
  "Analysing a JONSWAP or Pierson-Moskowitz spectrum with a peak factor of at least 1 and the peak frequency within the axis, made by any of the functions, gives the requested wave height (over the axis, or with the tail when made so) and a peak period that is the inverse of the peak frequency or, where it is not on the axis, of one of its two neighbours; the spectrum rises up to the peak and falls beyond it. Another requested height changes the densities by the squared ratio and no period; another frequency unit scales periods and densities and leaves the height; a larger peak factor lowers every density relative to the one at the peak. Peak and mean steepness are 2 pi H/(g T^2) of the spectrum's own height and (smoothed peak, Tm-1,0) period.",
  ['inputs','configurations'],'every wave height, peak frequency, peak factor and axis',
  'A few published values of one spectrum are tested.',
  [CW,SP],[('create_spectrum_jonswap, create_spectrum_piersonmoskowitz and object variants','core_wavefunctions.py'),('Spectrum queries','spectrum.py')],['densities and parameters of the created spectrum'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as fh:
    for x in P: fh.write(json.dumps(x)+'\n')
print(len(P))

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Audio components never touch memory outside the buffers they were given",
 "Whatever sequence of ticks, writes, taps, restarts, copies and run-time buffer replacements (longer, shorter, length 1, or the empty 'not assigned yet' buffer) a delay line, comb, all-pass, wavetable oscillator or memory handle goes through using only its safe API, it reads and writes only the elements of the buffer it currently holds and never crashes. A component whose buffer is empty stays silent (outputs are those of a delay that holds only zeros) instead of accessing memory.",
 ["histories","fault_sequences"],"all event histories of ticks/taps/control events over simulated RAM, with buffer replacement, late buffer assignment, restarts and RAM corruption at any instant; buffer lengths from 0 up; tap offsets and sample indices of any magnitude an index expression can reach without overflowing itself (|k| <= 2^61, delay line taps the whole isize range), fractional offsets any number including NaN and infinities (these never crash)",
 "Unit tests use one buffer of length 2 or 24 that is never replaced; an out-of-range position only arises from a history (replace a buffer while the head is beyond the new end) or a phase late in the cycle.",
 ["src/delay_line.rs","src/comb.rs","src/all_pass.rs","src/memory/memory_slice.rs","src/oscillator/osc_wavetable.rs"],
 [("DelayLine::change_buffer / write_and_advance keep index inside the buffer","src/delay_line.rs"),("MemorySlice bounds checks and rem_euclid wrapping","src/memory/memory_slice.rs"),("WavetableOscillator::next table lookup","src/oscillator/osc_wavetable.rs")],
 ["guard elements around every simulated buffer","returned samples (guards hold NaN poison)","process crash / panic"],
 [("DelayLine.index","write/read head","src/delay_line.rs"),("MemorySlice.ptr,length","buffer in use","src/memory/memory_slice.rs")])

p("C02","Shared buffers stay coherent when another context preempts at any instruction",
 "When two execution contexts (main code and an interrupt) use handles to the same memory, every assignment made through a handle reaches memory exactly once and in program order, every read (plain, wrapped or interpolated) returns values held by the addressed elements at some moment during the call, and a context that polls an element sees a store made by the other context on its next read. A comb or all-pass tick reads its stored sample once: what it outputs and what it stores derive from the same sample. Elements not addressed by an operation are never changed by it.",
 ["schedules"],"all preemption points (machine instructions) inside every handle and delay-line operation, and all operations performed by the preempting context on overlapping memory",
 "No test runs two contexts; the guarantee rests on volatile single-element accesses whose effect only shows when something else runs between two instructions.",
 ["src/memory/memory_slice.rs","src/memory/mod.rs","src/delay_line.rs"],
 [("read_volatile / write_volatile element access","src/memory/memory_slice.rs get_unchecked, assign_unchecked"),("Send/Sync handles","src/memory/mod.rs, memory_slice.rs")],
 ["memory image at each instruction boundary","return values of preempted and preempting operations"])

p("C03","Every operation is re-entrant and instances do not influence each other",
 "The result of any library operation on an instance depends only on that instance's own history and the memory it was given: it is bit-identical whether the operation runs alone, is interleaved in any order with operations on other instances, or is preempted at any instruction by code that uses the library (same function or another, other instance, other arguments). The same history therefore always produces the same output, however many other instances exist or ran before.",
 ["schedules","histories"],"all interleavings (operation level and instruction level) of several instances of every component and of the stateless functions",
 "Each unit test runs one instance start to finish with nothing else in between; hidden shared state (a cache, a scratch static) is invisible to it.",
 ["src/lib.rs","src/float/math.rs","src/biquad/mod.rs","src/envelope.rs","src/oscillator/phase_accumulator.rs","src/delay_line.rs","src/comb.rs","src/all_pass.rs","src/fixed_point/math.rs"],
 [("all state lives in the instance; no statics","whole crate")],
 ["outputs of the interleaved run vs. the same history run alone"])

p("C04","A delay line is an exact ring over its buffer under any history",
 "A delay line of length L returns at each step exactly the sample stored in the slot it is about to overwrite, i.e. the value written L steps earlier (or whatever was put in that slot since by another holder of the memory); a wrapped tap at integer offset k returns the slot k positions after the head, modulo L, for positive and negative k. Advancing without writing changes no sample, a copied line is an independent head on the same memory, and moving the line to an equal-length copy of its memory at any instant does not change what it outputs.",
 ["histories","fault_sequences"],"all histories of write/advance/read/tap/copy/replace events on lines of any length >= 1, with other contexts overwriting slots in between",
 "The tests write one lap of a 24-slot buffer and never wrap, tap, advance, copy or replace.",
 ["src/delay_line.rs","src/memory/memory_slice.rs"],
 [("head index wrap at length-1","src/delay_line.rs write_and_advance/advance"),("get_wrapped","src/memory/memory_slice.rs")],
 ["returned samples and memory image vs. a reference ring"],
 [("DelayLine.index","head","src/delay_line.rs")])

p("C05","Fractional delay taps interpolate the right neighbours wherever the head is",
 "A linearly interpolated tap at head+x returns the straight-line blend of the two slots on either side of that position, and a Lagrange tap (four-point, or windowed over the given even number of points (up to 100) centred on the position) passes through the stored samples at integer positions and reproduces the polynomial through its window in between; both wrap around the end and start of the buffer. This holds at every head position and at every moment of a modulated, possibly negative, tap offset, as precisely far from the start of a long line as at its start (only the offset itself is single precision).",
 ["histories","inputs"],"all histories of writes interleaved with modulated fractional taps (offsets within +-4 buffer lengths, head anywhere, buffer length >= 1; windows of 2..8 points, plus window sizes 0..200 for not failing)",
 "Tests interpolate a static ramp with the head at 0 and for Lagrange only check that the result is finite.",
 ["src/delay_line.rs","src/memory/memory_slice.rs","src/float/interpolation.rs"],
 [("lerp_wrapped","src/memory/memory_slice.rs"),("lagrange_wrapped, lagrange_four_points_wrapped","src/memory/memory_slice.rs"),("read_lerp_wrapped_at, read_lagrange_wrapped_at","src/delay_line.rs")],
 ["tap values vs. double-precision interpolation of the reference ring"])

p("C06","The comb filter follows its recurrence through any parameter automation",
 "At every tick the comb outputs the sample stored L ticks ago, updates its damping state to output*(1-dampening) + state*dampening, and stores input + state*feedback, using the feedback and dampening values most recently set (defaults 0.5 and 0.5). A parameter change takes effect on the next tick and disturbs nothing else: neither the stored samples, nor the damping state, nor the position. Moving the comb to another buffer likewise leaves damping state and parameters as they are.",
 ["histories"],"all schedules of ticks, set_feedback (|f| <= 1.2), set_dampening (0..1) and buffer moves, lengths >= 1, arbitrary finite input",
 "One test feeds one impulse with default parameters to a 2-slot comb.",
 ["src/comb.rs","src/delay_line.rs"],
 [("Comb::tick","src/comb.rs"),("set_dampening keeps dampening and its inverse paired","src/comb.rs")],
 ["output samples and buffer contents vs. reference recurrence"],
 [("filter_state","damping low-pass state","src/comb.rs")])

p("C07","The all-pass follows its recurrence through any history",
 "At every tick the all-pass outputs (sample stored L ticks ago) - input and stores input + 0.5 * (sample stored L ticks ago), for any input history, any length L >= 1, across buffer moves and corruption of the stored samples by others.",
 ["histories","fault_sequences"],"all input histories (finite), lengths, buffer moves and external overwrites of slots, non-finite values included",
 "One test feeds one impulse to a 2-slot all-pass.",
 ["src/all_pass.rs","src/delay_line.rs"],
 [("AllPass::tick","src/all_pass.rs")],
 ["output samples and buffer contents vs. reference recurrence"])

p("C08","Reverb blocks stay bounded and die away once input and faults stop",
 "With |feedback| < 1 and dampening in [0,1], no schedule of input (bounded by A), parameter changes and buffer moves ever makes a comb exceed max(initial content, A/(1-max|feedback|)), and an all-pass never stores more than max(initial content, 2A). Once input is silent and no more events or (finite) memory corruption occur, the output of comb (dampening <= 0.95), all-pass, or a series chain of them falls below any threshold within the number of buffer passes its gain implies.",
 ["schedules","fault_sequences"],"all schedules of bounded input, parameter automation and finite buffer corruption; lengths >= 1",
 "Needs every history; the tests look at 8 samples.",
 ["src/comb.rs","src/all_pass.rs","src/delay_line.rs"],
 [("convex damping blend","src/comb.rs set_dampening/tick"),("fixed 0.5 feedback","src/all_pass.rs")],
 ["output peak during the run; output peak after the drain bound"])

p("C09","The envelope level is always a finite number in 0..1",
 "For every sequence of gate-on, gate-off, reset, parameter changes (times >= 0 including zero and very long, any finite sustain, any finite slope) and ticks, every value the ADSR returns is finite and within [0,1], and it is exactly 0 while idle and exactly the current sustain level while sustaining.",
 ["histories"],"all event sequences over gate, reset, set_attack/decay/sustain/release/slope/sample-rate and ticks, at sample rates >= 1 Hz",
 "Two tests run one fixed patch and one gate; they also run with the standard library's math instead of the approximations that ship in the no_std build.",
 ["src/envelope.rs"],
 [("clamping of sustain and slope, set_time_parameter","src/envelope.rs"),("next_attack/next_decay/next_release","src/envelope.rs")],
 ["values returned by tick()"],
 [("t","normalised time in the stage","src/envelope.rs"),("envelope_value","last level","src/envelope.rs")])

p("C10","Envelope stages follow the gate in order and last as long as configured",
 "Gate-on leads to attack, then decay, then sustain; gate-off from any of those leads to release, then idle; no other transitions occur and gate-off in release or idle does nothing. An attack from idle, a decay and a release each last their configured time (0 to 2 s, at the current sample rate, also after a sample-rate or time change) within 0.2% plus 3 samples (plus what single-precision accumulation of that many steps rounds, at most 1.2%), ending exactly at 1, at the sustain level and at 0 respectively, so with the gate held sustain is reached, and after gate-off idle is reached, whatever happened before. Within a stage with constant parameters the level moves monotonically (up to 5e-5, the roughness of the math approximation in use) along t^(1/slope) (attack) or 1-t^slope (decay, release), within 0.3% of full scale beyond the error of that approximation; a decay or release may end early once what remains of its curve is inaudible, and an attack retriggered from a sounding level climbs monotonically from there to 1 within the configured time.",
 ["histories","schedules"],"all gate/parameter schedules; slope 1/20..20; stage times 0..2 s; sample rates 1 kHz..192 kHz",
 "Two fixed runs with 3 ms stages at one sample rate, slope 0.5.",
 ["src/envelope.rs"],
 [("state machine in tick/trigger_on/trigger_off","src/envelope.rs"),("per-sample increments from set_time_parameter","src/envelope.rs")],
 ["get_state() and tick() vs. a reference envelope"])

p("C11","Gate edges never make a sounding envelope jump",
 "Gate-off starts the release from the level last output and gate-on during decay, sustain or release starts the new attack from the level last output: the first value after the edge is no further from the last one than one sample of that stage's curve, a release never rises above its starting level and such a retriggered attack never falls below it. This holds for every earlier history, including parameter changes made while sustaining. (Gate-on during attack deliberately restarts the attack from zero.)",
 ["histories","schedules"],"gate edges at every sample position of every stage after any history of parameter changes; slope 1/20..20",
 "One test releases early in attack; none changes a parameter while sounding and none retriggers.",
 ["src/envelope.rs"],
 [("release_val latched on trigger_off","src/envelope.rs"),("retrigger in trigger_on","src/envelope.rs")],
 ["tick() values around gate edges"])

p("C12","The phase accumulator never drifts, jitters or jumps",
 "While frequency, phase shift and sample rate are unchanged every tick advances the phase by exactly the same step, freq/sr of a full 32-bit turn (within 3e-7 relative plus 2 units, frequencies 0..sr), modulo 2^32, for any number of ticks. A frequency or sample-rate change affects only later steps and never the current phase; a phase shift offsets the output by exactly the given amount, does not accumulate, and can be taken back; raw and normalised reads advance identically and the normalised value is the raw one / 2^32 (within 1e-7) and always in [0,1); the checked frequency setter applies a positive frequency and rejects zero or negative ones leaving the accumulator unchanged.",
 ["histories"],"all schedules of ticks (up to millions) with frequency, shift and rate changes at any tick",
 "No test reads the accumulator; oscillator tests run two cycles at one frequency.",
 ["src/oscillator/phase_accumulator.rs"],
 [("wrapping_add of an integer step","src/oscillator/phase_accumulator.rs tick"),("shift added on output only","src/oscillator/phase_accumulator.rs next_value")],
 ["next_value/next_value_normalized vs. exact integer model"],
 [("counter","phase","src/oscillator/phase_accumulator.rs")])

p("C13","An oscillator outputs its waveform at the phase its timer gives, glitches or not",
 "Each sample advances the phase accumulator exactly once and equals the selected waveform at the phase p it returned: sine sin(2*pi*p) within 5e-4, saw 2p-1, rectangle -1 in the first half and +1 in the second, triangle rising -1 to 1 then falling back (within 1e-5), so always within [-1,1] (sine 1e-4 slack), for any accumulator that stays in [0,1), including one that stalls, skips, jitters or runs backwards. Waveform, frequency, phase-shift and sample-rate changes reach the accumulator unaltered (a shift s in 0..1 as s full turns), take effect on the next sample and never disturb the phase.",
 ["schedules","fault_sequences"],"all phase sequences a hardware or software accumulator can produce (stalls, jumps, repeats, values next to 0, 1/2 and 1) and all control schedules",
 "Four tests check bounds over two cycles of one frequency with the software accumulator.",
 ["src/oscillator/osc_functional.rs","src/oscillator/phase_accumulator.rs","src/float/math.rs"],
 [("next_sine/next_rect/next_saw/next_tri","src/oscillator/osc_functional.rs"),("PhaseAccumulator trait seam","src/oscillator/phase_accumulator.rs")],
 ["next() vs. reference waveform of the simulated accumulator's phase; calls recorded by the accumulator"])

p("C14","A wavetable oscillator interpolates its table as one cycle, never outside it",
 "Each sample advances the accumulator exactly once and equals the linear interpolation, at position p*N, of the N-entry table taken as one periodic cycle (the last entry interpolates to the first), for any table length N >= 1, any phase p in [0,1) and any accumulator behaviour including stalls and jumps. Table entries rewritten by another context are picked up on the next sample, and control changes reach the accumulator unaltered without disturbing the phase.",
 ["schedules","fault_sequences"],"all phase sequences, tables of length 1..4096 and table rewrites at run time",
 "No test touches the wavetable oscillator.",
 ["src/oscillator/osc_wavetable.rs","src/memory/memory_slice.rs"],
 [("WavetableOscillator::next","src/oscillator/osc_wavetable.rs"),("lerp_wrapped","src/memory/memory_slice.rs")],
 ["next() vs. double-precision circular interpolation; poison around the table"])

p("C15","A biquad computes its difference equation with coefficients changing under it",
 "The output is the two-pole two-zero transposed-form recurrence y = b0*x + s1, s1 = b1*x - a1*y + s2, s2 = b2*x - a2*y evaluated with whatever coefficients are in place at each sample, starting from silence, for every schedule of coefficient rewrites between samples (designs or direct field writes). Changing coefficients, at any sample, neither clears nor alters the filter's memory.",
 ["histories","schedules"],"all input histories and coefficient-change schedules (stable coefficients)",
 "No test runs the biquad beyond a doc example that ignores the output.",
 ["src/biquad/mod.rs"],
 [("Biquad::process","src/biquad/mod.rs")],
 ["process() vs. double-precision reference filter driven by the same coefficients"],
 [("z1,z2","filter memory","src/biquad/mod.rs")])

p("C16","Biquad filters stay finite and ring out after reconfiguration stops",
 "Under any burst of reconfigurations among the provided designs (up to 16 changes of design, cutoff or Q; cutoff sr/2400..0.45*sr, Q 0.1..20, |gain| 0.1..16, for low-shelf cuts also cutoff*sqrt(|gain|) >= sr/2400, sample rates 8..192 kHz) and bounded input, the output stays finite; once input is silent and reconfiguration stops, the output decays below 1e-3 of its level within the time implied by the slowest pole such a cutoff, Q and gain call for. Every design the API can select is stable.",
 ["schedules","configurations"],"all bursts of up to 16 reconfigurations over the eight designs, at any sample positions",
 "No test configures a filter and listens to it.",
 ["src/biquad/butterworth.rs","src/biquad/mod.rs"],
 [("denominators 1 + k/q + k^2 with k > 0","src/biquad/butterworth.rs"),("fast_tan","src/float/math.rs")],
 ["process() output during the run and after the ring-out bound"])

p("C17","After any reconfiguration history a filter settles to its selected response",
 "Once no more changes are made, the measured steady-state gain is that of the last design selected, whatever the history: lowpass 1 at DC, 0 at Nyquist, Q at cutoff; highpass 0, 1, Q; all-pass 1 everywhere; notch 1 at DC and Nyquist and 0 at cutoff; bell 1 at DC and Nyquist and at centre the gain (positive gain) or 1/|gain| (negative gain); low shelf 1 at Nyquist and at DC the gain or 1/|gain|. Cutoffs sr/200..0.3*sr, Q 0.1..20, |gain| 0.1..16; tolerance 2% (max(3e-3, 1e-3*Q) absolute at nulls). At every other frequency f gain and phase are those of the second-order analogue prototype of that design under s -> tan(pi f/sr)/tan(pi fc/sr), within 2% (shelf 10%: approximate square root) plus 0.2% per unit of Q.",
 ["histories","configurations"],"all reconfiguration histories followed by a settling period; all eight designs",
 "No test measures any response.",
 ["src/biquad/butterworth.rs","src/biquad/mod.rs","src/float/math.rs"],
 [("coefficient formulas","src/biquad/butterworth.rs"),("fast_tan pre-warping","src/float/math.rs")],
 ["steady-state amplitude of process() on probe tones"])

p("C18","Memory handles address exactly their elements through any rearrangement",
 "A handle of length n built over memory, taken as a sub-slice (nested to any depth), copied, or re-pointed at run time addresses exactly those n elements: checked get/assign succeed exactly for indices 0..n-1 and otherwise return IndexOutOfBound without touching memory; wrapped access at any signed index addresses index mod n; a sub-slice succeeds exactly when offset < n and offset+length <= n (else IndexOutOfBound, respectively LengthOutOfBound) and aliases those elements; checked lerp accepts exactly 0..=n-1. Writes through any handle are visible at once through every other handle to the same element.",
 ["histories"],"all graphs of aliasing handles over shared memory built by sub-slicing, copying and re-pointing, and all operation sequences by several tasks on them",
 "Tests use one handle over one whole buffer and never take a sub-slice, re-point or alias.",
 ["src/memory/memory_slice.rs","src/memory/mod.rs"],
 [("get/assign/get_sub_slice/get_wrapped/lerp bounds logic","src/memory/memory_slice.rs"),("change_slice_unchecked","src/memory/memory_slice.rs")],
 ["results vs. a reference model of index ranges over one memory array"])

p("C19","Samples in caller memory survive a crash or restart at any instruction",
 "Only a write or tick modifies sample memory, and it modifies exactly the one slot at the head with a single store: if power is lost at any instruction of any operation, memory holds every earlier sample intact and the slot in flight holds either its old or its new value. Building, copying, moving or dropping a delay line, comb or all-pass never changes sample memory, and a component rebuilt over surviving memory starts at the first slot and plays back exactly the surviving samples.",
 ["crash_points","histories"],"all crash points (machine instructions) in all operations of all histories; restart over the surviving memory",
 "No test stops in the middle of an operation or rebuilds a component over used memory.",
 ["src/delay_line.rs","src/comb.rs","src/all_pass.rs","src/memory/memory_slice.rs"],
 [("single volatile store per tick","src/delay_line.rs write_and_advance"),("constructors do not touch the buffer","src/delay_line.rs, comb.rs, all_pass.rs")],
 ["memory image at the crash instant; output after restart"])

p("C20","Every operation takes bounded time whatever its arguments, memory and history",
 "Any call of a delay line, comb, all-pass, biquad or filter design, envelope, oscillator, phase accumulator or memory handle (constructors, control and audio calls alike) returns, without panic, after a bounded number of machine instructions (less than 10000 in an optimised build; for the windowed Lagrange interpolation additionally 60 per squared window point, window at most 100). The number does not grow with the length of a buffer, with how many calls went before, or with the magnitude of an argument (index, offset, frequency, phase shift, time, cutoff, Q, gain: zero, huge, infinite or not a number; sample rates of an envelope from 1 Hz on), and it holds when an interrupt using the library cuts in.",
 ["histories","schedules","inputs"],"all argument values, buffer lengths, lengths of the preceding history and preempting operations",
 "Tests never count work; a loop that is quick for the sampled arguments and short histories looks the same to them as constant work.",
 ["src/delay_line.rs","src/comb.rs","src/all_pass.rs","src/memory/memory_slice.rs","src/envelope.rs","src/biquad/butterworth.rs","src/oscillator/phase_accumulator.rs","src/oscillator/osc_functional.rs","src/oscillator/osc_wavetable.rs"],
 [("index wrapping by remainder, not by repetition","src/memory/memory_slice.rs"),("no clearing or scanning of buffers in constructors and change_buffer","src/delay_line.rs, comb.rs, all_pass.rs"),("no locks, no waiting","whole crate")],
 ["machine instructions executed by each call; panics"])

p("C21","A whole patch sounds the same however it is scheduled, and ends in silence",
 "An instrument assembled from the blocks (voices of oscillator, ADSR and biquad, panned, into combs, all-passes, feedback and modulated delays, clipped) played by any score of note, knob, filter, table and effect events renders bit-identical audio whether it is computed sample by sample or in blocks of any size, in any order of voices and blocks of code, with the components moved about in memory between blocks, and with delay memory moved to equally long copies or not. With stable settings (cutoffs sr/170..0.3*sr, Q 0.3..4, feedback at most 0.8) and finite corruption every sample is finite, the clipped output lies in [-1,1], and once all notes are released and events and corruption stop the output falls below 1e-3 within the time release, filters and echoes call for.",
 ["schedules","histories","fault_sequences"],"all scores, block sizes, orders of execution, placements and fault sequences of all such instruments",
 "No test combines two components; the settings, the interplay and the silence afterwards only exist in an assembled instrument.",
 ["src/oscillator/osc_functional.rs","src/oscillator/osc_wavetable.rs","src/envelope.rs","src/biquad/mod.rs","src/biquad/butterworth.rs","src/comb.rs","src/all_pass.rs","src/delay_line.rs","src/stereo.rs","src/clipping.rs"],
 [("all state lives in the component and its buffer","whole crate"),("release ends at zero","src/envelope.rs next_release"),("decaying recurrences","src/comb.rs, all_pass.rs, biquad/mod.rs")],
 ["every output sample of two devices rendering the same score; silence after the last note"])

p("C22","The same history gives the same audio on a 32-bit device as on a 64-bit host",
 "The crate is for microcontrollers, whose usize and isize have 32 bits. The same sequence of calls with the same arguments (construction, ticks, reads, writes, taps at any 32-bit integer position and any float position below 2^31 in magnitude, coefficient designs, parameter changes, buffer changes, restarts on surviving memory, memory changed from outside), executed by the crate compiled for a 32-bit target, gives bit-identical results (any NaN counting as the same) and leaves bit-identical memory as compiled for a 64-bit target; with arithmetic checks on, no such call, nor one with a float position of 2^31 or beyond, infinite or NaN, panics on the 32-bit target.",
 ["histories","inputs","fault_sequences"],"all histories of calls on delay line, comb, all-pass, biquad, envelope, oscillators, memory handles and the stateless functions, all arguments of the kinds named",
 "The tests run on the 64-bit development host only; where a conversion through usize or isize saturates, overflows or loses bits on the device, no test can see it.",
 ["src/memory/memory_slice.rs","src/delay_line.rs","src/oscillator/phase_accumulator.rs","src/oscillator/osc_functional.rs","src/oscillator/osc_wavetable.rs","src/comb.rs","src/all_pass.rs","src/envelope.rs","src/biquad/butterworth.rs","src/float/math.rs"],
 [("positions reduced with rem_euclid and saturating or checked sums","src/memory/memory_slice.rs, src/delay_line.rs"),("phase kept in u32","src/oscillator/phase_accumulator.rs"),("float arithmetic only through core and micromath","whole crate")],
 ["every answer of both devices, memory at the end, how the device's program ends"])

# ---- pure functions: not applicable to this technique
def na(id,title,st,files,mech,why):
    p(id,title,st,["inputs"],"all argument values",why,files,mech,["return value"])
na("C30","Decibel conversion is an inverse pair and reports bad ratios",
 "Converting a positive ratio to decibels and back returns it within the accuracy of the math approximations, and the checked conversions return an error exactly for negative (and, for the fully checked one, zero) ratios, never NaN.",
 ["src/decibels.rs"],[("to_decibels*, to_volt_ratio","src/decibels.rs")],"Tests sample 0, 1, -1 and -inf and run with std math rather than the shipped approximations.")
na("C31","Panning and crossfading preserve amplitude or power",
 "Mono panning and crossfade gains sum to 1, stereo panning gains are equal-power within the square-root approximation, and checked forms reject exactly positions outside [-1,1] on the correct side.",
 ["src/stereo.rs"],[("equal_amplitude/equal_power","src/stereo.rs")],"Tests sample three positions with std math.")
na("C32","Free-standing interpolation functions are exact at nodes and reject bad input",
 "Checked lerp returns an error exactly for NaN, infinite or out-of-range input; lagrange passes through all its nodes.",
 ["src/float/interpolation.rs"],[("lerp, lagrange","src/float/interpolation.rs")],"Tests sample a handful of values.")
na("C33","Bit reduction clears exactly the requested bits and is idempotent",
 "Linear and exponential bit reduction keep the sign, never increase magnitude, clear exactly the requested low bits, are idempotent, and reject depths or inputs out of range.",
 ["src/float/bit_manipulation.rs"],[("bit_reduce*, bit_reduce_exp*","src/float/bit_manipulation.rs")],"One value is tested.")
na("C34","Raw float conversions round-trip for every bit pattern",
 "Raw word and sign/exponent/mantissa conversions are mutually inverse for all 2^32 words.",
 ["src/float/conversion.rs"],[("ToRawBytes, FromRawBytes, F32Components","src/float/conversion.rs")],"Tested for pi only.")
na("C35","Fixed-point sine is within its error bound for every phase and degree",
 "The 16-bit polynomial sine stays within its error bound of the true sine for all 65536 phases and is total for all degrees in the checked form.",
 ["src/fixed_point/math.rs"],[("sin_i16","src/fixed_point/math.rs")],"No direct test.")
na("C36","Float math approximations stay within bound over their documented range",
 "sinh, cosh, tanh, fast_tan, sinc, si, table and fixed-point sine/cosine, the band-limited rectangle and the sample/time unit conversions match their mathematical definitions within stated bounds over their documented ranges, without reading outside their tables.",
 ["src/float/math.rs","src/float/integral.rs","src/float/dsp_util.rs","src/oscillator/lookup_tables/mod.rs"],[("AdditionalF32Ext","src/float/math.rs"),("DSPUtility","src/float/dsp_util.rs")],"Doc examples check single points.")
na("C37","Clippers limit to [-1,1] and pass in-range samples smoothly",
 "Every clipper returns a value in [-1,1], is odd-symmetric and monotonic.",
 ["src/clipping.rs"],[("digital_clip, tanh_clip, poly_clip, sigmoid_clip","src/clipping.rs")],"No test; three of the four are unimplemented inside the range.")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
